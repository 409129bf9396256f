import json, random, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["ranks simulated in one process with the torch.distributed contract of harness/simdist.py", "process grids up to 4x4; resolutions up to 21x24, plus a sample up to 80x120; resampling needs at least as many channels as ranks per group (the transposes' own precondition)",
               "torch.compile is disabled (the compiled helper is semantically its Python body)", "the serial layers (P13, P19, P20) are the reference"]
MEM = ["contig", "perm", "slice", "step"]
G = ["equiangular", "legendre-gauss", "lobatto"]
LEADS = {1: [[1, 1]], 2: [[1, 2], [2, 1]], 3: [[1, 3], [3, 1]], 4: [[1, 4], [2, 2]], 6: [[1, 6], [2, 3], [3, 2]]}


def variants(s, seed):
    h = zlib.crc32(json.dumps([s, seed], sort_keys=True).encode())
    ex = lambda k, n: (h >> k) % n
    g = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
    t = dict(s, mem=MEM[ex(0, 4)], gmem=MEM[ex(2, 4)], debug=ex(4, 4) == 0, pol=[None, "first", "last", "rr"][ex(6, 4)], B=1 + ex(8, 3), dt="f64" if ex(10, 3) else "f32")
    a, b = [0, 1, 3, 7, 10, 4][ex(12, 6)], [0, 1, 2, 5, 8, 12][ex(14, 6)]
    if s["op"] == "quad":
        return dict(t, hin=s["hin"] + a, win=s["win"] + b, gin=g[ex(17, 4)], norm=bool(ex(19, 2)))
    if s["op"] == "resample":
        if s["expand"]:
            gin, gout = "legendre-gauss", g[ex(17, 3)]
        else:
            gin, gout = [("equiangular", g[ex(17, 3)]), ("lobatto", g[ex(19, 4)]), ("equiangular-trapezoidal", g[ex(17, 4)])][ex(21, 3)]
        same = ex(24, 6) == 0
        return dict(t, hin=s["hin"] + a, win=s["win"] + b, hout=s["hin"] + a if same else s["hout"] + b, wout=s["win"] + b if same else s["wout"] + a, gin=gin, gout=gin if same and ex(29, 2) else gout, mode=["bilinear", "bilinear", "bilinear-spherical"][ex(26, 3)], amp=[1, 1, 3][ex(23, 3)], lead=[[], [1], [2]][ex(28, 3)])
    cfg = [(1, 2, 3), (1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1), (1, 5, 2)][ex(17, 6)]
    d = dict(t, hin=max(2 * s["na"], s["hin"]) + a, win=max(2 * s["na"], 2 * s["np"], s["win"]) + b, hout=max(2 * s["na"], s["hout"]) + [0, 2, 5][ex(20, 3)], wout=max(2 * s["na"], 2 * s["np"], s["wout"]) + [0, 1, 4][ex(22, 3)], groups=cfg[0], gi=cfg[1], go=cfg[2], gin=G[ex(24, 3)], gout=G[ex(26, 3)], bias=bool(ex(28, 3)))
    lim = [None, None, "hin", "hout", "win", "wout"][ex(16, 6)]
    if lim:  # one of the four extents alone decides the truncation
        n = max(2 * s["na"], 2 * s["np"], 4) + ex(9, 3)
        d.update(hin=2 * n + ex(11, 3), hout=2 * n + ex(13, 3), win=4 * n + 2 + ex(15, 3), wout=4 * n + 2 + ex(18, 3))
        d[lim] = n
    return d



def check(ctx):
    q = ctx.quick
    r = ctx.tlc("DistOps", "INIT Init\nNEXT Next\nINVARIANTS Admissible Final Scn\nCHECK_DEADLOCK FALSE\n", workers=8, defs=dict(PSet="1..4", ASet="1..4", Hs="{4,5,7}" if q else "{4,5,6,7}", Ws="{4,6,9}" if q else "{4,5,6,9}", Chans="{1,2,3,4,6}"))
    base = vlib.scn_prints(r)
    scns = [variants(s, ctx.seed + k) for s in base for k in range(1 if q else 2)]
    ctx.log(len(scns), "configurations")
    scns = ctx.pick(scns, 480 if q else 9000, key=lambda s: (s["np"], s["na"], s["op"], s.get("mode"), s.get("bias"), s.get("expand")))
    rng = random.Random(ctx.seed)
    for s in ctx.pick([variants(s, ctx.seed + 77) for s in base], 60 if q else 600, key=lambda s: (s["op"], s.get("expand"), s["np"] > 1, s["na"] > 1)):
        s.update(hin=s["hin"] + rng.choice([27, 40, 61]), win=s["win"] + rng.choice([30, 59, 88]))
        if s["op"] != "quad":
            s.update(hout=s["hout"] + rng.choice([20, 29, 58]), wout=s["wout"] + rng.choice([27, 60, 99]))
        scns.append(s)
    recs = ctx.replay(scns)
    ctx.validate("T_Dist", recs, split=1 if q else 4)
