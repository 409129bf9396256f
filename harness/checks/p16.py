import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["reference bases and geometry written from their definitions (harness/props/p16.py), descriptors and order of the basis functions from the specification; float64 layers, impulses, agreement within 1e-6 of the row's largest value",
               "points within 1e-9 of the cutoff or of a hat function's edge are not compared (rounding decides membership there)", "grids up to 9x16 (quick) / 13x24 (thorough), kernel shapes up to 5"]


def check(ctx):
    q = ctx.quick
    shapes = "{<<1,1>>,<<2,1>>,<<3,1>>,<<4,1>>,<<5,1>>,<<2,2>>,<<3,2>>,<<3,3>>,<<2,3>>,<<3,4>>,<<4,3>>,<<1,2>>,<<2,4>>,<<1,3>>,<<5,2>>,<<8,1>>,<<9,1>>,<<6,5>>,<<7,3>>,<<6,6>>}"
    r = ctx.tlc("FilterMC", "INIT Init\nNEXT Next\nINVARIANTS Count Distinct Ordered Unity Scn Desc\nCHECK_DEADLOCK FALSE\n", defs=dict(
        Shapes=shapes, Types='{"piecewise linear","harmonic","morlet","zernike","fourier-bessel"}', Hs="{5,6,9}" if q else "{4,5,6,7,9,13}", Rs="{3,5,6}" if q else "{3,4,5,6,9}", Ws="{3,4,8}" if q else "{1,2,3,4,5,6,8,12}", Ratios="{1,2}" if q else "{1,2,3}",
        Modes='{"none","nodal","modal","mean","support","geometric","individual","area ratio"}', Ops='{"conv","trans"}', Cuts="{0,100,150,237}" if q else "{0,40,100,150,200,237,390}"))
    desc = {(d["t"], d["k0"], d["k1"]): d for d in vlib.scn_prints(r, "DESC ")}
    scns = []
    for s in vlib.scn_prints(r):
        del s["k"]
        d = desc[(s["t"], s["k0"], s["k1"])]
        h = zlib.crc32(json.dumps([s, ctx.seed], sort_keys=True).encode())
        ex = lambda k, n: (h >> k) % n
        gr = ["equiangular", "legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal"]
        scns.append(dict(s, B=d["B"], iso=d["iso"], gf=gr[ex(0, 5)], gc=gr[ex(3, 5)], opt=ex(6, 3) > 0, fused=bool(ex(9, 2)), G=[1, 1, 2, 3][ex(12, 4)], ksform=ex(15, 2)))
    for s in scns:
        if s["mode"] == "none" and s["t"] == "piecewise linear" and s["cut"] == 100:
            s["gf"] = s["gc"] = "equiangular"
    ctx.log(len(scns), "configurations")
    scns = ctx.pick(scns, 1200 if q else 6000, key=lambda s: (s["op"], s["t"], s["mode"], s["k0"] % 2, min(s["k1"], 2), s["gf"] == "equiangular")) + ctx.pick([s for s in scns if s["mode"] == "none" and s["t"] == "piecewise linear" and s["cut"] == 100 and (s["H"] - 1) % (s["R"] - 1) == 0 and s["op"] == "conv"], 60 if q else 400, key=lambda s: (s["k0"], s["k1"]))
    # large grids, probed with a sample of impulses
    BIG = [(97, 97, 96, 96), (129, 17, 256, 16), (65, 65, 64, 64), (64, 33, 128, 32), (181, 9, 190, 10), (48, 90, 36, 36)]
    big = []
    dk = sorted(k for k in desc if k[1] * max(k[2], 1) <= 6)
    for n in range(24 if q else 200):
        H, R, W, V = BIG[n % len(BIG)]
        t, k0, k1 = dk[(n * 7 + ctx.seed) % len(dk)]
        d = desc[(t, k0, k1)]
        if len(d["B"]) * R * H * W > 6000000:
            t, k0, k1 = ("zernike", 2, 1) if ("zernike", 2, 1) in desc else next(k for k in dk if len(desc[k]["B"]) <= 3)
            d = desc[(t, k0, k1)]
        gr = ["equiangular", "legendre-gauss", "lobatto"]
        big.append(dict(t=t, k0=k0, k1=k1, H=H, R=R, V=V, W=W, op=["conv", "trans"][(n // 2) % 2], mode=["modal", "nodal", "mean", "support", "geometric", "none"][(n // 3 + n) % 6], cut=[0, 60, 150, 300][(n + n // 4) % 4], B=d["B"], iso=d["iso"], gf=gr[n % 3], gc=gr[(n // 3) % 3], opt=n % 4 > 0, fused=n % 5 == 0, G=[1, 2][n % 2], ksform=0, probes=12, i=n))
    for b in big:  # the reference kernel is slow on large grids
        b["opt"] = b["opt"] or b["H"] * b["W"] > 4000
    ctx.validate("T_P16", ctx.replay(scns + big))
