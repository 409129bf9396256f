import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["exact part: fabricated neighbourhood patterns (through the library's precomputation seam) of up to 24 entries, logits in multiples of ln 2, judged by TLC as rationals to 1e-4; common logit shifts up to 100",
               "real layers against the dense definition in float64, tolerance proportional to machine epsilon times (1 + largest logit); the compiled kernels compute in float32 for every dtype", "output points without any neighbour (undefined softmax) and points within 1e-7 of the cutoff are excluded", "CPU kernels only (no CUDA device)"]
MEM = ["contig", "perm", "slice", "step"]


def check(ctx):
    q = ctx.quick
    base = dict(Pats='{"sparse","rand","dense","full","onerow"}', Ups="{TRUE,FALSE}", Heads="{1,2,3}")
    r = ctx.tlc("AttnMC", "INIT Init\nNEXT Next\nINVARIANTS Law Dual Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(base, HIs="1..3" if q else "1..4", HOs="1..3" if q else "1..4", Coarse="1..4", Ratios="1..3"))
    ex_, ly = [], []
    for s in vlib.scn_prints(r):
        del s["kd"]
        for v in range(1 if q else 2):
            h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
            ex = lambda k, n: (h >> k) % n
            ex_.append(dict(s, op="exact", B=1 + ex(0, 2), dk=1 + ex(1, 2), dv=1 + ex(2, 3), dt=["f32", "f64"][ex(4, 4) == 0], opt=ex(6, 4) > 0, mem=MEM[ex(8, 4)], gmem=MEM[ex(10, 4)], shift=[0, 7, -20, 100, -100, 0][ex(12, 6)], wmul=[1, 0.0625, 4][ex(15, 3)], rg=[[1, 1, 1], [1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 1]][ex(17, 6)]))
    ctx.log(len(ex_), "exact configurations")
    ex_ = ctx.pick(ex_, 320 if q else 3000, key=lambda s: (s["pat"], s["W"] // s["V"], s["V"] // s["W"], s["opt"], s["nh"] > 1))
    recs = ctx.replay(ex_)
    if len(recs) < len(ex_) // 2:
        ctx.log("pattern seam unavailable: layers are judged end to end only")
    # real layers
    r = ctx.tlc("AttnMC", "INIT Init\nNEXT Next\nINVARIANTS Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(base, Pats='{"-"}', HIs="{3,4,6,9}" if q else "{2,3,4,5,6,7,9,12}", HOs="{2,3,5,6}" if q else "{2,3,4,5,6,9,10}", Coarse="{2,3,4,8}" if q else "{1,2,3,4,5,8,12}", Ratios="1..4"))
    gr = ["equiangular", "legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal"]
    for s in vlib.scn_prints(r):
        if s["kd"] != "scn":
            continue
        del s["kd"], s["pat"]
        for v in range(2 if q else 5):
            h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
            h |= zlib.crc32(json.dumps([s, ctx.seed, v, 1], sort_keys=True).encode()) << 32
            ex = lambda k, n: (h >> k) % n
            d = dict(s, op="layer", B=1 + ex(0, 2), C=[2, 3, 4, 6][ex(1, 4)], dk=[0, 1, 3, 4][ex(3, 4)], dv=[0, 1, 2, 5][ex(5, 4)], dt=["f32", "f32", "f64", "f32", "bf16", "f16", "ac", "f32"][ex(7, 8)], opt=ex(10, 5) > 0, mem=MEM[ex(13, 4)], gmem=MEM[ex(15, 4)], gi=gr[ex(17, 5)], go=gr[ex(20, 5)], cut=[0, 0, 100, 170, 60, 260, 250][ex(23, 7)], alias=["sep", "none3", "all", "kv", "qk", "qv"][ex(26, 6)],
                     amp=[1, 1, 0.1, 30, 300][ex(29, 5)], kofs=[0, 0, 5, -500][ex(32, 4)], const=ex(34, 4) == 0, qkn=ex(36, 3) == 0, bias=ex(38, 3) > 0, scale=["none", "none", "float", "tensor"][ex(40, 4)])
            if d["dt"] in ("f16", "bf16", "ac"):
                d.update(amp=0.5, kofs=0)
            if d["C"] % d["nh"]:
                d["C"] = d["nh"] * (1 + d["C"] % 3)
            ly.append(d)
    if True:  # long longitude rows: several blocks of the compiled kernels
        for i, (Hi, Ho, W, V) in enumerate([(3, 3, 130, 130), (4, 3, 130, 65), (3, 4, 66, 132), (3, 3, 64, 64), (5, 4, 260, 65), (3, 2, 70, 210), (7, 5, 384, 128), (4, 5, 200, 200), (5, 6, 65, 195), (5, 3, 520, 130), (3, 5, 33, 330), (6, 4, 640, 80)] * (2 if q else 6)):
            h = zlib.crc32(json.dumps([i, ctx.seed]).encode())
            ex = lambda k, n: (h >> k) % n
            ly.append(dict(op="layer", Hi=Hi, Ho=Ho, W=W, V=V, nh=1 + ex(0, 2), B=1, C=2, dk=0, dv=0, dt=["f32", "f32", "bf16"][ex(4, 3)], opt=True, mem=MEM[ex(6, 4)], gmem="contig", gi="equiangular", go="equiangular", cut=[0, 60, 130][ex(8, 3)], alias="sep", amp=1, kofs=0, const=False, qkn=False, bias=True, scale="none", big=1))
    ctx.log(len(ly), "layer configurations")
    big = [s for s in ly if s.get("big")]
    ly = ctx.pick([s for s in ly if not s.get("big")], 700 if q else 6000, key=lambda s: (s["W"] // s["V"], s["V"] // s["W"], s["opt"], s["dt"], s["amp"])) + big
    # larger grids, batches, heads and channels, kernels running on several threads
    thr = []
    for i in range(24 if q else 160):
        Hi, Ho, W, V = [(17, 17, 24, 24), (25, 13, 36, 12), (9, 21, 10, 30), (33, 33, 32, 32), (40, 6, 40, 40), (7, 31, 16, 48), (21, 41, 20, 20), (19, 10, 70, 35)][i % 8]
        h = zlib.crc32(json.dumps([i, ctx.seed, "thr"]).encode())
        ex = lambda k, n: (h >> k) % n
        nh = [1, 2, 4, 3, 6, 8][ex(0, 6)]
        thr.append(dict(op="layer", Hi=Hi, Ho=Ho, W=W, V=V, nh=nh, B=[1, 2, 3, 7][ex(2, 4)], C=nh * [4, 8, 17, 33][ex(4, 4)], dk=[0, 5, 16][ex(6, 3)], dv=[0, 7, 32][ex(8, 3)], dt="f32", opt=True, mem=MEM[ex(10, 4)], gmem=MEM[ex(12, 4)], gi=gr[ex(14, 3)], go=gr[ex(16, 3)], cut=[0, 130, 310, 520][ex(18, 4)], alias=["sep", "kv", "sep", "qk"][ex(20, 4)],
                        amp=[0.3, 1][ex(22, 2)], kofs=0, const=False, qkn=ex(24, 3) == 0, bias=True, scale="none", thr=1))
    recs += ctx.replay(ly) + ctx.replay(thr, threads=4, nworkers=3)
    if not q:
        d = vlib.openmp_build(ctx.work, ctx.log)
        if d:
            import os
            recs += ctx.replay(thr, threads=8, nworkers=2, env=dict(PYTHONPATH=os.path.join(vlib.VERIF, "harness") + os.pathsep + d))
    ctx.validate("T_P17", recs)
