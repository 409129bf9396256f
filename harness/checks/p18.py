import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["exact part: integer data and weights, logits in multiples of ln 2, judged by TLC as rationals to 1e-4", "real layers against the dense definition in float64, tolerance proportional to machine epsilon times (1 + largest logit); quadrature weights are stored in float32 by the layer", "training-mode dropout is random and only checked to be inactive in evaluation mode or at rate zero", "grids with a zero quadrature weight are excluded"]
MEM = ["contig", "perm", "slice", "step"]


def check(ctx):
    q = ctx.quick
    base = dict(Pats='{"full"}', Ups="{FALSE}", Heads="{1,2,3}")
    r = ctx.tlc("AttnMC", "INIT Init\nNEXT Next\nINVARIANTS Law Dual Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(base, HIs="1..3" if q else "1..4", HOs="1..3" if q else "1..4", Coarse="1..3", Ratios="1..3"))
    ex_, ly = [], []
    for s in vlib.scn_prints(r):
        del s["kd"], s["pat"]
        if s["Hi"] * s["W"] > 18:
            continue
        for v in range(2 if q else 6):
            h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
            ex = lambda k, n: (h >> k) % n
            ex_.append(dict(s, op="exact", B=1 + ex(0, 2), dk=1 + ex(1, 2), dv=1 + ex(2, 3), dt=["f32", "f64"][ex(4, 4) == 0], mem=MEM[ex(8, 4)], gmem=MEM[ex(10, 4)], shift=[0, 7, -20, 100, -100, 0][ex(12, 6)], wmul=[1, 0.0625, 4][ex(15, 3)], rg=[[1, 1, 1], [1, 1, 1], [1, 0, 0], [0, 1, 0], [0, 0, 1], [0, 1, 1]][ex(17, 6)], drop=[0.0, 0.0, 0.4][ex(20, 3)]))
    ex_ = ctx.pick(ex_, 250 if q else 2000, key=lambda s: (s["W"] // s["V"], s["nh"], s["shift"]))
    recs = ctx.replay(ex_)
    if len(recs) < len(ex_) // 2:
        ctx.log("weight seam unavailable: layers are judged end to end only")
    r = ctx.tlc("AttnMC", "INIT Init\nNEXT Next\nINVARIANTS Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(base, HIs="{2,3,4,6,9}" if q else "2..13", HOs="{2,3,5,6}" if q else "2..12", Coarse="{1,2,3,4,8}" if q else "{1,2,3,4,5,8,12}", Ratios="1..4"))
    gr = ["equiangular", "legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal"]
    for s in vlib.scn_prints(r):
        del s["kd"], s["pat"]
        for v in range(2 if q else 5):
            h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
            h |= zlib.crc32(json.dumps([s, ctx.seed, v, 1], sort_keys=True).encode()) << 32
            ex = lambda k, n: (h >> k) % n
            d = dict(s, op="layer", B=1 + ex(0, 2), C=[2, 3, 4, 6][ex(1, 4)], dk=[0, 1, 3, 4][ex(3, 4)], dv=[0, 1, 2, 5][ex(5, 4)], dt=["f32", "f32", "f64", "f32", "bf16", "f16", "f64", "f32"][ex(7, 8)], mem=MEM[ex(13, 4)], gmem=MEM[ex(15, 4)], gi=gr[ex(17, 5)], go=gr[ex(20, 5)], drop=[0.0, 0.0, 0.3][ex(23, 3)], alias=["sep", "none3", "all", "kv", "qk", "qv"][ex(26, 6)],
                     amp=[1, 1, 0.1, 30, 300][ex(29, 5)], kofs=[0, 0, 5, -500][ex(32, 4)], const=ex(34, 4) == 0, qkn=ex(36, 3) == 0, bias=ex(38, 3) > 0, scale=["none", "none", "float", "tensor"][ex(40, 4)])
            if d["dt"] in ("f16", "bf16", "ac"):
                d.update(amp=0.5, kofs=0)
            if d["C"] % d["nh"]:
                d["C"] = d["nh"] * (1 + d["C"] % 3)
            ly.append(d)
    ctx.log(len(ly), "layer configurations")
    ly = ctx.pick(ly, 700 if q else 5000, key=lambda s: (s["W"] // s["V"], s["dt"], s["amp"], s["alias"]))
    for i, (Hi, Ho, W, V) in enumerate([(33, 5, 64, 8), (90, 3, 45, 5), (65, 4, 128, 4), (128, 2, 96, 3), (40, 12, 40, 10), (181, 2, 60, 2), (16, 17, 32, 32), (9, 33, 36, 36), (24, 12, 80, 80)] * (2 if q else 8)):
        h = zlib.crc32(json.dumps([i, ctx.seed, "big"]).encode())
        ex = lambda k, n: (h >> k) % n
        nh = [1, 2, 3][ex(0, 3)]
        ly.append(dict(op="layer", Hi=Hi, Ho=Ho, W=W, V=V, nh=nh, B=1 + ex(2, 2), C=nh * [2, 5, 12][ex(4, 3)], dk=[0, 3][ex(6, 2)], dv=[0, 4][ex(8, 2)], dt=["f32", "f64"][ex(10, 2)], mem=MEM[ex(12, 4)], gmem=MEM[ex(14, 4)], gi=gr[ex(16, 3)], go=gr[ex(18, 3)], drop=0.0, alias="sep", amp=[0.3, 1][ex(20, 2)], kofs=0, const=i % 3 == 0, qkn=ex(22, 2) == 0, bias=True, scale="none"))
    recs += ctx.replay(ly)
    ctx.validate("T_P17", recs)
