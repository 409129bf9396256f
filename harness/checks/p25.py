import json, random, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["float32 CPU execution, as in the modules; areas from the quadrature rules of property P13 recomputed in the harness", "TLC judges values to 6e-3 (integer areas); the float64 definition is compared to 2e-5", "certain predictions (logits 0 and 40) for the TLC judgement, random logits for the comparison with the definition", "classes absent from prediction and truth count as score 0 in the macro average, as the code says", "derivative-based losses (W11, normal consistency): zero for equal fields, longitude rotation, mask and batch order only"]


def check(ctx):
    q = ctx.quick
    inv = "INVARIANTS Partition Perfect IgnoredDontMatter Scn\nCHECK_DEADLOCK FALSE\n"
    r = ctx.tlc("MetricsMC", "INIT Init\nNEXT Next\n" + inv, defs=dict(Hs="{3}", Ws="{1}", Bs="{1}", Cs="{2,3}"))
    n = 200 if q else 2400
    g = ctx.tlc("MetricsMC", "INIT Init\nNEXT Next\n" + inv, defs=dict(Hs="{3,4,5}", Ws="{1,2,3}", Bs="{1,2,3}", Cs="{2,3,4}"), extra=("-simulate", f"num={n // 8}", "-depth", "50", "-seed", str(ctx.seed)))
    base = vlib.scn_prints(r) + list({json.dumps(s): s for s in vlib.scn_prints(g)}.values())
    rng = random.Random(ctx.seed)
    for k in range(12 if q else 150):  # more classes and samples than the walks above reach
        H, W, (B, C) = rng.choice([3, 4, 7]), rng.choice([1, 3, 5]), rng.choice([(2, 6), (1, 9), (1, 14), (5, 2)])  # TLC's integers bound B * C
        base.append(dict(H=H, W=W, B=B, C=C, P=[[b + 1, r + 1, rng.randint(1, C), rng.randint(0, C)] for b in range(B) for r in range(H) for _ in range(W)]))
    ctx.log(len(base), "labelled grids")
    gr = ["equiangular", "legendre-gauss", "lobatto", "equiangular-trapezoidal"]
    scns = []
    for s in base:
        if all(p[3] == 0 for p in s["P"]):
            continue  # no score is defined
        for op in ("score", "dice", "ce", "err", "der"):
            h = zlib.crc32(json.dumps([s, op, ctx.seed], sort_keys=True).encode())
            ex = lambda k, n: (h >> k) % n
            scns.append(dict(s, op=op, grid=gr[ex(0, 4)], macro=bool(ex(3, 2)), weighted=bool(ex(4, 2)), smooth=[0, 0, 5000, 10000][ex(5, 4)], pw=1 + ex(8, 2), masked=bool(ex(9, 2)), root=bool(ex(10, 2)), kind=["CrossEntropyLossS2", "FocalLossS2"][ex(11, 2)], ig=[-100, -1, s["C"], 0][ex(13, 4)], der=["W11LossS2", "NormalLossS2"][ex(15, 2)], chan=bool(ex(16, 2))))
    scns = ctx.pick(scns, 2500 if q else 20000, key=lambda s: (s["op"], s["grid"], s["macro"], s["weighted"], s["B"], s["masked"]))
    ctx.validate("T_P25", ctx.replay(scns))
