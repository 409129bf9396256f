import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["filters of up to 30 integer entries on grids up to 5x12, integer inputs/weights: results are exact in float32/float64 and judged exactly by TLC; large layers (65x390, 1500 entries, 40 channels, 4 threads) against an integer evaluation of the same sums that TLC checks on the small ones", "CPU kernels only (no CUDA device); the layers receive the fabricated filter through the library's own filter precomputation seam", "real filters are covered end to end by P16"]
PATS = ["rand", "one", "empty", "lastfirst", "nokernel", "norow", "same", "full"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("DiscoMC", "INIT Init\nNEXT Next\nINVARIANTS Law Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(
        Rows="{2,3}" if q else "2..4", Lats="{2,3}" if q else "2..5", Vs="{1,2,3,4}" if q else "1..6", Ps="{1,2,3,4,5}", Ks="{1,2,3}" if q else "1..4", Groups="{1,2}" if q else "{1,2,3}", Pats="{%s}" % ",".join(f'"{p}"' for p in PATS)))
    scns = []
    for s in vlib.scn_prints(r):
        del s["k"]
        for op in ("conv", "trans"):
            h = zlib.crc32(json.dumps([s, op, ctx.seed], sort_keys=True).encode())
            ex = lambda k, n: (h >> k) % n
            scns.append(dict(s, op=op, B=1 + ex(0, 2), ci=[1, 2, 1, 4, 3][ex(2, 5)], co=[1, 1, 2][ex(5, 3)], bias=bool(ex(7, 2)), opt=ex(8, 4) > 0, fused=bool(ex(10, 2)), dt=["f32", "f64", "f32", "f64", "f16" if s["pat"] not in ("one", "empty") else "bf16"][ex(18, 5)], mem=["contig", "perm", "slice", "step"][ex(12, 4)], gmem=["contig", "perm", "slice", "step"][ex(14, 4)], rg=["both", "both", "x", "w"][ex(16, 4)]))
            scns[-1]["fine"] = ["x", "g"][ex(21, 2)] if scns[-1]["dt"] == "f64" else ""
    ctx.log(len(scns), "configurations")
    scns = ctx.pick(scns, 1600 if q else 9000, key=lambda s: (s["op"], s["pat"], s["W"] // s["V"], s["opt"], s["fused"] and s["op"] == "conv"))
    large = []
    import random
    rng = random.Random(ctx.seed * 7919 + 15)
    VS = [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 72, 96, 127, 128, 129, 130]
    for n in range(150 if q else 1500):
        op = ["conv", "trans"][n % 2]
        V = VS[n % len(VS)]
        p = rng.choice([1, 1, 2, 3, 4, 5, 6, 8] if V <= 65 else [1, 2, 3])
        opt = n % 5 != 4
        G = rng.choice([1, 1, 2, 3, 4, 5])
        ci, co = rng.choice([(1, 1), (4, 2), (5, 2), (6, 3), (8, 1), (2, 6), (3, 3), (12, 4), (16, 8), (7, 3), (33, 2)] if V * p < 200 else [(1, 1), (4, 2), (2, 3)])
        if ci * G > 40:
            G = 1
        R, H = rng.choice([(2, 3), (5, 9), (12, 17), (33, 20), (40, 65), (20, 33)] if opt else [(2, 3), (5, 9), (12, 8)])
        K = rng.choice([1, 2, 3, 4, 5, 6, 8, 9])
        B = rng.choice([1, 1, 2, 3, 5])
        while B * G * ci * H * V * p > 400000 and B > 1:
            B -= 1
        large.append(dict(op=op, pat="dense", nnz=rng.choice([40, 300, 1500]), K=K, R=R, H=H, V=V, W=V * p, G=G, ci=ci, co=co, B=B, bias=n % 3 == 0, opt=opt, fused=n % 7 < 3, dt=["f64", "f32"][(n // 3) % 2], mem=["contig", "perm", "slice", "step"][n % 4], gmem=["contig", "perm", "slice", "step"][(n // 5) % 4], rg=["both", "both", "x", "w"][(n // 2) % 4], fine=["x", "g"][(n // 4) % 2] if (n // 3) % 2 == 0 else "", i=n))
    # threaded: the compiled kernels' parallel loops are shared between threads only here
    recs = ctx.replay(scns) + ctx.replay(large, threads=4, nworkers=4)
    if len(recs) < len(scns) // 2:
        ctx.log("filter seam unavailable: layers judged end to end by P16 only")
    if not q:
        d = vlib.openmp_build(ctx.work, ctx.log)
        if d:
            import os
            recs += ctx.replay(large, threads=8, nworkers=2, env=dict(PYTHONPATH=os.path.join(vlib.VERIF, "harness") + os.pathsep + d))
    ctx.validate("T_P15", recs)
