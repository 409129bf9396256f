import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["reference harmonics, quadrature and Fourier matrices written from their definitions (harness/props/refs.py)", "the layer computes in float32 for every input dtype; integer coefficients and weights are judged by TLC to about 2e-2, arbitrary fields to about 100 times float32 rounding", "torch.compile is disabled (the compiled helper is semantically its Python body)", "degrees up to 9 (quick) / 16 (thorough), plus a sample up to 40 with up to 85 channels"]
MEM = ["contig", "perm", "slice", "step"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("SpecConvMC", "INIT Init\nNEXT Next\nINVARIANTS Local SamePlace Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(
        HIs="{3,4,5,9}" if q else "{2,3,4,5,7,9,12,17}", WIs="{1,4,5,8,16}" if q else "{1,2,3,4,5,6,8,9,16,17}", HOs="{3,4,6}" if q else "{2,3,4,6,8,11,16}", WOs="{2,4,7,12}" if q else "{1,2,4,6,7,12,20}", Groups="{1,2,3}", Cis="{1,2,3}", Cos="{1,2}", Grids='{"equiangular","legendre-gauss","lobatto"}'))

    def mk(s, v):
        h = zlib.crc32(json.dumps([s, v], sort_keys=True).encode())
        ex = lambda k, n: (h >> k) % n
        d = dict(s, B=1 + ex(0, 2), bias=bool(ex(1, 2)), dt=["f32", "f32", "f64", "f32", "f16", "bf16", "ac", "f32"][ex(2, 8)], mem=MEM[ex(5, 4)], gmem=MEM[ex(7, 4)], amp=[1, 1, 100, 0.01][ex(9, 4)], rg=["both", "both", "x", "w"][ex(11, 4)], coef=s["L"] * s["ci"] * s["G"] <= 24)
        return dict(d, amp=1) if d["dt"] == "f16" else dict(d, amp=[1, 1, 1e5, 1e-7][ex(13, 4)]) if d["dt"] == "bf16" else d

    scns = []
    for s in vlib.scn_prints(r):
        del s["k"]
        scns.append(mk(s, ctx.seed))
    ctx.log(len(scns), "configurations")
    scns = ctx.pick(scns, 1500 if q else 6000, key=lambda s: (s["gi"], s["go"], s["G"], s["bias"], min(s["L"], 3), s["V"] % 2, (s["Hi"], s["W"]) == (s["Ho"], s["V"])))
    b = ctx.tlc("SpecConvMC", "INIT Init\nNEXT Next\nINVARIANTS Local SamePlace Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(
        HIs="{19,33,40}", WIs="{36,65}", HOs="{24,33,44}", WOs="{48,65}", Groups="{1,2,5}", Cis="{1,2,4,17}", Cos="{1,3,8}", Grids='{"equiangular","legendre-gauss","lobatto"}'))
    big = [mk({k: v for k, v in s.items() if k != "k"}, ctx.seed) for s in vlib.scn_prints(b)]
    scns += ctx.pick(big, 40 if q else 400, key=lambda s: (s["G"], s["ci"], s["co"]))
    ctx.validate("T_P20", ctx.replay(scns))
