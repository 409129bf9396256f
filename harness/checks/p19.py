import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["integer fields judged by TLC: exactly between equiangular grids, in fixed point (8e-3 of values up to 9) for other grids; float64 definition for the rounding-level comparison", "the interpolation weights are stored in float32, so float64 inputs are compared at float32 accuracy", "angles for the spherical mode stay away from differences where its formula is singular (multiples of pi)", "grids up to 13x16 (quick) / 25x36 (thorough), plus a sample up to 129x259"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("ResampleMC", "INIT Init\nNEXT Next\nINVARIANTS Law Refine Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Hs="2..5", Ws="1..4" if q else "1..6",
        His="{2,3,4,5,7,9,12}" if q else "2..13 \\cup {25}", Hos="{2,3,5,6,9,13}" if q else "2..13 \\cup {25}", Wis="{1,2,3,5,8}" if q else "1..9 \\cup {16}", Vos="{1,2,4,6,9,16}" if q else "1..10 \\cup {36}"))
    gr = ["equiangular", "equiangular", "legendre-gauss", "lobatto", "legendre-gauss", "equiangular-trapezoidal"]

    def mk(s, v):
        h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
        ex = lambda k, n: (h >> k) % n
        d = dict(s, gi=gr[ex(0, 6)], go=gr[ex(3, 6)], dt=["f32", "f32", "f64", "f32", "f16", "bf16"][ex(6, 6)], mode=["bilinear", "bilinear", "bilinear-spherical"][ex(9, 3)], lead=[[], [2], [1, 2], [2, 1, 3]][ex(12, 4)], mem=["contig", "perm", "slice", "step"][ex(14, 4)], kind=["rand", "rand", "const", "linlat", "step", "big"][ex(16, 6)], cast=bool(ex(19, 2)))
        if d["mode"] != "bilinear" and d["dt"] in ("f16", "bf16"):
            d["dt"] = "f64"
        if d["kind"] == "big" and (d["mode"] != "bilinear" or d["dt"] in ("f16", "bf16")):
            d["kind"] = "rand"
        return d

    scns = []
    for s in vlib.scn_prints(r):
        del s["k"]
        scns += [mk(s, v) for v in range(3 if q else 2)]
    ctx.log(len(scns), "configurations")
    scns = ctx.pick(scns, 1500 if q else 9000, key=lambda s: (s["gi"], s["go"], s["mode"], s["dt"], s["kind"], (s["Hi"], s["W"]) == (s["Ho"], s["V"])))
    dims = [(33, 64, 65, 128), (65, 128, 33, 64), (37, 72, 91, 180), (64, 127, 48, 97), (128, 256, 16, 31), (9, 17, 129, 259), (65, 130, 65, 130), (91, 100, 91, 150), (50, 99, 51, 99), (34, 1, 40, 70), (33, 90, 34, 1)]
    scns += [mk(dict(Hi=a, W=b, Ho=c, V=d), 7 + v) for a, b, c, d in dims for v in range(2 if q else 8)]
    ctx.validate("T_P19", ctx.replay(scns))
