import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["judged to 6e-5 of the largest value in float32 and 6e-8 in float64 (resampling keeps float32 weights)", "phases of orders that are not quarter turns are judged in floating point by the harness, quarter turns by TLC", "up to 9 (quick) / 17 (thorough) latitudes and 24 longitudes, plus a sample up to 33x48"]
GR = ["equiangular", "legendre-gauss", "lobatto"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("RotationMC", "INIT Init\nNEXT Next\nINVARIANTS Consistent PhasesAgree Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Ops='{"conv","convt","natt","att","res","spc","sht","vsht","isht","ivsht","quad"}', Ns="{1,2,3,4,5,6,8,9,12,16}" if q else "1..24"))
    def mk(s, v, big=0):
        h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
        h2 = zlib.crc32(json.dumps([s, ctx.seed, v, "b"], sort_keys=True).encode())
        ex = lambda k, n: (h >> k) % n
        e2 = lambda k, n: (h2 >> k) % n
        H, Ho = 3 + ex(0, 7 if q else 15), 3 + ex(4, 5)
        if ex(7, 3) == 0:
            Ho = H
        if big:
            H, Ho = [17, 24, 33][ex(0, 3)], [17, 21, 32][ex(4, 3)]
        bt = ["piecewise linear", "harmonic", "zernike", "fourier-bessel"][e2(0, 4)]
        lm = {}
        if s["op"] in ("sht", "vsht", "isht", "ivsht"):
            lm = [{}, dict(lmax=2), dict(lmax=3, mmax=2), dict(mmax=1)][e2(2, 4)]
            lm = {k: min(w, s["ni"] // 2 + 1) if k == "mmax" else w for k, w in lm.items()}
        return dict(s, H=H, Ho=Ho, gi=GR[ex(8, 3)], go=GR[ex(10, 3)], C=1 + ex(12, 2), G=1 + ex(13, 2), B=1 + ex(14, 2), dt=["f32", "f64"][ex(15, 2)], mem=["contig", "perm", "slice", "step"][ex(16, 4)], opt=ex(18, 3) > 0 or bool(big and s["op"] == "natt"), tc=[0.35, 0.8, 1.3, 3.5][ex(20, 4 if not big else 2)], mode=["bilinear", "bilinear-spherical"][ex(22, 2)], norm=["ortho", "four-pi", "schmidt"][ex(23, 3)], cs=bool(ex(25, 2)), cross=bool(ex(26, 2)), amp=[1, 1, 10, 0.1][ex(27, 4)], bt=bt, ks=3 if bt == "zernike" else [[2, 2], [3, 3], [3, 1]][e2(4, 3)], nm=["nodal", "mean", "support", "none", "modal"][e2(6, 5)], lm=lm)

    scns = []
    for s in vlib.scn_prints(r):
        scns += [mk(s, v) for v in range(4 if s["op"] in ("sht", "vsht", "isht", "ivsht", "quad") or not q else 1)]
    ctx.log(len(scns), "configurations")
    scns = ctx.pick(scns, 1500 if q else 12000, key=lambda s: (s["op"], s["opt"], s["dt"]))
    b = ctx.tlc("RotationMC", "INIT Init\nNEXT Next\nINVARIANTS Consistent PhasesAgree Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Ops='{"conv","convt","natt","att","res","spc","sht","vsht","isht","ivsht","quad"}', Ns="{18,27,32,36,48}"))
    scns += ctx.pick([mk(s, 9, 1) for s in vlib.scn_prints(b)], 66 if q else 1500, key=lambda s: (s["op"], s["opt"]))
    ctx.validate("T_P23", ctx.replay(scns))
