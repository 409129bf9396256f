import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["the module synthesises in its unnormalised convention (harmonics divided by sqrt(4 pi))", "spectra with even integer exponents are judged exactly (1e-4), others against the float64 definition", "independence of the generated noise is judged by sample moments at 7 standard errors with fixed seeds; CPU generator only", "histories of up to 4 (quick) / 5 (thorough) actions"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("GrfMC", "INIT Init\nNEXT Next\nINVARIANTS GivenIsPure Reseed Hist Cfg\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0="4" if q else "5", Nlats="{2,3,4,5,6}" if q else "2..9", Halfs="{1,2}", Taus="{1,2,3}", Radii="{1,2}", Sigmas="{0,1,5}"))
    gr = ["equiangular", "legendre-gauss", "lobatto"]
    scns = []
    for s in vlib.scn_prints(r):
        h = zlib.crc32(json.dumps([s, ctx.seed], sort_keys=True).encode())
        scns.append(dict(op="hist", h=s["h"], nlat=3 + h % 3, half=1 + (h >> 3) % 2, tau=2, R=1, sigma=0, grid=gr[(h >> 5) % 3], dt=["f32", "f64"][(h >> 7) % 2]))
    scns = ctx.pick(scns, 500 if q else 4000)
    cfg = []
    for s in vlib.scn_prints(r, "CFG "):
        for v in range(2):
            h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
            ex = lambda k, n: (h >> k) % n
            d = dict(s, grid=gr[ex(0, 3)], dt=["f32", "f64"][ex(2, 2)], mem=["contig", "perm", "slice", "step"][ex(4, 4)], moved=bool(ex(6, 2)))
            cfg.append(dict(d, op="map"))
            d = dict(d, op="res", alpha=[2.0, 1.5, 3.7, 2.5, 1.01][ex(8, 5)], tau=[1.0, 3.0, 0.5, 7.5][ex(11, 4)], R=[1.0, 0.5, 6.4][ex(13, 3)], sigma=[0, 0, 2.5][ex(15, 3)], N=1 + ex(17, 3), nlat=s["nlat"] + [0, 3, 7][ex(19, 3)], band=[0, 0, 0, 5, 8][ex(21, 5)])
            del d["half"]
            cfg.append(d)
    for n, i in [(n, i) for n in (17, 24, 33, 48, 64, 80) for i in range(3 if q else 9)]:
        cfg.append(dict(op="res", nlat=n, grid=gr[i % 3], dt=["f32", "f64"][(n + i) % 2], mem=["contig", "perm", "slice", "step"][(n + i) % 4], moved=i == 1, alpha=[2.0, 1.5, 3.7][i % 3], tau=[3.0, 7.5, 1.0][i % 3], R=[1.0, 6.4, 0.5][i % 3], sigma=[0, 2.5, 0][i % 3], N=[1, 5, 17][(i + n) % 3], band=[0, 5, 9][(i + n // 8) % 3]))
    st = [dict(op="stat", nlat=n, half=1, tau=2, R=1, sigma=0, grid=g, dt=d, N=3000 if q else 20000, chunk=c, seed=ctx.seed * 10 + i) for i, (n, g, d, c) in enumerate([(4, "equiangular", "f32", 3000), (3, "legendre-gauss", "f64", 1), (3, "lobatto", "f32", 7), (4, "legendre-gauss", "f32", 100)])]
    ctx.log(len(scns), "histories", len(cfg), "configurations")
    ctx.validate("T_P21", ctx.replay(scns + cfg + st))
