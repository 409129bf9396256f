import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["reference harmonics and quadrature rules written from their definitions (harness/props/refs.py: numpy/scipy, float64)", "degrees up to 26 (closed form) and up to 101 (scipy) ; agreement within 1e6 ulp (float64) / 8e3 ulp (float32) of the largest value",
               "the imaginary part of order 0 and of the Nyquist order is not representable on the grid"]
MEM = ["contig", "perm", "slice", "step"]
LEADS = [[], [1], [3], [2, 2], [1, 2, 1], [4, 1]]
VEC = False


def variants(s, seed, vec):
    h = zlib.crc32(json.dumps([s, seed, vec], sort_keys=True).encode())
    return dict(s, vec=vec, norm=["ortho", "schmidt", "unnorm", "ortho"][h % 4], cs=bool((h >> 2) % 2), lead=LEADS[(h >> 3) % 6], mem=MEM[(h >> 6) % 4], gmem=MEM[(h >> 8) % 4], dt="f64" if (h >> 10) % 4 else "f32", sl=(h >> 12) % 97, sm=(h >> 19) % 89, sk=(h >> 26) % 2)


def generate(ctx, vec):
    q = ctx.quick
    r = ctx.tlc("Harmonic", "INIT Init\nNEXT Next\nINVARIANTS DefaultIsExact DefaultIsLargest RequestBounds ExactMeansAll Scn\nCHECK_DEADLOCK FALSE\n", workers=8, defs=dict(
        Lats="{2,3,4,5,6,7,9,12,17,24}" if q else "2..14 \\cup {16,17,21,24,25}", Lons="{1,2,3,4,5,6,8,9,12,15,22,25}" if q else "1..16 \\cup {18,21,24,25,32,33}", Grids='{"equiangular","legendre-gauss","lobatto"}', LReqs="{0,1,3,6,11}", MReqs="{0,1,2,5,9}"))
    scns = [variants(s, ctx.seed, vec) for s in vlib.scn_prints(r)]
    ctx.log(len(scns), "configurations")
    return ctx.pick(scns, (900 if not vec else 700) if q else 12000, key=lambda s: (s["grid"], s["exact"], s["L"] > 4, s["nlon"] % 2, s["lreq"] > 0, s["mreq"] > 0))


def check(ctx):
    scns = generate(ctx, VEC)
    scns += bigs(ctx, VEC)
    recs = ctx.replay(scns)
    ctx.validate("T_P11", recs)


def bigs(ctx, vec):
    big = [dict(nlat=n, nlon=m, grid=g, lreq=0, mreq=0, L=0, exact=True) for n, m, g in ((33, 64, "legendre-gauss"), (64, 127, "equiangular"), (41, 90, "lobatto"), (48, 96, "legendre-gauss"), (64, 128, "legendre-gauss"), (129, 200, "equiangular"), (96, 192, "legendre-gauss"), (201, 203, "equiangular"))]
    return [variants(s, ctx.seed + k, vec) for k in range(1 if ctx.quick else 4) for s in big]
