import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["naive DFT with exact integer phase reduction as reference; exact integer judgement in TLA+ for lengths 1, 2 and 4", "module limits compared for grids up to 40 points (selected sizes) and requested limits up to 13", "agreement within 2e4 ulp (float64) / 2e3 ulp (float32)"]
G3 = ["equiangular", "legendre-gauss", "lobatto"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("FourierMC", "INIT Init\nNEXT Next\nINVARIANTS Counting RoundTrip SelfConjReal Limits Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(
        Lens="1..17 \\cup {24,31,32}" if q else "1..40 \\cup {63,64,65}", Modes="0..20" if q else "0..36", Vals="-3..3", Lats="{2,3,4,5,6,9,12,17}" if q else "2..18 \\cup {24,25,33}", Lons="{1,2,3,4,5,8,9,14,16}" if q else "1..18 \\cup {24,32,33}",
        Grids='{"equiangular","legendre-gauss","lobatto","equiangular-trapezoidal"}', Reqs="{0,1,2,4,7,13}"))
    fft, lim = [], []
    for s in vlib.scn_prints(r):
        h = zlib.crc32(json.dumps([s, ctx.seed], sort_keys=True).encode())
        if s["k"] == "fft":
            nd = 1 + h % 4
            fft.append(dict(op="fft", n=s["n"], nm=s["nm"], dt=["f64", "f64", "f32"][(h >> 2) % 3], norm=["backward", "ortho", "forward", None][(h >> 4) % 4], nd=nd, dim=1 + (h >> 6) % nd, pos=bool((h >> 9) % 2), mem=["contig", "perm", "slice", "step"][(h >> 10) % 4]))
            if s["n"] in (1, 2, 4) and s["nm"]:
                for k in range(4 if q else 30):
                    fft.append(dict(op="exact", n=s["n"], nm=s["nm"], dt=["f64", "f32"][k % 2], norm=None, k=k))
        else:
            t = {k: s[k] for k in ("nlat", "nlon", "grid", "lreq", "mreq")}
            lim.append(dict(t, op="lim", nlat2=2 + (h >> 3) % 17, nlon2=1 + (h >> 9) % 24, grid2=G3[(h >> 15) % 3]))
    for k in range(120 if q else 1500):
        h = zlib.crc32(json.dumps([k, ctx.seed, "long"]).encode())
        n = 33 + (h >> 3) % (480 if q else 1000)
        nd = 1 + h % 3
        fft.append(dict(op="fft", n=n, nm=[0, n // 2 + 1, 1 + (h >> 12) % (n // 2 + 1), n // 2 + 2 + (h >> 12) % 9][(h >> 5) % 4], dt=["f64", "f32"][(h >> 7) % 2], norm=["backward", "ortho", "forward", None][(h >> 8) % 4], nd=nd, dim=1 + (h >> 20) % nd, pos=bool((h >> 22) % 2), mem=["contig", "perm", "slice", "step"][(h >> 23) % 4]))
    lim = ctx.pick(lim, 1000 if q else 12000, key=lambda s: (s["grid"], s["lreq"] > 0, s["mreq"] > 0))
    for k in range(300 if q else 4000):
        h = zlib.crc32(json.dumps([k, ctx.seed]).encode())
        big = [64, 300, 1000, 5000, 40000][h % 5]
        lim.append(dict(op="lim", lite=True, nlat=2 + (h >> 3) % big, nlon=1 + (h >> 7) % (2 * big), grid=(G3 + ["equiangular-trapezoidal"])[(h >> 13) % 4], lreq=[0, 0, 1 + (h >> 15) % big][(h >> 9) % 3], mreq=[0, 0, 1 + (h >> 17) % big][(h >> 11) % 3], nlat2=2, nlon2=2, grid2="equiangular"))
    ctx.validate("T_P14", ctx.replay(fft + lim))
