import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["ranks simulated in one process with the torch.distributed contract of harness/simdist.py", "process grids up to 4x4; latitudes up to 13; at least as many channels as azimuth ranks (the layer's own precondition)",
               "the fused a2a variant is exercised on CPU by enabling it after construction (its constructor requires CUDA)", "the serial layer (property P15) is the reference"]
MEM = ["contig", "perm", "slice", "step"]
KS = [("piecewise linear", [2]), ("piecewise linear", [3]), ("piecewise linear", [2, 3]), ("harmonic", [2, 3]), ("morlet", [2, 2]), ("zernike", [2]), ("zernike", [3]), ("piecewise linear", [1]), ("fourier-bessel", [2, 2])]


def variants(s, seed):
    h = zlib.crc32(json.dumps([s, seed], sort_keys=True).encode())
    tr = s["path"] == "transpose"
    ratio = [1, 1, 2, 3][h % 4]
    small = [5, 6, 7, 8, 9][(h >> 2) % 5]
    small = max(small, s["na"])
    b, ks = KS[(h >> 5) % len(KS)]
    G = ["equiangular", "legendre-gauss", "lobatto"]
    win, wout = (small, small * ratio) if tr else (small * ratio, small)
    return dict(s, win=win, wout=wout, basis=b, ks=ks, norm=["nodal", "modal", "mean", "support", "geometric", "none"][(h >> 9) % 6], gin=G[(h >> 12) % 3], gout=G[(h >> 14) % 3], bias=bool((h >> 16) % 2),
                opt=True if s["path"] == "fused" else (h >> 17) % 3 != 0, B=1 + (h >> 19) % 3, dt="f64" if (h >> 21) % 3 else "f32", mem=MEM[(h >> 23) % 4], gmem=MEM[(h >> 25) % 4], debug=(h >> 27) % 4 == 0,
                pol=[None, "first", "last", "rr"][(h >> 29) % 4], cut=[0, 70, 130, 210, 310, 15, 40][(h >> 11) % 7])


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("DistDisco", "INIT Init\nNEXT Next\nINVARIANTS ExactlyOnce Scn\nCHECK_DEADLOCK FALSE\n", workers=8, defs=dict(
        PSet="1..3", ASet="1..4", Lats="{4,5}" if q else "{3,4,5}", GroupsSet="{1,2,3}" if q else "1..4", GsSet="{1,2,3}", OpgSet="{1,2}"))
    base = vlib.scn_prints(r)
    scns = []
    for i, s in enumerate(base):
        # stretch the abstract latitudes to larger resolutions, keep the process grid and channel structure
        for rep in range(2 if q else 4):
            h = zlib.crc32(json.dumps([s, rep, ctx.seed]).encode())
            t = dict(s, np=[s["np"], s["np"], 4][h % 3], hin=s["hin"] + [0, 1, 3, 6, 8][(h >> 3) % 5], hout=s["hout"] + [0, 1, 2, 4, 7][(h >> 6) % 5])
            scns.append(variants(t, ctx.seed + rep))
    scns = ctx.pick(scns, 420 if q else 9000, key=lambda s: (s["np"], s["na"], s["path"], s["groups"], s["opt"]))
    # large configurations: shards with many thousands of filter entries, uneven splits, wide supports
    big = []
    for i, s in enumerate(ctx.pick(base, 10 if q else 120, key=lambda s: (s["np"], s["na"], s["path"]))):
        v = variants(s, ctx.seed + 77)
        tr = s["path"] == "transpose"
        H, W, R = [(33, 48, 1), (40, 36, 2), (25, 72, 1), (31, 30, 3)][i % 4]
        wi, wo = (W, W * R) if tr else (W * R, W)
        hi, ho = (H, H + 7) if tr else (H + 7, H)
        big.append(dict(v, groups=1, gs=max(s["na"], 2), opg=max(s["na"], 2), hin=hi, hout=ho, win=wi, wout=wo, cut=[0, 310, 450][i % 3], B=1, basis="piecewise linear", ks=[3, 4] if i % 2 else [4]))
    recs = ctx.replay(scns + big)
    ctx.validate("T_Dist", recs, split=1 if q else 4)
