import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["ranks simulated in one process with the torch.distributed contract of harness/simdist.py", "groups up to 5 (quick) or 8 (thorough); integer-valued contents so sums are exact; 64-bit types use values that do not fit in 24 bits"]
DTS = ["f32", "f64", "f16", "bf16", "c64", "c128"]
MEM = ["contig", "perm", "slice", "step"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("Region", "INIT Init\nNEXT Next\nINVARIANTS Adjoint Shapes Scn\nCHECK_DEADLOCK FALSE\n", workers=4,
                defs=dict(Groups="1..5" if q else "1..8", Sizes="{1,2,3,5,7}" if q else "{1,2,3,4,5,7,8,11}"))
    base = vlib.scn_prints(r)
    scns = []
    k = 0
    for s in base:
        for g in ("p", "a"):
            if g == "a" and s["op"] not in ("copy", "reduce", "rs"):
                continue
            for rep in range(2 if q else 5):
                h = zlib.crc32(json.dumps([s, g, rep, ctx.seed]).encode())
                k += 1
                other = (1, 2, 1, 3)[(h >> 3) % 4] if s["P"] <= 4 else 1
                dt = DTS[(h >> 5) % 6]
                sh, dim = s["sh"], s["dim"]
                lead = (h >> 8) % 3
                if lead:
                    sh, dim = [2] * lead + sh, dim + lead
                off = 0
                if dt in ("f64", "c128"):
                    off = 2**26 + 1
                scns.append(dict(op=s["op"], g=g, np=s["P"] if g == "p" else other, na=other if g == "p" else s["P"], sh=sh, dim=dim, dt=dt, off=off,
                                 mem=MEM[(h >> 10) % 4], gmem=MEM[(h >> 12) % 4], debug=bool((h >> 14) % 2), neg=bool((h >> 15) % 2), noshapes=bool((h >> 16) % 2), pol=[None, "first", "last", "rr"][(h >> 17) % 4]))
    scns = [s for s in scns if ok16(s)]
    scns = ctx.pick(scns, 900 if q else 20000, key=lambda s: (s["op"], s["g"], s["dt"], s["np"], s["na"]))
    # 16-bit types: the group sum is accumulated in single precision and rounded once
    for dt in ("bf16", "f16"):
        for P in (3, 5):
            for op, g in (("copy", "p"), ("copy", "a"), ("reduce", "p"), ("reduce", "a"), ("rs", "p"), ("rs", "a"), ("gcopy", "p")):
                for n in (P, P + 1, 2 * P):
                    scns.append(dict(op=op, kind="lowprec", g=g, np=P if g == "p" else 1, na=1 if g == "p" else P, P=P, n=n, dt=dt, dim=1 + n % 2, pol=[None, "last"][n % 2]))
    recs = ctx.replay(scns)
    ctx.validate("T_P03", recs, split=1 if q else 8)


def ok16(s):
    """low-precision types: keep every value and sum exactly representable"""
    n = 1
    for d in s["sh"]:
        n *= d
    R = s["np"] * s["na"]
    big = (n + 2) * (3 * R + 1) * max(s["np"], s["na"]) + R * R
    if s["dt"] == "bf16":
        return big <= 256
    if s["dt"] == "f16":
        return big <= 2048
    return True
