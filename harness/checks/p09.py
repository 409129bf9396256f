import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["ranks simulated in one process with the torch.distributed contract of harness/simdist.py", "CUDA ring-step kernels replaced by CPU stand-ins written from their operator contract (attention_interface.cpp): the CUDA kernels themselves are not executed",
               "the latitude halo reaches at most the neighbouring shard (the exchange's documented reach)", "the serial layer (property P17) is the reference; single precision (the layer's accumulators)"]
MEM = ["contig", "perm", "slice", "step"]
G = ["equiangular", "legendre-gauss", "lobatto"]


def variants(s, seed):
    h = zlib.crc32(json.dumps([s, seed], sort_keys=True).encode())
    gi = G[h % 3]
    return dict(s, gin=gi, gout=gi if s["dir"] == "same" and h % 2 else G[(h >> 3) % 3], nh=[1, 2, 3][(h >> 5) % 3], ci=[2 if (h >> 13) % 3 == 0 else 1, 2, 3][(h >> 7) % 3], ck=[2 if (h >> 13) % 3 == 0 else 1, 2, 3][(h >> 9) % 3], co=[1, 2, 4][(h >> 11) % 3],
                qkn=(h >> 13) % 3 == 0, bias=(h >> 15) % 3 != 0, B=[1, 2][(h >> 17) % 2], cut=[105, 130, 160, 210, 260, 320][(h >> 18) % 6], mag=[0, 0, 3][(h >> 21) % 3], selfa=(h >> 22) % 2 == 0,
                rq=(h >> 23) % 4 != 0, rk=(h >> 24) % 4 != 0, rv=(h >> 25) % 4 != 0, mem=MEM[(h >> 26) % 4], gmem=MEM[(h >> 27) % 4], debug=(h >> 28) % 4 == 0, frozen=(h >> 12) % 3 == 0, pol=[None, "first", "last", "rr"][(h >> 29) % 4])


def check(ctx):
    q = ctx.quick
    cfg = "INIT Init\nNEXT Next\nINVARIANTS LabelTrue OncePerChunk AllAtEnd ExactlyOnce ExactlyOnceUp Scn\n"
    r = ctx.tlc("Ring", cfg, workers=8, defs=dict(ASet="1..3", WoutSet="1..8" if q else "1..9", Ratios="1..3", PSet="1..3", Lats="{5,6,8,9,11}", Modes='{"same","down","up"}'))
    base = vlib.scn_prints(r)
    # larger rings: all interleavings of 4 (and 5) ranks, one width each
    ctx.tlc("Ring", cfg, workers=8, defs=dict(ASet="{4}" if q else "{4,5}", WoutSet="{5}" if q else "{5,6}", Ratios="{1}", PSet="{}", Lats="{}", Modes='{"same"}'))
    for na in (4, 5, 6):
        for rt in (1, 2):
            for w in (na, na + 1, 2 * na - 1):
                if rt > 1 and w % na:
                    continue
                for d in (("same",) if rt == 1 else ("down", "up")):
                    for p in (1, 2):
                        base.append(dict(dir=d, np=p, na=na, win=w * (rt if d == "down" else 1), wout=w * (rt if d == "up" else 1), hin=7, hout=7 if d == "same" else 6))
    scns = [variants(s, ctx.seed + k) for s in base for k in range(1 if q else 3)]
    scns = ctx.pick(scns, 260 if q else 5000, key=lambda s: (s["np"], s["na"], s["dir"]))
    recs = ctx.replay(scns)
    n = len(recs)
    if n < len(scns) // 3:
        raise vlib.SpecError(f"only {n} of {len(scns)} scenarios were admissible")
    ctx.validate("T_P09", recs, split=1 if q else 4)
