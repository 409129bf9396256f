import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["ranks simulated in one process with the torch.distributed contract of harness/simdist.py", "polar groups up to 4 (quick) / 5 (thorough) ranks, halo width from 0 to the smallest local height"]
MEM = ["contig", "perm", "slice", "step"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("Halo", "INIT Init\nNEXT Next\nINVARIANTS Padded AdjointSum NoStuck Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(MaxP="3", MaxH="3" if q else "4"), workers=4)
    scns = []
    base = vlib.scn_prints(r)
    # larger groups for replay: heights of the balanced partition and of random ones
    import random
    rng = random.Random(ctx.seed)
    for P in (2, 3, 4, 5, 6) if q else (2, 3, 4, 5, 6, 7, 8):
        for _ in range(12 if q else 150):
            hg = [rng.randint(1, 6) for _ in range(P)]
            base.append(dict(P=P, hgt=hg, rl=rng.randint(0, min(hg))))
            base.append(dict(P=P, hgt=hg, rl=min(hg)))
        for H in (P, P + 1, 2 * P + 1, 3 * P - 1):
            hg = [H // P + (1 if i < H % P else 0) for i in range(P)]
            base.append(dict(P=P, hgt=hg, rl=min(hg)))
    for s in base:
        h = zlib.crc32(json.dumps([s, ctx.seed]).encode())
        scns.append(dict(s, na=(1, 2, 1, 3)[h % 4], B=(1, 2, 1)[(h >> 2) % 3], C=(1, 2, 3)[(h >> 4) % 3], W=(1, 2, 3, 4)[(h >> 6) % 4], mem=MEM[(h >> 8) % 4], gmem=MEM[(h >> 10) % 4],
                         dt=["f32", "f64"][(h >> 12) % 2], pol=[None, "first", "last", "rr"][(h >> 13) % 4]))
        if (h >> 16) % 10 == 0:
            scns.append(dict(scns[-1], W=9 + h % 30, C=1 + h % 17, hgt=[x + 11 + h % 7 for x in s["hgt"]], rl=s["rl"] + 5 + h % 6))
    scns = ctx.pick(scns, 500 if q else 6000, key=lambda s: (s["P"], s["rl"], s["na"]))
    recs = ctx.replay(scns)
    ctx.validate("T_P04", recs, split=1 if q else 4)
