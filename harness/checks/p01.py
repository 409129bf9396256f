LEVEL = "model_checking"
ASSUMPTIONS = ["sizes up to 600 (quick) / 3000 (thorough) exhaustively plus random larger ones up to 10^6; groups up to 64", "tensor rank at most 5"]
import itertools, random, math
DTS = ["f32", "c64", "i64", "f64", "f16"]
MEM = ["contig", "perm", "slice", "step"]


def check(ctx):
    q = ctx.quick
    rng = random.Random(ctx.seed)
    ctx.tlc("PartitionMC", "INIT Init\nNEXT Next\nINVARIANTS Agree Good Prefix\nCHECK_DEADLOCK FALSE\n", defs=dict(MaxN="26" if q else "48", MaxP="8" if q else "12"))
    scns = []
    ps = list(range(1, 18)) + [23, 24, 31, 32, 33, 48, 64]
    for n in list(range(0, 600 if q else 3000)) + [rng.randrange(600, 10**6) for _ in range(200 if q else 3000)] + [720, 721, 1440, 1024, 2048, 4096, 65536, 999999]:
        scns.append(dict(kind="sizes", n=n, ps=ps))
    k = 0
    for nd in (1, 2, 3, 4):
        for dim in range(1, nd + 1):
            for n in (1, 2, 3, 4, 5, 7, 8, 11, 17, 0):
                for p in (1, 2, 3, 4, 5, 8):
                    k += 1
                    sh = [(2, 3, 1, 4)[(k + j) % 4] for j in range(nd)]
                    sh[dim - 1] = n
                    scns.append(dict(kind="split", sh=sh, dim=dim, p=p, neg=k % 2 == 0, dt=DTS[k % 5], mem=MEM[k % 4]))
    for lead in ([], [1], [2], [3], [5], [1, 1], [2, 3], [3, 1], [2, 1, 2], [1, 2, 2, 2], [7], [0], [2, 0]):
        for nt in (1, 2, 3):
            for mn in (1, 2, 3, 4, 6, 9):
                k += 1
                tr = [(2, 3, 4)[(k + j) % 3] for j in range(nt)]
                tr2 = [(3, 1, 2)[(k + j) % 3] for j in range(nt)]
                dt = ["f32", "c64", "f64", "c128", "bf16", "f16", "i64"][k % 7]
                if dt == "bf16" and 2 * math.prod(lead + tr) + 3 > 256:  # tags must be representable
                    dt = "f16"
                scns.append(dict(kind="pack", lead=lead, trail=tr, trail2=tr2, min=mn, dt=dt, mem=MEM[k % 4]))
    recs = ctx.replay(scns)
    ctx.validate("T_P01", recs)
