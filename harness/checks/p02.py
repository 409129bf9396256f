import json, zlib
LEVEL = "model_checking"
ASSUMPTIONS = ["ranks simulated in one process (threads) with the torch.distributed contract of harness/simdist.py",
               "tensors of rank 3 to 6; groups of up to 5 ranks; elements tagged by their global index so every element is tracked exactly"]
DTS = ["f32", "f64", "c64", "c128", "bf16x", "i64"]
VAR_DT = ["f32", "c64", "f64", "c128", "bf16", "i64", "f16"]
MEM = ["contig", "perm", "slice", "step"]
POL = [None, "first", "last", "rr"]


def variants(s):
    h = zlib.crc32(json.dumps(s, sort_keys=True).encode())
    n = 1
    for d in s["sh"]:
        n *= d
    dt = VAR_DT[h % 7]
    if (dt == "f16" and 2 * n + 3 > 2048) or (dt == "bf16" and 2 * n + 3 > 256):
        dt = "f64"
    s = dict(s, dt=dt, mem=MEM[(h // 7) % 4], gmem=MEM[(h // 28) % 4], debug=bool((h // 112) % 2), neg=bool((h // 224) % 2), pol=POL[(h // 448) % 4])
    return s


def lift(s, lead):
    """leading batch dimensions in front of the model's three dimensions (rank 4 to 6)"""
    return dict(np=s["np"], na=s["na"], sh=lead + s["sh"], lay=["n"] * len(lead) + s["lay"], ops=[dict(g=o["g"], d0=o["d0"] + len(lead), d1=o["d1"] + len(lead)) for o in s["ops"]])


def check(ctx):
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
    q = ctx.quick
    ctx.tlc("Reshard", cfg + "INVARIANTS Placed ExactlyOnce\n", defs=dict(
        Grids="{<<2,1>>,<<1,2>>,<<2,2>>,<<3,2>>}" if q else "{<<1,1>>,<<2,1>>,<<1,2>>,<<2,2>>,<<3,2>>,<<2,3>>,<<3,3>>,<<4,2>>}",
        Sizes="{2,3}" if q else "{2,3,4,5}", MaxSteps="2" if q else "3", Export="FALSE", Track="TRUE"))
    r = ctx.tlc("Reshard", cfg + "INVARIANT Scn\n", defs=dict(
        Grids="{<<1,1>>,<<2,1>>,<<1,2>>,<<2,2>>,<<3,2>>,<<2,3>>,<<4,1>>,<<1,5>>,<<3,4>>}" if q else "{<<1,1>>,<<2,1>>,<<1,2>>,<<2,2>>,<<3,2>>,<<2,3>>,<<4,1>>,<<1,5>>,<<3,4>>,<<5,3>>,<<4,4>>}",
        Sizes="{2,3,5,7}" if q else "{1,2,3,4,5,7,9}", MaxSteps="3", Export="TRUE", Track="FALSE"), workers=4)
    import vlib
    scns = vlib.scn_prints(r)
    ctx.log(len(scns), "behaviours generated")
    n = 700 if q else 12000
    picked = ctx.pick(scns, n, key=lambda s: (s["np"], s["na"], s["lay"], len(s["ops"])))
    picked = [variants(lift(s, [[2], [1, 2], [2, 1, 2], [3, 1]][(i // 3) % 4]) if i % 3 == 0 else s) for i, s in enumerate(picked)]
    recs = ctx.replay(picked)
    ctx.validate("T_P02", recs, split=1 if q else 6)
