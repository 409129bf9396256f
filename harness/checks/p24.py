import json, random, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["the reference is a fresh module in a forked process that has made no other call", "float32 CPU execution; agreement to 2e-5 of the largest value", "histories of up to 5 (quick) / 6 (thorough) actions over at most two module handles", "a layer may return its input object unchanged (identity resampling); calls with an inadmissible shape may raise"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("PurityMC", "INIT Init\nNEXT Next\nINVARIANTS Pure Separate\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0="3" if q else "4"))
    # generation: random walks of the same machine
    n = 4000 if q else 60000
    g = ctx.tlc("PurityMC", "INIT Init\nNEXT Next\nINVARIANTS Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0="6" if q else "8"), extra=("-simulate", f"num={n // 8}", "-depth", "10", "-seed", str(ctx.seed)))
    hs = [list(x) for x in {json.dumps(s["h"]): s["h"] for s in vlib.scn_prints(g)}.values()]
    ctx.log(len(hs), "histories")
    y = ctx.tlc("PurityMC", "INIT Init\nNEXT NextSys\nINVARIANTS Pure Separate ScnSys\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0="4"))
    sysh = sorted({json.dumps(s["h"]) for s in vlib.scn_prints(y)})
    sysh = [json.loads(x) for x in sysh]
    ctx.log(len(sysh), "systematic histories")
    from props.p22cfg import FAMS
    scns = []
    fams = ["sht", "isht", "vsht", "ivsht", "quad", "cv", "cvt", "natt", "att", "res", "spc"]
    rng = random.Random(ctx.seed)
    rng.shuffle(hs)
    per = 70 if q else 900
    for k, f in enumerate(fams):
        for j, h in enumerate([hs[(k * per + j) % len(hs)] for j in range(per)] + (random.Random(f"{ctx.seed}{f}").sample(sysh, min(len(sysh), 240)) if q else sysh * 3)):
            z = zlib.crc32(json.dumps([h, f, j, ctx.seed]).encode())
            scns.append(dict(h=h, fam=f, c=FAMS[f][z % len(FAMS[f])], mem=["perm", "slice", "step"][(z >> 8) % 3], big=[0, 0, 1, 6][(z >> 12) & 3]))
    ctx.validate("T_P24", ctx.replay(scns))
