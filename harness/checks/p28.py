import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["a refusal is any Python exception; a process that dies, a call that never returns or ranks left in different collectives are not refusals", "one field of a call deviates at a time; distributed layers get the same deviation on every rank", "choices the documentation leaves open are not judged: one latitude or longitude for a quadrature, batch sizes that broadcast in AttentionS2, empty extents"]
INV = "INIT Init\nNEXT Next\nINVARIANTS Exact InBounds Refuses Serves Scn\nCHECK_DEADLOCK FALSE\n"
# H W Ho Wo ci co g kc L M
SZ = "{<<6,12,6,12,4,4,2,4,6,6>>, <<5,8,5,8,2,4,1,2,3,3>>, <<6,6,6,6,4,2,2,2,4,4>>, <<6,12,4,6,4,6,2,4,4,4>>, <<4,6,7,12,4,4,1,2,3,3>>, <<7,9,3,9,3,3,3,3,5,5>>}"
SZT = SZ[:-1] + ", <<9,16,9,4,6,6,3,6,9,9>>, <<8,10,8,10,1,1,1,1,6,6>>, <<3,4,9,16,2,2,2,2,2,2>>, <<12,12,12,12,4,8,4,8,5,5>>}"


def check(ctx):
    q = ctx.quick
    sz = SZ if q else SZT
    r = ctx.tlc("ContractMC", INV, defs=dict(Sizes=sz, Len0="2"))
    all2 = vlib.scn_prints(r)
    g = ctx.tlc("ContractMC", INV, defs=dict(Sizes=sz, Len0="5"), extra=("-simulate", f"num={1500 if q else 20000}", "-depth", "7", "-seed", str(ctx.seed)))
    long = [s for s in vlib.scn_prints(g) if s["adm"]]
    unb = [s for s in all2 if not s["adm"]]
    one = [s for s in all2 if s["adm"] and s["h"][1]["v"] == "ok"]  # every deviation, then a proper call
    two = [s for s in all2 if s["adm"] and s["h"][1]["v"] != "ok"]
    ctx.log(len(unb), "configurations to refuse,", len(one), "single deviations,", len(two), "pairs,", len(long), "histories")
    def mk(s, v):
        h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
        return dict(s, np=1, na=1, dist=False, opt=(h >> v) % 2 == 0 if v < 2 else bool(h % 3), gsel=(h >> 3) % 3, bsel=(h >> 5) % 3, nsel=(h >> 7) % 3, dt=["f32", "f64"][(h >> 9) % 2], mem=["contig", "perm", "slice"][(h >> 10) % 3], seed=h % 9973)
    key = lambda s: (s["c"]["fam"], s["h"][-1]["v"], s["h"][0]["v"], s["h"][0]["k"])
    scns = [mk(s, 2) for s in unb]
    for s in one:
        a = mk(s, 2)
        scns += [dict(a, opt=o) for o in ((True, False) if s["c"]["fam"] in ("conv", "convt", "natt") else (True,))]
    scns += [mk(s, 2) for s in ctx.pick(two, 1500 if q else 12000, key=key)]
    scns += [mk(s, 2) for s in ctx.pick(long, 400 if q else 6000, key=lambda s: (s["c"]["fam"], s["c"]["H"]))]
    # the same contract for every rank of a process grid
    D = ("sht", "isht", "vsht", "ivsht", "conv", "convt", "natt", "res", "quad", "spc")
    ds = []
    glob = [dict(s, h=[dict(s["h"][0], v="glob"), s["h"][1]]) for s in one if s["h"][0]["v"] == "h+"]  # the whole field instead of the shard
    for s in unb + one + glob:
        if s["c"]["fam"] in D and not any(c["v"] in ("r-", "r--", "r1", "r+") for c in s["h"]):
            h = zlib.crc32(json.dumps([s, ctx.seed, "d"], sort_keys=True).encode())
            for np_, na in ((2, 1), (1, 2), (2, 2), (3, 2)):
                ds.append(dict(mk(s, 3), np=np_, na=na, dist=True))
    scns += ctx.pick(ds, 1400 if q else 12000, key=lambda s: (s["c"]["fam"], s["np"], s["na"], s["c"]["bad"], s["h"][0]["v"] if s["h"] else ""))
    ctx.validate("T_P28", ctx.replay(scns))
