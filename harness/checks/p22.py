import json, random, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["'fresh computation' is the same call in a forked process that has made no other call since import", "the filter basis object is shared between callers by documentation; its results, not the object, are modified", "histories of up to 5 (quick) / 6 (thorough) actions over two argument objects and three values; an eviction is 22 calls with other arguments", "CPU; single thread"]


def check(ctx):
    q = ctx.quick
    cfg = "INIT Init\nNEXT Next\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n"
    base = dict(Args="{1,2}", Vals="{1,2,3}", Len0="5" if q else "6")
    r = ctx.tlc("CacheMC", cfg % "Isolated Scn", defs=dict(base, Cap="2", Copy="TRUE", ByValue="TRUE"))
    # the two ways a cache goes wrong are reachable in the model (so the histories above exercise them)
    for bad in (dict(Copy="FALSE", ByValue="TRUE"), dict(Copy="TRUE", ByValue="FALSE")):
        b = ctx.tlc("CacheMC", cfg % "Isolated", defs=dict(base, Cap="2", Len0="4", **bad), allow_fail=True)
        if b.ok or "Invariant Isolated is violated" not in b.out:
            raise vlib.SpecError("the unsafe cache " + str(bad) + " should violate Isolated")
    hs = [s["h"] for s in vlib.scn_prints(r)]
    ctx.log(len(hs), "histories")
    from props.p22cfg import FAMS
    scns = []
    for f in FAMS:
        w = 3 if f in ("lat", "lon", "leg", "dleg", "conv") else 1
        for h in random.Random(f"{ctx.seed}{f}").sample([dict(h=x, fam=f) for x in hs], (40 if q else 500) * w):
            z = zlib.crc32(json.dumps([h, ctx.seed], sort_keys=True).encode())
            n = len(FAMS[f])
            a = z % n
            b = (a + 1 + (z >> 8) % (n - 1)) % n
            rest = [x for x in range(n) if x not in (a, b)]
            c = rest[(z >> 16) % len(rest)]
            if z & (1 << 30):
                a, b, c = 0, b if b else 1, c if c and c != b else [x for x in range(1, n) if x != b][0]
            scns.append(dict(h, cfgs=[FAMS[f][a], FAMS[f][b], FAMS[f][c]]))
    ctx.validate("T_P22", ctx.replay(scns))
