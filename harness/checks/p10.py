import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["process groups are simulated handles of a 2x3 world (harness/simdist.py)", "a handle is not registered again after it was destroyed, and one handle is not registered for both axes at once", "modules are used under the registration they were constructed with"]
OPS = ["RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT", "QuadratureS2", "ResampleS2", "SpectralConvS2", "DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2", "NeighborhoodAttentionS2"]


def check(ctx):
    q = ctx.quick
    cfg = "INIT Init\nNEXT Next\nINVARIANTS NothingRegisteredWhenDown NeverADeadGroup DestroyedOnce Sizes Ranks Scn\nCHECK_DEADLOCK FALSE\n"
    r = ctx.tlc("Lifecycle", cfg, workers=8, defs=dict(Depth="4", Uses='{"op","regions","bad"}'))
    scns = [s for s in vlib.scn_prints(r)]
    ctx.log(len(scns), "histories")
    sig = lambda s: sorted({o["k"] + o.get("p", "") + o.get("a", "") for o in s["h"]})
    last = lambda s: s["h"][-1]["k"] in ("use", "fin")
    scns = [s for s in scns if last(s)]
    scns = ctx.pick(scns, 520 if q else 12000, key=sig)
    # every operator under every registration, in both debug modes, after a previous life
    regs = [("P", "A"), ("P", "-"), ("-", "A"), ("-", "-"), ("W", "-"), ("-", "W"), ("S", "A"), ("P", "S")]
    for op in OPS + ["regions", "bad"]:
        for p, a in regs:
            for pre in ([], [dict(k="dbg", v=True)], [dict(k="env", v=True)], [dict(k="init", p="W", a="-"), dict(k="fin")]):
                if p == "W" and pre and pre[0]["k"] == "init" or a == "W" and pre and pre[0]["k"] == "init":
                    continue
                scns.append(dict(h=pre + ([dict(k="init", p=p, a=a)] if (p, a) != ("-", "-") else []) + [dict(k="use", w=op), dict(k="fin"), dict(k="use", w="op")]))
    for s in scns:
        h = zlib.crc32(json.dumps([s, ctx.seed], sort_keys=True).encode())
        s["sd"] = h % 100000
        s["ops"] = [OPS[(h >> k) % len(OPS)] for k in (3, 7, 11)]
    scns = ctx.pick(scns, 760 if q else 20000)
    recs = ctx.replay(scns)
    ctx.validate("T_P10", recs, split=1 if q else 4)
