import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["the multistep scheme is judged by TLC with prescribed integer tendencies; the second step may be Adams-Bashforth 2 or the variant implemented (weights 28/12 and -16/12): both are consistent", "conservation and steady states in float64 to 1e-9 of the scale of the terms, on the exact grids with truncation at most a third of the latitudes plus one (no aliasing of products)", "runs of up to 33 steps, scheme judged exactly up to 20 steps over several calls"]


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("SolverMC", "INIT Init\nNEXT Next\nINVARIANTS Same Consistent Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0="5" if q else "7", Tend="{-1,0,2}"))
    scns = ctx.pick([dict(s, op="steps") for s in vlib.scn_prints(r)], 600 if q else 4000, key=lambda s: (s["D"], len(s["h"]), -99 in s["h"]))
    g = ctx.tlc("SolverMC", "INIT Init\nNEXT Next\nINVARIANTS Same Consistent Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0="20", Tend="{-1,0,2}"), extra=("-simulate", f"num={5 if q else 60}", "-depth", "25", "-seed", str(ctx.seed)))
    long = sorted({json.dumps(s, sort_keys=True) for s in vlib.scn_prints(g) if len(s["h"]) >= 12})
    for k, s in enumerate(long[: 300 if q else 4000]):  # every other one as a single call
        d = json.loads(s)
        scns.append(dict(d, op="steps", h=[t for t in d["h"] if t != -99 or k % 2]))
    ctx.log(len(long), "long runs")
    gr = ["equiangular", "legendre-gauss", "lobatto"]
    for k in range(360 if q else 3000):
        h = zlib.crc32(json.dumps([k, ctx.seed]).encode())
        ex = lambda a, n: (h >> a) % n
        nlat = [12, 13, 16, 17, 19, 20, 21, 23, 26, 32][ex(0, 10)]
        scns.append(dict(op=["cons", "wind", "steady", "wave", "rot", "sphere", "data", "integral", "tend"][k % 9], nlat=nlat, nlon=2 * nlat + ex(4, 4), grid=gr[ex(6, 3)], lmax=4 + ex(8, max(1, (nlat + 1) // 3 - 3)), n=[1, 2, 3, 4, 7, 12, 20, 33][ex(12, 8)], omega=[0.0, 7.292e-5, -3e-5][ex(15, 3)], i=k))
        if scns[-1]["op"] == "tend":
            scns[-1].update(nlat=20 + ex(0, 7), nlon=2 * (20 + ex(0, 7)) + ex(4, 4), lmax=4 + ex(8, 4))
    ctx.validate("T_P26", ctx.replay(scns))
