import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["reference rules from their definitions (harness/props/refs.py, scipy roots), float64", "node counts 1..40 exhaustively and selected counts up to 500; agreement within 1e6 ulp (float64 rules), 64 float32 ulp (QuadratureS2, whose weights are single precision)",
               "the trapezoidal rule's degree of exactness is taken as 1"]
IV = dict(unit=(-1.0, 1.0), half=(0.0, 1.0), shift=(2.0, 5.5), neg=(-3.25, -0.5), wide=(-10.0, 30.0))


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("Quadrature", "INIT Init\nNEXT Next\nINVARIANTS UpToDegree GaussBest Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(
        Ns="1..40 \\cup {63,64,65,100,127,128,129}" if q else "1..130 \\cup {180,181,255,256,257}", Grids='{"legendre-gauss","lobatto","equiangular","equiangular-trapezoidal"}', Ivs='{"unit","half","shift","neg","wide"}'))
    scns = []
    for s in vlib.scn_prints(r):
        h = zlib.crc32(json.dumps([s, ctx.seed], sort_keys=True).encode())
        a, b = IV[s["iv"]]
        base = dict(n=s["n"], grid=s["grid"])
        for via in ("fn", "pre"):
            scns.append(dict(base, op="rule", a=a, b=b, per=False, via=via))
        if s["grid"] == "equiangular-trapezoidal":
            scns.append(dict(base, op="rule", a=a, b=b, per=True, via=["fn", "pre"][h % 2]))
        if s["n"] >= 2:
            if s["iv"] == "unit":
                scns.append(dict(base, op="lat"))
            if s["iv"] == "unit" and s["grid"] == "lobatto":
                scns.append(dict(op="lon", n=s["n"], grid=""))
            if s["n"] <= 70 and s["iv"] in (("unit", "half", "neg") if q else IV):
                scns.append(dict(base, op="int", nlon=1 + (h >> 2) % 40, lead=[[], [3], [2, 1], [2, 1, 3]][(h >> 10) % 4], dt=["f32", "f64"][(h >> 12) % 2], norm=bool((h >> 13) % 2), mem=["contig", "perm", "slice", "step"][(h >> 14) % 4]))
    scns += [dict(op="lon", n=k, grid="") for k in list(range(1, 1025 if q else 3000)) + [1440, 2048, 2880, 3600]] + [dict(op="rule", n=500, grid=g, a=-1.0, b=1.0, per=False, via="fn") for g in ("legendre-gauss", "lobatto", "equiangular")] + [dict(op="lat", n=361, grid=g) for g in ("legendre-gauss", "lobatto", "equiangular")]
    scns += [dict(op="rule", n=n, grid=g, a=IV[iv][0], b=IV[iv][1], per=False, via="fn") for n in range(41, 161 if q else 420) for k, g in enumerate(("legendre-gauss", "lobatto", "equiangular", "equiangular-trapezoidal")) for iv in [sorted(IV)[(n + k) % 5]]]
    ctx.validate("T_P13", ctx.replay(scns))
