import torch, numpy as np
from .common import *
import vlib
from . import refs
import torch_harmonics as th
from torch_harmonics import quadrature as Q

E64, E32 = 2.0**-52, 2.0**-23
FN = {"legendre-gauss": "legendre_gauss_weights", "lobatto": "lobatto_weights", "equiangular": "clenshaw_curtiss_weights", "equiangular-trapezoidal": "trapezoidal_weights"}


def replay(s):
    op, n = s["op"], s["n"]
    ri = lambda e, sc=1.0: vlib.res_int(float(np.max(np.abs(e))) if np.size(e) else 0.0, E64 * max(sc, 1e-300))
    if op == "rule":
        a, b, per = s["a"], s["b"], s["per"]
        via = s["via"]
        if via == "fn":
            kw = dict(periodic=True) if per else {}
            x, w = getattr(Q, FN[s["grid"]])(n, a, b, **kw)
        else:
            f = getattr(Q, "_precompute_quadrature_weights", None)
            if f is None:
                return []
            x, w = f(n, grid=s["grid"], a=a, b=b, periodic=per)
        dtok = x.dtype == torch.float64 and w.dtype == torch.float64
        x, w = x.double().numpy(), w.double().numpy()
        h, m = (b - a) / 2, (b + a) / 2
        sc = abs(a) + abs(b)
        if per:
            xr, wr = a + (b - a) * np.arange(n) / n, np.full(n, (b - a) / n)
        else:
            xr, wr = refs.rule(s["grid"], n)
            xr, wr = m + h * xr, h * wr
        D = 0 if per else (2 * n + 1 if s["grid"] == "legendre-gauss" else 2 * n)
        t = (x - m) / h
        V = np.polynomial.legendre.legvander(t, D)
        tru = np.zeros(D + 1)
        tru[0] = 2 * h
        mom = np.abs(w @ V - tru)
        ok = len(x) == n and len(w) == n
        return dict(op=op, n=n, grid=s["grid"], periodic=per, count=len(x) if len(w) == len(x) else -1, ordered=bool((np.diff(x) > 0).all()), inside=bool((x >= a - 4 * E64 * sc).all() and (x <= b + 4 * E64 * sc).all()),
                    nsym=ri(x + x[::-1] - 2 * m, sc), wsym=ri(w - w[::-1], b - a), pos=bool((w > 0).all()), nodes=ri(x - xr, sc) if ok else -1, weights=ri(w - wr, float(np.abs(wr).max())) if ok else -1,
                    mom=[vlib.res_int(v, E64 * (b - a)) for v in mom], dtok=dtok)
    if op == "lat":
        t, w = Q.precompute_latitudes(n, grid=s["grid"])
        dtok = t.dtype == torch.float64 and w.dtype == torch.float64
        t, w = t.double().numpy(), w.double().numpy()
        tr, wr = refs.colat(s["grid"], n)
        ok = len(t) == n and len(w) == n
        # arccos amplifies rounding close to the poles: compare the cosines and, away from the poles, the angles
        return dict(op=op, n=n, grid=s["grid"], count=len(t) if len(w) == len(t) else -1, ordered=bool((np.diff(t) > 0).all()), inside=bool((t >= 0).all() and (t <= math.pi).all()),
                    nodes=max(ri(np.cos(t) - np.cos(tr)), ri((t - tr) * np.sin(tr))) if ok else -1, weights=ri(w - wr, float(np.abs(wr).max())) if ok else -1, poles=bool(abs(t[0]) < 1e-7 and abs(t[-1] - math.pi) < 1e-7), dtok=dtok)
    if op == "lon":
        x = Q.precompute_longitudes(n)
        dtok = x.dtype == torch.float64
        x = x.double().numpy()
        r = 2 * math.pi * np.arange(n) / n
        return dict(op=op, n=n, grid="", count=len(x), nodes=ri(x - r, 2 * math.pi) if len(x) == n else -1, zero=bool(len(x) and x[0] == 0), inside=bool((x < 2 * math.pi - math.pi / n).all()), dtok=dtok)
    # integral over the sphere
    nlat, nlon, lead = s["n"], s["nlon"], s["lead"]
    dt = DT[s["dt"]]
    g = torch.Generator().manual_seed(scn_seed(s))
    q = th.QuadratureS2((nlat, nlon), grid=s["grid"], normalize=s["norm"])
    _, w = refs.colat(s["grid"], nlat)
    tr, _ = refs.colat(s["grid"], nlat)
    W = np.repeat(w[:, None] * 2 * math.pi / nlon, nlon, 1) / (4 * math.pi if s["norm"] else 1)
    A = 1.0 if s["norm"] else 4 * math.pi
    x = torch.randn(*lead, nlat, nlon, dtype=torch.float64, generator=g).to(dt)
    xl = memlay(x, s["mem"]).requires_grad_()
    keep = xl.detach().clone()
    y = q(xl)
    r32 = lambda e, sc: vlib.res_int(float(np.max(np.abs(e))) if np.size(e) else 0.0, E32 * sc)
    ref = np.einsum("...ij,ij->...", x.double().numpy(), W)
    mag = np.einsum("...ij,ij->...", np.abs(x.double().numpy()), W).max()
    shape_ok = list(y.shape) == list(lead)
    go = torch.randn(y.shape, dtype=torch.float64, generator=g).to(dt)
    (gx,) = torch.autograd.grad(y, xl, go)
    gref = go.double().numpy()[..., None, None] * W if shape_ok else None
    c = q(torch.full([*lead, nlat, nlon], 2.5, dtype=dt)).double().numpy()
    x2 = torch.randn(*lead, nlat, nlon, dtype=torch.float64, generator=g).to(dt)
    lin = (q(2 * x - x2) - (2 * q(x) - q(x2))).double().numpy()
    # a double precision field is not rounded before it is weighted: integral of x and of x + tiny differ by the integral of tiny
    big = torch.full([nlat, nlon], 2.0**20, dtype=torch.float64)
    tiny = torch.rand(nlat, nlon, dtype=torch.float64, generator=g) * 2.0**-10
    prec = float((q(big + tiny) - q(big)).double() - q(tiny).double()) if dt == torch.float64 else 0.0
    # resolved harmonics of degree 1..exactness and order < nlon integrate to zero
    D = {"legendre-gauss": 2 * nlat - 1, "lobatto": 2 * nlat - 3, "equiangular": nlat - 1, "equiangular-trapezoidal": 1}[s["grid"]]
    hz = 0
    lam = 2 * math.pi * np.arange(nlon) / nlon
    for l, m in ((1, 0), (1, 1), (2, 0), (2, 1), (3, 2), (D, 0), (D, min(D, nlon - 1))):
        if 1 <= l <= D and m < nlon and l <= 40:
            P = refs.plm(l + 1, tr)[0][l, m]
            f = P[:, None] * np.cos(m * lam + 0.3)[None, :]
            v = q(torch.tensor(f).to(dt).reshape([1] * len(lead) + [nlat, nlon])).double().numpy()
            hz = max(hz, r32(v, A * max(np.abs(f).max(), 1e-3)))
    return dict(op=op, n=nlat, grid=s["grid"], lead=list(lead), sh=list(y.shape), val=r32(y.detach().double().numpy() - ref, mag) if shape_ok else -1, lin=r32(lin, 6 * mag), grad=r32(gx.double().numpy() - gref, float(np.abs(gref).max())) if shape_ok else -1,
                area=r32(c - 2.5 * A, 2.5 * A), harm=hz, dtok=y.dtype == dt and gx.dtype == dt, prec=vlib.res_int(abs(prec), E64 * 2.0**20 * A), inok=bool(torch.equal(xl.detach(), keep)))
