import torch, numpy as np, math
from .common import *
import vlib
from . import refs
import torch_harmonics as th
import warnings


def bess(m, x):
    from scipy.special import jv

    return jv(m, x)


def bzero(m, n):
    from scipy.optimize import brentq

    # bracket the n-th positive zero by scanning
    xs = np.linspace(m * 0.5 + 0.5, m + 4.0 * n + 6, 4000)
    v = bess(m, xs)
    c = [i for i in range(len(xs) - 1) if v[i] * v[i + 1] < 0]
    i = c[n - 1]
    return brentq(lambda t: float(bess(m, t)), xs[i], xs[i + 1], xtol=1e-14, rtol=1e-15)


def hann_norm(d):
    nr, nphi = 50, 200
    r = (np.arange(nr) + 0.5) / nr
    ph = np.arange(nphi) * 2 * math.pi / nphi
    r, ph = np.meshgrid(r, ph, indexing="ij")
    v = harm(d, r, ph)
    return math.sqrt(float((v**2 * r).sum() / nr * 2 * math.pi / nphi))


def harm(d, u, ph):
    x, y = u * np.sin(ph), u * np.cos(ph)
    fx = (np.sin if d["sx"] else np.cos)(d["fx"] * math.pi * x)
    fy = (np.sin if d["sy"] else np.cos)(d["fy"] * math.pi * y)
    return np.cos(0.5 * math.pi * u) ** 2 * fx * fy


def circ(a, b):
    x = np.mod(a - b, 2 * math.pi)
    return np.minimum(x, 2 * math.pi - x)


def basis(t, k0, k1, d, r, ph, R):
    """value and support of one basis function at polar coordinates (r, ph) of the disk of radius R; amb: points where the support is not decidable"""
    ins = r <= R
    amb = np.abs(r - R) < 1e-7
    und = ins & (r > math.pi - 1e-6)  # azimuth undefined at the antipode
    u = r / R
    if t == "piecewise linear":
        dr = 2 * R / (k0 + 1)
        c = d["i"] * dr if k0 % 2 else (d["i"] + 0.5) * dr
        a = np.abs(r - c)
        sup = ins & (a <= dr)
        amb = amb | (ins & (np.abs(a - dr) < 1e-7))
        v = np.where(sup, 1 - a / dr, 0.0)
        if d["j"] >= 0:
            dp = 2 * math.pi / k1
            b = circ(ph, d["j"] * dp - math.pi)
            s1 = sup & (b <= dp)
            v = np.where(s1, (1 - a / dr) * (1 - b / dp), 0.0)
            amb = (amb & (b <= dp + 1e-7)) | (sup & (r < 1e-6)) | (sup & (np.abs(b - dp) < 1e-7))
            if k0 % 2 == 0:
                a2 = np.abs(-r - c)
                b2 = circ(ph - math.pi, d["j"] * dp - math.pi)
                s2 = ins & (a2 <= dr) & (b2 <= dp)
                amb = amb | (ins & (np.abs(a2 - dr) < 1e-7)) | (ins & (a2 <= dr) & (np.abs(b2 - dp) < 1e-7))
                und = und | (r < 1e-6)  # the azimuth, hence the value, is undefined at the centre
                v = v + np.where(s2, (1 - a2 / dr) * (1 - b2 / dp), 0.0)
                s1 = s1 | s2
            sup = s1
        und = und | (np.abs(r - R) < 1e-7) & (np.abs(v) > 1e-7)
        return v, sup, amb, und
    if t in ("harmonic", "morlet"):
        v = harm(d, u, ph)
        if t == "harmonic":
            v = v / max(hann_norm(d), 1e-12)
    elif t == "zernike":
        n, m = d["n"], abs(d["m"])
        v = np.zeros_like(u)
        f = math.factorial
        for k in range((n - m) // 2 + 1):
            v = v + (-1) ** k * f(n - k) // (f(k) * f((n + m) // 2 - k) * f((n - m) // 2 - k)) * u ** (n - 2 * k)
        v = v * (np.sin(d["m"] * ph) if d["m"] < 0 else np.cos(m * ph))
        v = v / math.sqrt((2 if m == 0 else 1) * math.pi / (2 * (n + 1)))
    else:
        m, n = d["m"], d["n"]
        al = bzero(m, n)
        v = bess(m, al * u) * (np.cos(m * ph) if d["c"] else np.sin(m * ph))
        v = v / (abs(float(bess(m + 1, al))) / math.sqrt(2) * math.sqrt(2 * math.pi if m == 0 else math.pi))
    und = und | amb
    return np.where(ins, v, 0.0), ins, amb, und


def geometry(tp, tq, W):
    """distance and azimuth of points (tq_h, 2 pi w/W) seen from (tp, 0); azimuth measured from the direction of increasing colatitude"""
    lam = 2 * math.pi * np.arange(W) / W
    P = np.array([math.sin(tp), 0.0, math.cos(tp)])
    e_s = np.array([math.cos(tp), 0.0, -math.sin(tp)])  # towards the south
    e_e = np.array([0.0, 1.0, 0.0])  # towards the east
    Q = np.stack([np.sin(tq)[:, None] * np.cos(lam), np.sin(tq)[:, None] * np.sin(lam), np.cos(tq)[:, None] + 0 * lam], -1)
    r = np.arctan2(np.linalg.norm(np.cross(Q, P), axis=-1), Q @ P)
    return r, np.mod(np.arctan2(Q @ e_e, Q @ e_s), 2 * math.pi)


def operator(s, grid_fine, grid_coarse, cutoff, trans):
    """psi[k, r, h, w] with quadrature merged, as defined; rows r on the coarse-longitude grid"""
    H, R, V, W = s["H"], s["R"], s["V"], s["W"]
    tf, wf = refs.colat(grid_fine, H)
    tc, wc = refs.colat(grid_coarse, R)
    K = len(s["B"])
    Rc = 1.001 * cutoff
    psi = np.zeros((K, R, H, W))
    sup = np.zeros((K, R, H, W), dtype=bool)
    amb = np.zeros((K, R, H, W), dtype=bool)
    und = np.zeros((K, R, H, W), dtype=bool)
    dist = np.zeros((R, H, W))
    for t in range(R):
        r, ph = geometry(tc[t], tf, W)
        dist[t] = r
        for k, d in enumerate(s["B"]):
            psi[k, t], sup[k, t], amb[k, t], und[k, t] = basis(s["t"], s["k0"], s["k1"], d, r, ph, Rc)
    mode = s["mode"]
    if mode in ("individual", "area ratio"):
        mode = dict(individual="nodal").get(mode, "geometric")
    # neighbourhood of an output latitude: weights of the input points, groups over (function, output latitude)
    if trans:
        q = np.broadcast_to((wc / W / 2)[None, :, None, None], psi.shape)
        ax = (1, 3)
    else:
        q = np.broadcast_to((wf / W / 2)[None, None, :, None], psi.shape)
        ax = (2, 3)
    exp = lambda g: np.expand_dims(g, ax)
    area = (q * sup).sum(ax)
    eps = 1e-9
    iso = np.array(s["iso"])
    val = psi.copy()
    if mode == "modal":
        mean = np.where(area > eps, (psi * q * sup).sum(ax) / np.maximum(area, eps), 0.0)
        mean[iso] = 0.0
        val = np.where(sup, psi - exp(mean), 0.0)
    l1 = (np.abs(val) * q * sup).sum(ax)
    if mode in ("nodal", "modal"):
        val = val / np.maximum(exp(l1), eps)
    elif mode == "mean":
        val = val / np.maximum(l1.mean(1), eps)[:, None, None, None]
    elif mode == "support":
        val = val / np.maximum(exp(area), eps)
    elif mode == "geometric":
        val = val / max((1 - math.cos(cutoff)) / 4, eps)
    # weight of the input point in the integral over the sphere (total one)
    val = val * (wc[None, :, None, None] / V / 2 if trans else q)
    # entries that cannot be compared: undefined themselves, or normalised by a quantity that rounding decides
    skip = und.copy()
    if mode in ("nodal", "modal"):
        skip |= exp(und.any(ax) | (l1 < 1e-7))
    if mode in ("support", "modal"):
        skip |= exp((amb | und).any(ax))
    if mode == "mean":
        skip |= (und.any((1, 2, 3)) | (l1.mean(1) < 1e-7))[:, None, None, None]
    return val, skip, dist


def probed(s, m, val, skip, dist, trans, cutoff, ksz, iso, init):
    """large grids: the responses to a sample of impulses, against the same operator"""
    H, R, V, W, G, K = s["H"], s["R"], s["V"], s["W"], s["G"], len(s["B"])
    p = W // V
    N = R * V if trans else H * W
    g = torch.Generator().manual_seed(scn_seed(s))
    ns = sorted({0, N - 1, *torch.randint(0, N, (s["probes"],), generator=g).tolist()})
    va = np.abs(val) * ~skip
    sc = np.maximum(va.max(axis=(2, 3), keepdims=True), va.max() * 1e-3) + 1e-300
    far = dist > 1.001 * cutoff + 1e-7
    ex = mi = 0
    err = 0.0
    fin = True
    for n in ns:
        x = torch.zeros(1, G, N, dtype=torch.float64)
        c = n % G
        x[0, c, n] = 1.0
        with torch.no_grad():
            y = m(x.reshape(1, G, *((R, V) if trans else (H, W)))).reshape(G, K, *((H, W) if trans else (R, V)))[c].numpy()
        fin = fin and bool(np.isfinite(y).all())
        if trans:
            r, v = divmod(n, V)
            got = np.roll(y, -p * v, axis=-1)  # K, H, W
            ref, ok, f, scl = val[:, r], ~skip[:, r], far[r], sc[:, r]
        else:
            h, w = divmod(n, W)
            cols = (w - p * np.arange(V)) % W
            got = y  # K, R, V
            ref, ok, f, scl = val[:, :, h][:, :, cols], ~skip[:, :, h][:, :, cols], far[:, h][:, cols], sc[:, :, 0]
        ex += int((f[None] & (got != 0)).sum())
        mi += int((ok & (np.abs(ref) > 1e-6 * scl) & (got == 0)).sum())
        err = max(err, float((np.where(ok, np.abs(got - ref), 0.0) / scl).max()))
    return dict(op="filter", t=s["t"], k0=s["k0"], k1=s["k1"], ksize=ksz, iso=iso, extra=ex, missing=mi, val=vlib.res_int(err, 1e-9), shift=0, finite=fin, init=init)


def replay(s):
    warnings.simplefilter("ignore")
    trans = s["op"] == "trans"
    H, R, V, W = s["H"], s["R"], s["V"], s["W"]
    gf, gc = s["gf"], s["gc"]
    ks = s["k0"] if (s["k1"] == 1 and s["t"] in ("piecewise linear", "zernike")) or (s["k0"] == s["k1"] and s["ksform"] == 0) and s["t"] in ("harmonic", "morlet", "fourier-bessel") else (s["k0"], s["k1"])
    if s["ksform"] == 1 and s["t"] in ("piecewise linear", "zernike") and s["k1"] == 1:
        ks = (s["k0"],)
    cut = s["cut"] * math.pi / (R - 1) / 100.0 if s["cut"] else None
    cutoff = cut if cut is not None else math.pi / (R - 1)
    K = len(s["B"])
    val, skip, dist = operator(s, gf, gc, cutoff, trans)
    if skip.all():
        return []
    kw = dict(kernel_shape=ks, basis_type=s["t"], basis_norm_mode=s["mode"], bias=False, optimized_kernel=s["opt"], theta_cutoff=cut, groups=s["G"])
    G = s["G"]
    if trans:
        m = th.DiscreteContinuousConvTransposeS2(G, G * K, (R, V), (H, W), grid_in=gc, grid_out=gf, **kw)
    else:
        m = th.DiscreteContinuousConvS2(G, G * K, (H, W), (R, V), grid_in=gf, grid_out=gc, fused=s["fused"], **kw)
    ksz = int(m.kernel_size)
    iso = [bool(b) for b in m.filter_basis.isotropic_mask]
    init = list(m.weight.shape) == [G * K, 1, ksz] and bool(torch.isfinite(m.weight).all())
    if ksz != K:
        return dict(op="filter", t=s["t"], k0=s["k0"], k1=s["k1"], ksize=ksz, iso=iso, extra=0, missing=0, val=0, shift=0, finite=True, init=init)
    m = m.to(torch.float64)
    with torch.no_grad():
        m.weight.copy_(torch.eye(K, dtype=torch.float64).reshape(1, K, 1, K).expand(G, K, 1, K).reshape(G * K, 1, K))
    N = R * V if trans else H * W
    if s.get("probes"):
        return probed(s, m, val, skip, dist, trans, cutoff, ksz, iso, init)
    # impulses, spread over the groups' input channels
    out = np.zeros((N, K) + ((H, W) if trans else (R, V)))
    with torch.no_grad():
        for i0 in range(0, N, G * 64):
            idx = list(range(i0, min(N, i0 + G * 64)))
            x = torch.zeros((len(idx) + G - 1) // G, G, N, dtype=torch.float64)
            for j, n in enumerate(idx):
                x[j // G, j % G, n] = 1.0
            y = m(x.reshape(x.shape[0], G, *((R, V) if trans else (H, W)))).reshape(x.shape[0], G, K, *out.shape[2:]).numpy()
            for j, n in enumerate(idx):
                out[n] = y[j // G, j % G]
    # got[k, r, h, w] per coarse longitude v
    p = W // V
    got = np.zeros((V, K, R, H, W))
    for v in range(V):
        for n in range(N):
            if trans:
                r, vi = divmod(n, V)
                if vi == v:
                    got[v, :, r] = np.roll(out[n], -p * v, axis=-1)
            else:
                h, w = divmod(n, W)
                got[v, :, :, h, (w - p * v) % W] = out[n][:, :, v]
    fin = bool(np.isfinite(got).all())
    g0 = got[0]
    ok = ~skip
    va = np.abs(val) * ok
    sc = np.maximum(va.max(axis=(2, 3), keepdims=True), va.max() * 1e-3) + 1e-300
    err = np.where(ok, np.abs(g0 - val), 0.0) / sc
    far = (dist > 1.001 * cutoff + 1e-7)[None]
    rec = dict(op="filter", t=s["t"], k0=s["k0"], k1=s["k1"], ksize=ksz, iso=iso, extra=int((far & (g0 != 0)).sum()), missing=int((ok & (va > 1e-6 * sc) & (g0 == 0)).sum()),
               val=vlib.res_int(float(err.max()), 1e-9), shift=vlib.res_int(float((np.where(ok, np.abs(got - got[:1]), 0.0) / sc).max()), 1e-9), finite=fin, init=init)
    recs = [rec]
    if s["t"] == "piecewise linear" and s["mode"] == "none" and not trans and gf == gc == "equiangular" and s["cut"] and s["cut"] % 100 == 0 and (s["cut"] * (H - 1)) % (100 * (R - 1)) == 0 and fin:
        cm = s["cut"] * (H - 1) // (100 * (R - 1))
        _, wf = refs.colat(gf, H)
        v = g0[:, 0] / (wf / W / 2)[None, :, None] * (4004 * cm * 2 * W)
        recs.append(dict(op="pole", k0=s["k0"], k1=s["k1"], cm=cm, H=H, W=W, v=np.rint(v).astype(int).tolist()))
    return recs
