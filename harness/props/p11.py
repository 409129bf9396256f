import torch, numpy as np
from .common import *
from .dist import EPS
import vlib
import torch_harmonics as th
from . import refs


def cres(a, ref, eps, scale=None):
    a, ref = np.asarray(a), np.asarray(ref)
    if a.shape != ref.shape:
        return -1
    if a.size == 0:
        return 0
    sc = scale if scale is not None else np.abs(ref).max()
    d = np.abs(a - ref).max()
    return vlib.res_int(d if d == d else float("inf"), eps * max(float(sc), 1e-300))


class Ref:
    """dense reference operators of one configuration"""

    def __init__(self, s, L):
        self.s, self.L = s, L
        t, w = refs.colat(s["grid"], s["nlat"])
        self.w = w
        nlon = s["nlon"]
        self.P = refs.plm(L, t, vec=s["vec"], cs=s["cs"])
        self.nu = np.array([refs.nu(s["norm"], l) for l in range(L)])
        self.F = refs.dft_forward(nlon, L)

    def synth(self, c):
        P = self.P / self.nu[None, :, None, None]
        if not self.s["vec"]:
            modes = np.einsum("...lm,lmk->...km", c, P[0])
            return refs.synth_lon(modes, self.s["nlon"])
        a, b = c[..., 0, :, :], c[..., 1, :, :]
        vt = np.einsum("...lm,lmk->...km", a, P[1]) + 1j * np.einsum("...lm,lmk->...km", b, P[2])
        vl = 1j * np.einsum("...lm,lmk->...km", a, P[2]) - np.einsum("...lm,lmk->...km", b, P[1])
        return np.stack([refs.synth_lon(vt, self.s["nlon"]), refs.synth_lon(vl, self.s["nlon"])], axis=-3)

    def ana(self, f):
        P = self.P * self.nu[None, :, None, None]
        m = 2 * math.pi * np.einsum("...kj,mj->...km", f, self.F)
        if not self.s["vec"]:
            return np.einsum("...km,lmk,k->...lm", m, P[0], self.w)
        ll = np.array([1.0] + [1.0 / (l * (l + 1)) for l in range(1, self.L)])
        vt, vl = m[..., 0, :, :], m[..., 1, :, :]
        e = lambda v, p: np.einsum("...km,lmk,k,l->...lm", v, p, self.w, ll)
        a = e(vt, P[1]) - 1j * e(vl, P[2])
        b = -1j * e(vt, P[2]) - e(vl, P[1])
        return np.stack([a, b], axis=-3)


def replay(s):
    rdt = torch.float64 if s["dt"] == "f64" else torch.float32
    cdt = torch.complex128 if s["dt"] == "f64" else torch.complex64
    eps = EPS[rdt]
    vec, lead = s["vec"], s["lead"]
    kw = dict(grid=s["grid"], norm=s["norm"], csphase=s["cs"])
    if s["lreq"]:
        kw["lmax"] = s["lreq"]
    if s["mreq"]:
        kw["mmax"] = s["mreq"]
    V = "Vector" if vec else ""
    F = getattr(th, f"Real{V}SHT")(s["nlat"], s["nlon"], **kw)
    I = getattr(th, f"InverseReal{V}SHT")(s["nlat"], s["nlon"], **kw)
    L = F.lmax
    R = Ref(s, L)
    g = torch.Generator().manual_seed(scn_seed(s))
    comp = [2] if vec else []
    c = torch.randn(*lead, *comp, L, L, dtype=torch.complex128, generator=g).to(cdt)
    f = torch.randn(*lead, *comp, s["nlat"], s["nlon"], dtype=torch.float64, generator=g).to(rdt)
    # synthesis (coefficients above the diagonal and imaginary DC/Nyquist parts are deliberately non-zero)
    cl = memlay(c, s["mem"]).requires_grad_()
    ck = cl.detach().clone()
    y = I(cl)
    yref = R.synth(c.numpy().astype(complex))
    # analysis
    fl = memlay(f, s["mem"]).requires_grad_()
    fk = fl.detach().clone()
    z = F(fl)
    zref = R.ana(f.numpy().astype(float))
    # gradients: adjoint of the reference operators by testing against random directions
    gy = torch.randn(y.shape, dtype=torch.float64, generator=g).to(rdt)
    (gc,) = torch.autograd.grad(y, cl, memlay(gy, s["gmem"]))
    gz = torch.randn(z.shape, dtype=torch.complex128, generator=g).to(cdt)
    (gf,) = torch.autograd.grad(z, fl, memlay(gz, s["gmem"]))
    # <gc, d> real inner product must be <gy, synth(d)> for random d; use several directions
    rs = np.random.RandomState(scn_seed(s) % 1000003)
    gs = ga = 0
    for _ in range(3):
        d = rs.randn(*c.shape) + 1j * rs.randn(*c.shape)
        a = float(np.sum(gc.numpy().conj() * d).real)
        b = float(np.sum(gy.numpy() * R.synth(d)))
        gs = max(gs, vlib.res_int(abs(a - b), eps * max(1e-30, float(np.abs(gy.numpy() * R.synth(d)).sum()))))
        d = rs.randn(*f.shape)
        a = float(np.sum(gf.numpy() * d))
        rd = R.ana(d)
        b = float(np.sum(gz.numpy().conj() * rd).real)
        ga = max(ga, vlib.res_int(abs(a - b), eps * max(1e-30, float(np.abs(gz.numpy() * rd).sum()))))
    # one coefficient
    l = s["sl"] % L
    m = s["sm"] % (l + 1)
    e = torch.zeros(*comp, L, L, dtype=cdt)
    k = s["sk"] % 2
    e[(k, l, m) if vec else (l, m)] = 1.0
    one = I(e).numpy()
    oref = R.synth(e.numpy().astype(complex))
    # round trip of resolved coefficients
    cc = c.clone()
    tri = torch.tril(torch.ones(L, L, dtype=torch.bool))
    cc = cc * tri
    cc[..., 0] = cc[..., 0].real + 0j
    if vec:
        cc[..., 0, :] = 0
        if s["nlon"] % 2 == 0 and s["nlon"] // 2 < L:
            cc[..., s["nlon"] // 2] = 0
    elif s["nlon"] % 2 == 0 and s["nlon"] // 2 < L:
        cc[..., s["nlon"] // 2] = cc[..., s["nlon"] // 2].real + 0j
    rt = F(I(cc))
    # amplification of rounding in the normalisations is at most the ratio of the nu's (1 for ortho)
    up = z.detach()[..., ~tri]
    return dict(vec=vec, nlat=s["nlat"], nlon=s["nlon"], grid=s["grid"], lreq=s["lreq"], mreq=s["mreq"], dt=s["dt"], lead=list(lead), lmax=F.lmax, mmax=F.mmax if F.mmax == I.mmax and F.lmax == I.lmax else -1,
                synsh=list(y.shape), anash=list(z.shape), syn=cres(y.detach().numpy(), yref, eps), ana=cres(z.detach().numpy(), zref, eps), upper=0 if up.numel() == 0 else int(bool((up != 0).any())),
                gsyn=gs, gana=ga, rt=cres(rt.numpy(), cc.numpy(), eps), single=cres(one, oref, eps, scale=max(1e-3, np.abs(oref).max())), dtok=y.dtype == rdt and z.dtype == cdt and gc.dtype == cdt and gf.dtype == rdt,
                inok=bool(torch.equal(cl.detach(), ck) and torch.equal(fl.detach(), fk)))
