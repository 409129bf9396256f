import torch, numpy as np
from .common import *
from .dist import EPS
import vlib
import torch_harmonics as th
import torch_harmonics.distributed as thd
from torch_harmonics.fft import rfft, irfft
from torch_harmonics.random_fields import GaussianRandomFieldS2

SC = {"backward": lambda n: 1.0, "ortho": lambda n: n**-0.5, "forward": lambda n: 1.0 / n, None: lambda n: 1.0}


def fmat(n, M, norm):
    j = np.arange(n)
    F = np.zeros((M, n), dtype=complex)
    for m in range(min(M, n // 2 + 1)):
        F[m] = np.exp(-2j * math.pi * ((m * j) % n) / n) * SC[norm](n)
    return F


def bmat(n, M, norm):
    """real-linear inverse: y = Re(B @ modes)"""
    inv = {"backward": 1.0 / n, "ortho": n**-0.5, "forward": 1.0, None: 1.0 / n}[norm]
    j = np.arange(n)
    B = np.zeros((n, M), dtype=complex)
    for m in range(min(M, n // 2 + 1)):
        e = np.exp(2j * math.pi * ((m * j) % n) / n) * inv
        B[:, m] = e.real if (m == 0 or 2 * m == n) else 2 * e
    return B


def rr(a, b, eps):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return -1
    if a.size == 0:
        return 0
    d = np.abs(a - b).max()
    return vlib.res_int(float(d) if d == d else float("inf"), eps * max(float(np.abs(b).max()), 1e-30))


def replay(s):
    if s["op"] == "lim":
        kw = dict(grid=s["grid"])
        if s["lreq"]:
            kw["lmax"] = s["lreq"]
        if s["mreq"]:
            kw["mmax"] = s["mreq"]
        a, b = s["nlat"], s["nlon"]
        fn = th.truncate_sht(a, b, **kw)
        sht, shape, conv, grf = [], [], [], []
        if s["grid"] != "equiangular-trapezoidal" and not s.get("lite"):
            for mod, pre in ((th, ""), (thd, "Distributed")):
                for V in ("", "Vector"):
                    F = getattr(mod, f"{pre}Real{V}SHT")(a, b, **kw)
                    I = getattr(mod, f"{pre}InverseReal{V}SHT")(a, b, **kw)
                    sht += [[F.lmax, F.mmax], [I.lmax, I.mmax]]
                    c = F(torch.randn(1, 2, a, b, dtype=torch.float64))
                    shape.append(list(c.shape[-2:]))
                    y = I(c)
                    if list(y.shape[-2:]) != [a, b]:
                        shape.append([-1, -1])
            if s["grid2"] != "equiangular-trapezoidal" and not s["lreq"] and not s["mreq"]:
                for mod, pre in ((th, ""), (thd, "Distributed")):
                    C = getattr(mod, pre + "SpectralConvS2")((a, b), (s["nlat2"], s["nlon2"]), 2, 2, grid_in=s["grid"], grid_out=s["grid2"], bias=True)
                    conv += [[C.lmax, C.mmax], [C.weight.shape[-1], C.weight.shape[-1]], list(C.spectral_bias.shape[-2:]), [C.sht.lmax, C.sht.mmax], [C.isht.lmax, C.isht.mmax]]
                    z = C(torch.randn(1, 2, a, b))
                    if list(z.shape) != [1, 2, s["nlat2"], s["nlon2"]]:
                        conv.append([-1, -1])
                G = GaussianRandomFieldS2(a, grid=s["grid"])
                grf.append([G.isht.lmax, G.isht.mmax])
                if list(G(2).shape) != [2, a, 2 * a]:
                    grf.append([-1, -1])
        return dict({k: s[k] for k in ("op", "nlat", "nlon", "grid", "lreq", "mreq", "nlat2", "nlon2", "grid2")}, fn=[int(v) for v in fn], sht=sht, shape=shape, conv=conv, grf=grf)
    rdt = DT[s["dt"]]
    cdt = torch.complex128 if rdt == torch.float64 else torch.complex64
    eps = EPS[rdt]
    n, nm, norm = s["n"], s["nm"], s["norm"]
    g = torch.Generator().manual_seed(scn_seed(s))
    if s["op"] == "exact":
        M = nm
        x = torch.randint(-9, 10, (n,), generator=g)
        mre, mim = torch.randint(-9, 10, (M,), generator=g), torch.randint(-9, 10, (M,), generator=g)
        z = rfft(x.to(rdt), nmodes=M)
        y = irfft(torch.complex(mre.to(rdt), mim.to(rdt)), n=n) * n
        iv = lambda t: [int(v) if abs(v - round(v)) < 1e-4 and int(round(v)) == round(v) else BAD for v in t.double().round(decimals=4).tolist()]
        return dict(op="exact", n=n, nm=M, x=x.tolist(), re=iv(z.real), im=iv(z.imag), mre=mre.tolist(), mim=mim.tolist(), y=iv(y))
    nd, dim = s["nd"], s["dim"]  # dim 1-based
    sh = [2, 3, 2, 1][: nd - 1]
    xsh = sh[: dim - 1] + [n] + sh[dim - 1 :]
    M = nm or n // 2 + 1
    msh = sh[: dim - 1] + [M] + sh[dim - 1 :]
    d = dim - 1 if s["pos"] else dim - 1 - nd
    kw = {} if norm is None else dict(norm=norm)
    x = torch.randn(*xsh, dtype=torch.float64, generator=g).to(rdt)
    xl = memlay(x, s["mem"]).requires_grad_()
    kx = xl.detach().clone()
    z = rfft(xl, **(dict(nmodes=nm) if nm else {}), dim=d, **kw)
    F = fmat(n, M, norm)
    mv = lambda t: np.moveaxis(t, dim - 1, -1)
    xn = mv(x.double().numpy())
    zr = xn @ F.T
    zok = list(z.shape) == msh
    zz = mv(z.detach().numpy())
    gz = torch.randn(msh, dtype=torch.complex128, generator=g).to(cdt)
    fgrad = fres = rt = proj = -1
    fpad = False
    if zok:
        (gx,) = torch.autograd.grad(z, xl, gz, retain_graph=True)
        fgrad = rr(mv(gx.numpy()), (mv(gz.numpy()) @ F.conj()).real, eps)
        fres = rr(zz, zr, eps)
        fpad = bool((zz[..., n // 2 + 1 :] == 0).all())
        back = irfft(z.detach(), n=n, dim=d, **kw).numpy()
        rt = rr(back, x.numpy(), eps)
        # keeping fewer modes is the projection onto them
        B = bmat(n, M, norm)
        proj = rr(mv(back), (zr @ B.T).real, eps)
    c = torch.randn(*msh, dtype=torch.complex128, generator=g).to(cdt)
    cl = memlay(c, s["mem"]).requires_grad_()
    kc = cl.detach().clone()
    y = irfft(cl, n=n, dim=d, **kw)
    B = bmat(n, M, norm)
    bok = list(y.shape) == xsh
    bres = bgrad = -1
    if bok:
        bres = rr(mv(y.detach().numpy()), (mv(c.numpy()) @ B.T).real, eps)
        gy = torch.randn(xsh, dtype=torch.float64, generator=g).to(rdt)
        (gc,) = torch.autograd.grad(y, cl, gy)
        bgrad = rr(mv(gc.numpy()), mv(gy.numpy()) @ B.conj(), eps)
    dfl = M == 1 or list(irfft(c, dim=d, **kw).shape) == sh[: dim - 1] + [2 * (M - 1)] + sh[dim - 1 :]
    return dict(op="fft", n=n, nm=nm, dim=dim, dt=s["dt"], xsh=xsh, msh=msh, fsh=list(z.shape), bsh=list(y.shape), fres=fres, fpad=fpad, fgrad=fgrad, rt=rt, proj=proj, bres=bres, bgrad=bgrad, dfl=dfl,
                inok=bool(torch.equal(kx, xl.detach()) and torch.equal(kc, cl.detach())), dtok=z.dtype == cdt and y.dtype == rdt)
