import torch, math, warnings, numpy as np
from .common import *
import vlib
from . import refs
import torch_harmonics as th

warnings.simplefilter("ignore")
CX = dict(f32=torch.complex64, f64=torch.complex128)


def fix(t, sc, unit):
    v = (t.detach().double() / (sc * unit)).round()
    v = torch.where(torch.isfinite(v), v, torch.full_like(v, 2e9)).clamp(-2e9, 2e9)
    return [int(x) for x in v.reshape(-1).tolist()]


def make(s):
    op, Hi, Wi, Ho, Wo, gi, go = s["op"], s["H"], s["ni"], s["Ho"], s["no"], s["gi"], s["go"]
    torch.manual_seed(scn_seed(s))
    C = s["C"]
    if op in ("conv", "convt"):
        cls = th.DiscreteContinuousConvS2 if op == "conv" else th.DiscreteContinuousConvTransposeS2
        ks = s["ks"]
        return cls(C * s["G"], C * s["G"], in_shape=(Hi, Wi), out_shape=(Ho, Wo), kernel_shape=tuple(ks) if isinstance(ks, list) else ks, basis_type=s["bt"], basis_norm_mode=s["nm"], groups=s["G"], grid_in=gi, grid_out=go, bias=True, theta_cutoff=s["tc"], optimized_kernel=s["opt"])
    if op == "natt":
        return th.NeighborhoodAttentionS2(in_channels=2 * C, in_shape=(Hi, Wi), out_shape=(Ho, Wo), grid_in=gi, grid_out=go, num_heads=s["G"] if (2 * C) % s["G"] == 0 else 1, theta_cutoff=s["tc"], optimized_kernel=s["opt"])
    if op == "att":
        return th.AttentionS2(in_channels=2 * C, num_heads=s["G"] if (2 * C) % s["G"] == 0 else 1, in_shape=(Hi, Wi), out_shape=(Ho, Wo), grid_in=gi, grid_out=go)
    if op == "res":
        return th.ResampleS2(nlat_in=Hi, nlon_in=Wi, nlat_out=Ho, nlon_out=Wo, grid_in=gi, grid_out=go, mode=s["mode"])
    if op == "spc":
        return th.SpectralConvS2(in_shape=(Hi, Wi), out_shape=(Ho, Wo), in_channels=C * s["G"], out_channels=C * s["G"], num_groups=s["G"], grid_in=gi, grid_out=go, bias=False)
    if op in ("sht", "vsht"):
        return (th.RealSHT if op == "sht" else th.RealVectorSHT)(Hi, Wi, grid=gi, norm=s["norm"], csphase=s["cs"], **s["lm"])
    if op in ("isht", "ivsht"):
        return (th.InverseRealSHT if op == "isht" else th.InverseRealVectorSHT)(Ho, Wo, grid=go, norm=s["norm"], csphase=s["cs"], **s["lm"])
    if op == "quad":
        return th.QuadratureS2((Hi, Wi), grid=gi, normalize=s["cs"])


def covered(s):
    """every output point has an input point well inside the cutoff (attention over an empty neighborhood is undefined)"""
    ti, to = refs.colat(s["gi"], s["H"])[0], refs.colat(s["go"], s["Ho"])[0]
    ti, to = np.asarray(ti, dtype=float), np.asarray(to, dtype=float)
    dl = 2 * math.pi * (np.arange(s["no"])[:, None] / s["no"] - np.arange(s["ni"])[None, :] / s["ni"])
    c = np.sin(to)[:, None, None, None] * np.sin(ti)[None, :, None, None] * np.cos(dl)[None, None] + (np.cos(to)[:, None] * np.cos(ti)[None, :])[:, :, None, None]
    d = np.arccos(np.clip(c, -1, 1))
    return bool((d.min(axis=(1, 3)) < 0.95 * s["tc"]).all())


def nch(s):
    return {"conv": s["C"] * s["G"], "convt": s["C"] * s["G"], "spc": s["C"] * s["G"], "natt": 2 * s["C"], "att": 2 * s["C"], "vsht": 2, "ivsht": 2}.get(s["op"], s["C"])


def rnd(g, shape, dt):
    return torch.randn(shape, generator=g, dtype=torch.float64).to(dt)


def replay(s):
    op, Wi, Wo, si, so = s["op"], s["ni"], s["no"], s["si"], s["so"]
    f64 = s["dt"] == "f64" and op not in ("res", "natt", "spc")  # float32 weights or float32 computation
    dt = DT[s["dt"]]
    unit, tol = (1e-9, 60) if f64 else (1e-6, 60)
    if op == "natt" and not covered(s):
        return []
    m = make(s)
    g = torch.Generator().manual_seed(scn_seed(s) + 1)
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(rnd(g, p.shape, p.dtype) * 0.5)
    if s["dt"] == "f64" and op not in ("spc",):
        m = m.double()
    B = s["B"]
    out = dict(op=op, ni=Wi, no=Wo, si=si, so=so, tol=tol)
    ps = list(m.parameters())
    if op in ("isht", "ivsht"):
        L, M = m.lmax, m.mmax
        c = torch.complex(rnd(g, (B, nch(s), L, M), torch.float64), rnd(g, (B, nch(s), L, M), torch.float64))
        ph = torch.exp(-2j * math.pi * torch.arange(M, dtype=torch.float64) * si / Wi)
        res = []
        for k, cc in enumerate((c, c * ph)):
            cc = memlay(cc.to(CX[s["dt"]]), "contig" if k == 0 else s["mem"]).requires_grad_(True)
            y = m(cc)
            if k == 0:
                ct = rnd(g, y.shape, y.dtype)
            gr = torch.autograd.grad(y, cc, ct if k == 0 else memlay(torch.roll(ct, so, -1), s["mem"]))[0]
            res.append((y, gr.to(torch.complex128)))
        (y, g1), (y2, g2) = res
        sc = max(y.abs().max().item(), 1e-30)
        out.update(y=fix(y, sc, unit), y2=fix(y2, sc, unit), ph=vlib.res_int((g1 * ph - g2).abs().max().item(), tol * unit * max(g1.abs().max().item(), 1e-30)))
        return out
    x = rnd(g, (B, nch(s), s["H"], Wi), dt)
    if op in ("conv", "convt", "att", "natt", "spc"):
        x = x * s["amp"]
    res = []
    q = rnd(g, (B, nch(s), s["Ho"], Wo), dt) if op in ("att", "natt") and (s["cross"] or (s["H"], Wi) != (s["Ho"], Wo)) else None
    for k in range(2):
        xx = x if k == 0 else torch.roll(x, si, -1)
        xx = memlay(xx, "contig" if k == 0 else s["mem"]).requires_grad_(True)
        if q is not None:
            qq = q if k == 0 else memlay(torch.roll(q, so, -1), s["mem"])
            y = m(qq, xx, xx)
        else:
            y = m(xx)
        if k == 0:
            ct = torch.complex(rnd(g, y.shape, torch.float64), rnd(g, y.shape, torch.float64)).to(y.dtype) if y.is_complex() else rnd(g, y.shape, y.dtype)
        if op in ("sht", "vsht"):
            ph = torch.exp(-2j * math.pi * torch.arange(y.shape[-1], dtype=torch.float64) * si / Wi)
            cc = ct if k == 0 else (ct.to(torch.complex128) * ph).to(y.dtype)
        elif op == "quad" or k == 0:
            cc = ct
        else:
            cc = memlay(torch.roll(ct, so, -1), s["mem"])
        gr = torch.autograd.grad(y, [xx] + ps, cc, allow_unused=True)
        res.append((y.detach(), gr[0], gr[1:]))
    (y, g1, p1), (y2, g2, p2) = res
    sg = max(g1.abs().max().item(), 1e-30)
    out.update(g=fix(g1, sg, unit), g2=fix(g2, sg, unit))
    if op in ("sht", "vsht"):
        sc = max(y.abs().max().item(), x.abs().max().item())
        y, y2 = y.to(torch.complex128), y2.to(torch.complex128)
        out.update(M=y.shape[-1], re=fix(y.real, sc, unit), im=fix(y.imag, sc, unit), re2=fix(y2.real, sc, unit), im2=fix(y2.imag, sc, unit), ph=vlib.res_int((y * ph - y2).abs().max().item(), tol * unit * sc))
        return out
    sc = max(y.abs().max().item(), 1e-30)
    out.update(y=fix(y, sc, unit), y2=fix(y2, sc, unit))
    out["pg"] = max([vlib.res_int((a - b).abs().max().item(), (2e-4 if not f64 else 1e-7) * max(a.abs().max().item(), 1e-30 + max(z.abs().max().item() for z in p1 if z is not None))) for a, b in zip(p1, p2) if a is not None] + [0])
    return out
