import torch, math, numpy as np
from .common import *
import vlib
from . import refs
import torch_harmonics as th

EPS = dict(f32=1.2e-7, f64=1.2e-7, f16=2e-3, bf16=1.6e-2)  # the interpolation weights are stored in float32


def define(x, ti, to, V, mode):
    """float64 definition, differentiable"""
    pole = to.min() < ti[0] - 1e-12 or to.max() > ti[-1] + 1e-12
    if pole:
        m = lambda r: r.mean(-1, keepdim=True).expand_as(r)
        x = torch.cat([m(x[..., :1, :]), x, m(x[..., -1:, :])], -2)
        ti = np.concatenate([[0.0], ti, [math.pi]])
    l = np.clip(np.searchsorted(ti, to, side="right") - 1, 0, len(ti) - 2)
    t = torch.from_numpy(np.clip((to - ti[l]) / (ti[l + 1] - ti[l]), 0, 1)).reshape(-1, 1)
    mix = lambda a, b, t: (1 - t) * a + t * b
    if mode != "bilinear":
        def mix(a, b, t):
            om = b - a
            lin = om.abs() < 1e-4
            so = torch.where(lin, torch.ones_like(om), torch.sin(om))
            return torch.where(lin, (1 - t) * a + t * b, torch.sin((1 - t) * om) / so * a + torch.sin(t * om) / so * b)
    x = mix(x[..., l, :], x[..., l + 1, :], t)
    W = x.shape[-1]
    j = np.arange(V)
    l, f = (j * W) // V, torch.from_numpy((j * W % V) / V)
    return mix(x[..., l, :] if False else x[..., l % W], x[..., (l + 1) % W], f)


def replay(s):
    Hi, Ho, W, V = s["Hi"], s["Ho"], s["W"], s["V"]
    dt = DT[s["dt"]]
    m = th.ResampleS2(Hi, W, Ho, V, grid_in=s["gi"], grid_out=s["go"], mode=s["mode"])
    if s["cast"]:
        m = m.to(dt)
    ti, to = refs.colat(s["gi"], Hi)[0], refs.colat(s["go"], Ho)[0]
    g = torch.Generator().manual_seed(scn_seed(s))
    lead = s["lead"]
    recs = []
    if s["mode"] == "bilinear" and s["dt"] in ("f32", "f64"):
        x = torch.randint(-9, 10, (*lead, Hi, W), generator=g).to(dt)
        xl = memlay(x, s["mem"])
        y = m(xl)
        sel = lambda t: t.reshape(-1, *t.shape[-2:])[-1]
        shok = list(y.shape) == [*lead, Ho, V]
        fx = np.rint(np.nan_to_num(sel(y).double().numpy(), nan=1e6, posinf=1e6, neginf=1e6) * 1000).astype(int).tolist() if shok else []
        r = dict(Ho=Ho, V=V, x=sel(x).int().tolist(), y=fx, shok=shok, dtok=y.dtype == dt, inok=torch.equal(xl, x))
        if s["gi"] == s["go"] == "equiangular":
            recs.append(dict(r, op="equi"))
        else:
            i6 = lambda t: [int(round(v * 1e6)) for v in t]
            recs.append(dict(r, op="lin", ti=i6(ti), to=i6(to)))
    a = 0.7 if s["mode"] != "bilinear" else 3.0
    x = ((torch.rand(*lead, Hi, W, generator=g, dtype=torch.float64) * 2 - 1) * a).to(dt)
    if s["kind"] == "const":
        x = x[..., :1, :1].expand(*lead, Hi, W).clone()
    elif s["kind"] == "linlat":
        x = torch.from_numpy(ti / math.pi * a).reshape(-1, 1).expand(*lead, Hi, W).to(dt).clone()
    elif s["kind"] == "step":
        x = torch.where(torch.rand(*lead, Hi, W, generator=g) > 0.5, torch.tensor(a), torch.tensor(0.0)).to(dt)
    elif s["kind"] == "big":
        x = x * 1e3
    xl = memlay(x, s["mem"]).requires_grad_(True)
    y = m(xl)
    shok = list(y.shape) == [*lead, Ho, V]
    rec = dict(op="res", shok=shok, dtok=y.dtype == dt, inok=torch.equal(xl.detach(), x), ry=0, rg=0, fin=False, range=True, coin=0)
    if shok:
        x64 = x.double().requires_grad_(True)
        yr = define(x64, ti, to, V, s["mode"])
        if s["gi"] == s["go"] and (Hi, W) == (Ho, V):
            yr = x64 * 1.0
        sc = x.double().abs().max().item() + 1e-30
        unit = EPS[s["dt"]] * sc * (4 if s["mode"] != "bilinear" else 1)
        rec["ry"] = vlib.res_int((y.double() - yr).abs().max().item(), unit)
        gy = torch.randn(*y.shape, generator=g, dtype=torch.float64).to(dt)
        gr, = torch.autograd.grad(y, xl, memlay(gy, s["mem"]))
        gref, = torch.autograd.grad(yr, x64, gy.double())
        rec["dtok"] = rec["dtok"] and gr.dtype == dt and gr.shape == xl.shape
        gs = gref.abs().max().item() + 1e-30
        rec["rg"] = vlib.res_int((gr.double() - gref).abs().max().item(), EPS[s["dt"]] * gs * (1 if s["mode"] == "bilinear" else 4 if s["dt"] == "f64" else 200))
        rec["fin"] = bool(torch.isfinite(y).all() and torch.isfinite(gr).all())
        if s["mode"] == "bilinear":
            tol = 4 * EPS[s["dt"]] * sc
            rec["range"] = bool(y.min() >= x.min() - tol and y.max() <= x.max() + tol)
        # coinciding points reproduce the input
        worst = 0.0
        for i in range(Ho):
            for k in range(Hi):
                if abs(to[i] - ti[k]) < 1e-12:
                    for j in range(V):
                        if j * W % V == 0:
                            worst = max(worst, (y[..., i, j].double() - x[..., k, j * W // V].double()).abs().max().item())
        rec["coin"] = vlib.res_int(worst, unit)
    recs.append(rec)
    return recs
