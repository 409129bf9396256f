import torch
from .common import *
from .dist import *
import simdist
import torch_harmonics as th
import torch_harmonics.distributed as thd


def replay(s):
    np_, na = s["np"], s["na"]
    op = s["op"]
    dt = DT[s["dt"]]
    torch.manual_seed(scn_seed(s))
    thd.config.debug = s["debug"]
    if op == "quad":
        cls, args, kw = "QuadratureS2", [(s["hin"], s["win"])], dict(grid=s["gin"], normalize=s["norm"])
        x = torch.randn(*[[s["B"], s["c"]], [s["c"]], [], [2, s["B"], 1]][scn_seed(s) % 4], s["hin"], s["win"], dtype=dt)
    elif op == "resample":
        cls, args, kw = "ResampleS2", [s["hin"], s["win"], s["hout"], s["wout"]], dict(grid_in=s["gin"], grid_out=s["gout"], mode=s["mode"])
        x = torch.rand(*s["lead"], s["c"], s["hin"], s["win"], dtype=dt) * s["amp"] - 0.3 if s["mode"] == "bilinear-spherical" else torch.randn(*s["lead"], s["c"], s["hin"], s["win"], dtype=dt)
        if s["mode"] == "bilinear-spherical":
            x = x.clamp(-0.3, 1.2)  # equal neighbours and moderate angles
    else:
        cls, args = "SpectralConvS2", []
        kw = dict(in_shape=(s["hin"], s["win"]), out_shape=(s["hout"], s["wout"]), in_channels=s["groups"] * s["gi"], out_channels=s["groups"] * s["go"], num_groups=s["groups"], grid_in=s["gin"], grid_out=s["gout"], bias=s["bias"])
        x = torch.randn(s["B"], s["groups"] * s["gi"], s["hin"], s["win"], dtype=dt)
    ser = getattr(th, cls)(*args, **kw)
    if op == "spectral" and (ser.lmax < np_ or ser.mmax < na):
        return []
    with torch.no_grad():
        for p in ser.parameters():
            p.copy_(torch.randn_like(p))
    xs = x.clone().requires_grad_()
    y = ser(xs)
    go = torch.randn_like(y)
    gser = torch.autograd.grad(y, [xs] + list(ser.parameters()), go)
    pn = [n for n, _ in ser.named_parameters()]
    PL = dict(weight=["n", "n", "n", "p"], spectral_bias=["n", "n", "p", "a"])
    lay = ["n"] * (x.dim() - 2) + ["p", "a"]
    ylay = ["n"] * y.dim() if op == "quad" else lay
    P0 = dict(ser.named_parameters())

    def f(r, p, a):
        m = getattr(thd, "Distributed" + cls)(*args, **kw)
        if pn:
            m.load_state_dict({n: shard(P0[n].detach(), PL[n], np_, na, p, a).clone() for n in pn})
        xl = memlay(shard(x, lay, np_, na, p, a), s["mem"]).requires_grad_()
        keep = xl.detach().clone()
        yl = m(xl)
        gl = torch.autograd.grad(yl, [xl] + [dict(m.named_parameters())[n] for n in pn], memlay(shard(go, ylay, np_, na, p, a), s["gmem"]))
        return yl, gl, bool(torch.equal(xl.detach(), keep))

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s), policy=s["pol"])
    vals = check_res(res)
    dtl = "f32" if op == "spectral" else s["dt"]
    sc = float(x.abs().sum(dim=(-2, -1)).max()) * 4 * math.pi / (x.shape[-1] * x.shape[-2]) if op == "quad" else None
    if op == "quad" and s["norm"]:
        sc /= 4 * math.pi
    yr = y.detach().float() if op == "spectral" else y.detach()
    c = lambda t: t.float() if op == "spectral" and not t.is_complex() else t
    extra = [] if all(v[2] for v in vals) else ["input modified"]
    if any(v[0].dtype != y.dtype for v in vals):
        extra.append("dtype")
    gmax = float(gser[0].abs().max())
    items = [item("out", yr, ylay, np_, na, [c(v[0]) for v in vals], scale=sc), item("gradx", c(gser[0]), lay, np_, na, [c(v[1][0]) for v in vals])]
    for k, n in enumerate(pn):
        if n == "weight":  # sum over the azimuth group, shard over the polar group
            loc = [sum(vals[(r // na) * na + b][1][k + 1] for b in range(na)) for r in range(np_ * na)]
        else:
            loc = [v[1][k + 1] for v in vals]
        items.append(item("grad" + n, gser[k + 1], PL[n], np_, na, loc))
    return dict(np=np_, na=na, dt=dtl, items=items, faults=faults(w), scale=1, extra=extra)
