import torch
from .common import *
from .dist import *
import simdist
import torch_harmonics as th
import torch_harmonics.distributed as thd


def replay(s):
    np_, na = s["np"], s["na"]
    vec = s["vec"]
    fwd = s["kind"] == "fwd"
    name = ("" if fwd else "Inverse") + "Real" + ("Vector" if vec else "") + "SHT"
    kw = dict(grid=s["grid"], norm=s["norm"], csphase=s["cs"])
    if s["lreq"]:
        kw["lmax"] = s["lreq"]
    if s["mreq"]:
        kw["mmax"] = s["mreq"]
    torch.manual_seed(scn_seed(s))
    rdt = torch.float64 if s["dt"] == "f64" else torch.float32
    cdt = torch.complex128 if s["dt"] == "f64" else torch.complex64
    ser = getattr(th, name)(s["nlat"], s["nlon"], **kw)
    lm, mm = ser.lmax, ser.mmax
    comp = [2] if vec else []
    ins = (s["nlat"], s["nlon"]) if fwd else (lm, mm)
    thd.config.debug = s["debug"]
    outs_all = []
    leads = [s["leads"], s["leads2"]] if s["leads2"] != s["leads"] else [s["leads"]]
    xs = [torch.randn(*ld, *comp, *ins, dtype=rdt if fwd else cdt) for ld in leads]
    refs, gos, gxs = [], [], []
    for x in xs:
        x = x.clone().requires_grad_()
        y = ser(x)
        go = torch.randn_like(y)
        (g,) = torch.autograd.grad(y, x, go)
        refs.append(y.detach()), gos.append(go), gxs.append(g)

    def lay(t):
        return ["n"] * (t.dim() - 2) + ["p", "a"]

    def f(r, p, a):
        m = getattr(thd, "Distributed" + name)(s["nlat"], s["nlon"], **kw)
        res = []
        for x, go in zip(xs, gos):
            xl = memlay(shard(x, lay(x), np_, na, p, a), s["mem"]).requires_grad_()
            keep = xl.detach().clone()
            y = m(xl)
            (g,) = torch.autograd.grad(y, xl, memlay(shard(go, lay(go), np_, na, p, a), s["gmem"]))
            res.append((y, g, bool(torch.equal(xl.detach(), keep))))
        return res

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s), policy=s["pol"])
    vals = check_res(res)
    items, extra = [], []
    for k in range(len(xs)):
        items.append(item("out", refs[k], lay(refs[k]), np_, na, [v[k][0] for v in vals]))
        items.append(item("grad", gxs[k], lay(gxs[k]), np_, na, [v[k][1] for v in vals]))
        if not all(v[k][2] for v in vals):
            extra.append("input modified")
    return dict(np=np_, na=na, dt=s["dt"], items=items, faults=faults(w), scale=int(refs[0].abs().max() > 0), extra=extra)
