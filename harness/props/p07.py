import torch
from .common import *
from .dist import *
import simdist
import torch_harmonics as th
import torch_harmonics.distributed as thd


def replay(s):
    np_, na = s["np"], s["na"]
    tr = s["path"] == "transpose"
    name = "DiscreteContinuousConv" + ("Transpose" if tr else "") + "S2"
    ish, osh = (s["hin"], s["win"]), (s["hout"], s["wout"])
    cin, cout = s["groups"] * s["gs"], s["groups"] * s["opg"]
    kw = dict(in_channels=cin, out_channels=cout, in_shape=ish, out_shape=osh, kernel_shape=tuple(s["ks"]) if len(s["ks"]) > 1 else s["ks"][0], basis_type=s["basis"], basis_norm_mode=s["norm"], groups=s["groups"],
              grid_in=s["gin"], grid_out=s["gout"], bias=s["bias"], optimized_kernel=s["opt"])
    if s["cut"]:
        kw["theta_cutoff"] = s["cut"] / 100.0 * math.pi / (osh[0] if not tr else ish[0])
    dt = DT[s["dt"]]
    torch.manual_seed(scn_seed(s))
    ser = getattr(th, name)(**kw).to(dt)
    with torch.no_grad():
        for p in ser.parameters():
            p.copy_(torch.randn_like(p))
    x = torch.randn(s["B"], cin, *ish, dtype=dt)
    xs = x.clone().requires_grad_()
    y = ser(xs)
    go = torch.randn_like(y)
    gser = torch.autograd.grad(y, [xs] + list(ser.parameters()), go)
    pnames = [n for n, _ in ser.named_parameters()]
    lay = ["n", "n", "p", "a"]
    thd.config.debug = s["debug"]

    def f(r, p, a):
        m = getattr(thd, "Distributed" + name)(**kw).to(dt)
        if s["path"] == "fused":
            m.fused = True
        m.load_state_dict(ser.state_dict())
        xl = memlay(shard(x, lay, np_, na, p, a), s["mem"]).requires_grad_()
        keep = xl.detach().clone()
        yl = m(xl)
        gl = torch.autograd.grad(yl, [xl] + [dict(m.named_parameters())[n] for n in pnames], memlay(shard(go, lay, np_, na, p, a), s["gmem"]))
        return yl, gl, bool(torch.equal(xl.detach(), keep))

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s), policy=s["pol"])
    vals = check_res(res)
    items = [item("out", y, lay, np_, na, [v[0] for v in vals]), item("gradx", gser[0], lay, np_, na, [v[1][0] for v in vals])]
    for k, n in enumerate(pnames):
        tot = sum(v[1][k + 1] for v in vals)
        items.append(item("grad" + n, gser[k + 1], ["n"] * gser[k + 1].dim(), np_, na, [tot] * (np_ * na)))
    return dict(np=np_, na=na, dt=s["dt"], items=items, faults=faults(w), scale=int(0 < s["cut"] < 100 or bool(y.abs().max() > 0)), extra=[] if all(v[2] for v in vals) else ["input modified"])
