import torch
from .common import *
import simdist
import torch_harmonics.distributed as thd
import torch_harmonics.distributed.primitives as prim


def replay(s):
    P, na, hgt, rl, B, C, W = s["P"], s["na"], s["hgt"], s["rl"], s["B"], s["C"], s["W"]
    dt = DT[s["dt"]]
    H = sum(hgt)

    def f(r, p, a):
        g = (torch.arange(B * C * H * W, dtype=torch.float64) * 5 + 1 + a).reshape(B, C, H, W).to(dt)
        x0 = g[:, :, sum(hgt[:p]) : sum(hgt[: p + 1])]
        x = memlay(x0, s["mem"]).requires_grad_()
        y = thd.polar_halo_exchange(x, rl) if hasattr(thd, "polar_halo_exchange") else prim.polar_halo_exchange(x, rl)
        yo = obs(y)
        go0 = (torch.arange(B * C * (hgt[p] + 2 * rl) * W, dtype=torch.float64) * 3 + 1 + r).reshape(B, C, hgt[p] + 2 * rl, W).to(dt)
        go = memlay(go0, s["gmem"])
        (gr,) = torch.autograd.grad(y, x, go)
        pv, nx = prim.get_group_neighbors(thd.polar_group())
        apv, anx = prim.get_group_neighbors(thd.azimuth_group())
        kept = bool(torch.equal(x.detach(), x0)) and bool(torch.equal(go, go0)) and obs(y) == yo
        return dict(pad=yo, grad=obs(gr), prev=pv, next=nx, aprev=apv, anext=anx, kept=kept, dtypeok=y.dtype == dt and gr.dtype == dt)

    w, res = simdist.run_grid(P, na, f, seed=scn_seed(s), policy=s["pol"])
    return dict(np=P, na=na, B=B, C=C, W=W, hgt=hgt, rl=rl, obs=check_res(res), faults=faults(w))
