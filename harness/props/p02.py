import torch
from .common import *
import simdist
import torch_harmonics.distributed as thd


def replay(s):
    np_, na, sh, lay, ops = s["np"], s["na"], s["sh"], s["lay"], s["ops"]
    dt = DT[s["dt"]]
    nd = len(sh)
    gx = tag(sh, dt)
    gg = tag(sh, dt, 2, 3)
    lays = [list(lay)]
    for o in ops:
        l = list(lays[-1])
        l[o["d1"] - 1], l[o["d0"] - 1] = "n", o["g"]
        lays.append(l)
    thd.config.debug = s["debug"]

    def f(r, p, a):
        x = memlay(shard(gx, lay, np_, na, p, a), s["mem"])
        keep = x.clone()
        grad = dt.is_floating_point or dt.is_complex
        if grad:
            x.requires_grad_()
        y = x
        steps = []
        for o in ops:
            d0, d1 = o["d0"] - 1, o["d1"] - 1
            if s["neg"]:
                d0, d1 = d0 - nd, d1 - nd
            fn = thd.distributed_transpose_polar if o["g"] == "p" else thd.distributed_transpose_azimuth
            shapes = thd.compute_split_shapes(sh[d1], np_ if o["g"] == "p" else na)
            y = fn(y, (d0, d1), shapes)
            steps.append(y)
        gr = None
        if grad:
            go = memlay(shard(gg, lays[-1], np_, na, p, a), s["gmem"])
            (gr,) = torch.autograd.grad(y, x, go)
        dok = all(t.dtype == dt for t in steps) and (gr is None or gr.dtype == dt)
        return [obs(t) for t in steps], (obs(gr) if grad else None), bool(torch.equal(x.detach(), keep)), dok

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s), policy=s["pol"])
    vals = check_res(res)
    return dict(np=np_, na=na, sh=sh, lay=lay, ops=ops, fwd=[[v[0][k] for v in vals] for k in range(len(ops))],
                grad=[v[1] for v in vals] if vals[0][1] is not None else [], inputok=all(v[2] for v in vals), dtypeok=all(v[3] for v in vals), faults=faults(w))
