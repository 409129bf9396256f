import torch
from .common import *
import simdist
import torch_harmonics.distributed as thd
import torch_harmonics.distributed.primitives as prim

FN = {
    ("copy", "p"): "copy_to_polar_region", ("copy", "a"): "copy_to_azimuth_region",
    ("reduce", "p"): "reduce_from_polar_region", ("reduce", "a"): "reduce_from_azimuth_region",
    ("scatter", "p"): "scatter_to_polar_region", ("gather", "p"): "gather_from_polar_region",
    ("rs", "p"): "reduce_from_scatter_to_polar_region", ("rs", "a"): "reduce_from_scatter_to_azimuth_region",
    ("gcopy", "p"): "gather_from_copy_to_polar_region",
}


def vals(shape, off, mul, add, dt):
    n = math.prod(shape)
    v = (torch.arange(n, dtype=torch.float64) * mul + add + off).reshape(shape)
    if dt.is_complex:
        v = torch.complex(v, 3 * v + 1)
    return v.to(dt)


def enc(t, nsum):
    """complex parts must be consistent: imag = 3*real + (number of summands)"""
    t = t.detach().resolve_conj()
    if t.is_complex():
        re = t.real.double()
        bad = t.imag.double() != 3 * re + nsum
    else:
        re = t.double()
        bad = torch.zeros(re.shape, dtype=torch.bool)
    bad = bad | torch.isnan(re) | (re != torch.round(re))
    return dict(sh=list(t.shape), v=[BAD if b else int(v) for v, b in zip(re.reshape(-1).tolist(), bad.reshape(-1).tolist())])


def lowprec(s):
    """rank 0 contributes B, every other rank 1, where B+1 is a rounding tie of the type; the exact sum B + (P-1) is representable"""
    dt = DT[s["dt"]]
    B = 256 if s["dt"] == "bf16" else 2048
    op, g, P, dim = s["op"], s["g"], s["P"], s["dim"] - 1
    fn = getattr(prim, FN[(op, g)])
    thd.config.debug = False

    def f(r, p, a):
        me = p if g == "p" else a
        sh = [2, 2]
        sh[dim] = s["n"]
        full = torch.full(sh, float(B if me == 0 else 1), dtype=dt)
        if op in ("reduce", "rs"):
            y = fn(full.clone()) if op == "reduce" else fn(full.clone(), dim)
        else:
            x = full.clone() if op == "copy" else chunk(full, dim, P, me).contiguous()
            x.requires_grad_()
            y = fn(x) if op == "copy" else fn(x, dim, split_sizes(s["n"], P))
            (y,) = torch.autograd.grad(y, x, full.clone())
        return [int(v) for v in y.double().reshape(-1).tolist()]

    w, res = simdist.run_grid(s["np"], s["na"], f, seed=scn_seed(s), policy=s["pol"])
    return dict(kind="lowprec", base=B, P=P, obs=check_res(res), faults=faults(w))


def replay(s):
    if s.get("kind") == "lowprec":
        return lowprec(s)
    op, g, np_, na, sh, dim = s["op"], s["g"], s["np"], s["na"], s["sh"], s["dim"] - 1
    dt = DT[s["dt"]]
    fn = getattr(prim, FN[(op, g)])
    P = np_ if g == "p" else na
    off = s["off"]
    d = dim - len(sh) if s["neg"] else dim
    thd.config.debug = s["debug"]

    def f(r, p, a):
        me = p if g == "p" else a
        ls = list(sh)
        ls[dim] = split_sizes(sh[dim], P)[me]
        ish = ls if op in ("gather", "gcopy") else sh
        osh = ls if op in ("scatter", "rs") else sh
        x0 = vals(ish, off, 2 * r + 1, 2 * r + 1 + r * r, dt)
        x = memlay(x0, s["mem"])
        x.requires_grad_()
        y0 = vals(osh, off, 3 * r + 1, 2 * (3 * r + 1) - r, dt)
        go = memlay(y0, s["gmem"])
        shapes = split_sizes(sh[dim], P)
        if op in ("copy", "reduce"):
            out = fn(x)
        elif op in ("scatter", "rs"):
            out = fn(x, d)
        else:
            out = fn(x, d, None if s["noshapes"] else shapes)
        n1 = P if op in ("reduce", "rs") else 1
        n2 = P if op in ("copy", "gcopy") else 1
        o1 = enc(out, n1)
        (gr,) = torch.autograd.grad(out, x, go)
        kept = bool(torch.equal(x.detach(), x0)) and bool(torch.equal(go, y0)) and enc(out, n1) == o1
        return dict(out=o1, grad=enc(gr, n2), kept=kept, dtypeok=out.dtype == dt and gr.dtype == dt)

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s), policy=s["pol"])
    return dict(kind="op", op=op, g=g, np=np_, na=na, sh=sh, dim=s["dim"], off=off, obs=check_res(res), faults=faults(w))
