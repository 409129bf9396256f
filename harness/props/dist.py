"""helpers for distributed-vs-serial comparisons"""
import torch
from .common import *
import vlib

EPS = {torch.float32: 2.0**-23, torch.float64: 2.0**-52, torch.complex64: 2.0**-23, torch.complex128: 2.0**-52, torch.float16: 2.0**-10, torch.bfloat16: 2.0**-7}


def ulps(a, ref, scale=None):
    """max |a-ref| in units of eps*max|ref|; shape mismatch -> -1"""
    if tuple(a.shape) != tuple(ref.shape):
        return -1
    if a.numel() == 0:
        return 0
    eps = EPS[a.dtype]
    a, ref = a.detach().resolve_conj(), ref.detach().resolve_conj()
    A, R = (a.to(torch.complex128), ref.to(torch.complex128)) if a.is_complex() else (a.double(), ref.double())
    sc = float(scale) if scale is not None else float(R.abs().max())
    d = (A - R).abs().max()
    if torch.isnan(d):
        return 2000000000
    return vlib.res_int(float(d), eps * max(sc, 1e-30))


def item(name, gref, lay, np_, na, locals_, scale=None):
    """locals_: per-rank tensors; gref: global serial reference"""
    sc = float(scale) if scale is not None else (float(gref.detach().abs().max()) if gref.numel() else 1.0)
    sc = max(sc, 1e-6)
    o = []
    for r, t in enumerate(locals_):
        ref = shard(gref, lay, np_, na, r // na, r % na)
        o.append(dict(sh=list(t.shape), res=ulps(t, ref, sc)))
    return dict(n=name, gsh=list(gref.shape), lay=list(lay), obs=o)
