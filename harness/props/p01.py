import torch
from .common import *
import torch_harmonics.distributed as thd
from torch_harmonics.distributed.primitives import flatten_and_pad_leading_dims, unpad_and_unflatten_leading_dims


def replay(s):
    return dict(sizes=sizes, split=split, pack=pack)[s["kind"]](s)


def sizes(s):
    e = []
    for p in s["ps"]:
        try:
            v = thd.compute_split_shapes(s["n"], p)
            e.append(dict(p=p, refused=False, s=[int(q) for q in v]))
        except Exception:
            e.append(dict(p=p, refused=True, s=[]))
    return dict(kind="sizes", n=s["n"], e=e)


def split(s):
    x = memlay(tag(s["sh"], DT[s["dt"]]), s["mem"])
    dim = s["dim"] - 1 - (len(s["sh"]) if s["neg"] else 0)
    try:
        c = thd.split_tensor_along_dim(x, dim, s["p"])
        ref = False
    except Exception:
        c, ref = [], True
    return dict(kind="split", sh=s["sh"], dim=s["dim"], p=s["p"], refused=ref, c=[obs(t) for t in c])


def pack(s):
    dt = DT[s["dt"]]
    nt = len(s["trail"])
    x = memlay(tag(s["lead"] + s["trail"], dt), s["mem"]).requires_grad_(dt.is_floating_point or dt.is_complex)
    keep = x.detach().clone()
    kw = {} if nt == 2 else dict(num_trailing_dims=nt)
    y, lshape, lsize = flatten_and_pad_leading_dims(x, s["min"], **kw)
    b = unpad_and_unflatten_leading_dims(y, lshape, lsize, **kw)
    if x.requires_grad:
        (g,) = torch.autograd.grad(b, x, tag(list(b.shape), dt, 2, 3))
    else:
        g = tag(list(b.shape), dt, 2, 3)
    L = 1
    for d in s["lead"]:
        L *= d
    z = torch.cat([tag([L] + s["trail2"], dt)] + ([torch.zeros([y.shape[0] - L] + s["trail2"], dtype=dt)] if y.shape[0] > L else []), 0)
    b2 = unpad_and_unflatten_leading_dims(z, lshape, lsize, **kw)
    py = obs(y)
    if dt.is_complex:  # padding rows are exactly zero, which is not in the tag encoding
        n = L
        for d in s["trail"]:
            n *= d
        pad = y.detach().reshape(-1)[n:]
        py["v"][n:] = [0 if v == 0 else BAD for v in pad.tolist()]
    return dict(kind="pack", lead=s["lead"], trail=s["trail"], trail2=s["trail2"], min=s["min"], packed=py, leadshape=[int(v) for v in lshape], leadsize=int(lsize),
                back=obs(b), back2=obs(b2), grad=obs(g), dtypeok=y.dtype == dt and b.dtype == dt, inputok=bool(torch.equal(x.detach(), keep)))
