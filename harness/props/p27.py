import torch, os, warnings, numpy as np
from .common import *
import vlib
from .p22 import layer
from .p24 import cot, npy, dist
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_map, tree_flatten
from torch._subclasses.fake_tensor import FakeTensorMode

warnings.simplefilter("ignore")
import logging

logging.getLogger("torch._dynamo").setLevel(logging.CRITICAL)
OURS = ("disco_kernels", "attention_kernels")


def setp(m, v):
    g = torch.Generator().manual_seed(100 + v)
    with torch.no_grad():
        for _, p in sorted(m.named_parameters()):
            p.copy_((torch.randn(p.shape, generator=g, dtype=torch.float32) * 0.5).to(p.dtype))


def meta(t):
    return [list(t.shape), str(t.dtype)] if isinstance(t, torch.Tensor) else None


class Watch(TorchDispatchMode):
    """every operator of the library that is met: does its data-free version predict what it returns"""

    def __init__(self):
        super().__init__()
        self.bad, self.seen = [], 0

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        if getattr(func, "namespace", "") not in OURS:
            return func(*args, **kwargs)
        keep = tree_map(lambda t: t.clone() if isinstance(t, torch.Tensor) else t, args)
        out = func(*args, **kwargs)
        self.seen += 1
        with FakeTensorMode() as fm:
            fa, fk = tree_map(lambda t: fm.from_tensor(t) if isinstance(t, torch.Tensor) else t, (args, kwargs))
            fout = func(*fa, **fk)
        a, b = tree_flatten(out)[0], tree_flatten(fout)[0]
        ptr = {t.untyped_storage().data_ptr() for t in tree_flatten(args)[0] if isinstance(t, torch.Tensor) and t.numel()}
        for x, y in zip(a, b):
            if (x is None) != (y is None):
                self.bad.append([func.__name__, "none"])
            elif isinstance(x, torch.Tensor):
                if meta(x) != meta(y):
                    self.bad.append([func.__name__, "meta"])
                elif x.numel() and [s for s, n in zip(x.stride(), x.shape) if n > 1] != [s for s, n in zip(y.stride(), y.shape) if n > 1]:
                    self.bad.append([func.__name__, "stride"])
                if x.numel() and x.untyped_storage().data_ptr() in ptr:
                    self.bad.append([func.__name__, "alias"])
        if len(a) != len(b):
            self.bad.append([func.__name__, "count"])
        for x, y in zip(tree_flatten(args)[0], tree_flatten(keep)[0]):
            if isinstance(x, torch.Tensor) and not bool(((x == y) | ((x != x) & (y != y))).all()):
                self.bad.append([func.__name__, "mutates"])
        return out


def inputs(c, b, lay, mem):
    out = []
    for k, sh in enumerate(c["xs"]):
        g = torch.Generator().manual_seed(40 + k + 7 * b)
        t = torch.randn([b] + sh, generator=g)
        if c.get("cx"):
            t = torch.complex(t, torch.randn([b] + sh, generator=g))
        if c["dt"] == "f64":
            t = t.to(torch.complex128 if t.is_complex() else torch.float64)
        if c["dt"] == "bf16":
            t = t.to(torch.bfloat16)
        out.append(t if lay == "c" else memlay(t, mem))
    return out


def run(m, ps, xs, grad):
    if not grad:
        with torch.no_grad():
            return [m(*xs)]
    xs = [x.detach().requires_grad_(True) for x in xs]
    y = m(*xs)
    return [y] + list(torch.autograd.grad(y, xs + ps, cot(y), allow_unused=True))


def replay(s):
    c = s["c"]
    torch._dynamo.reset()
    mk = lambda: layer(c).double() if c["dt"] == "f64" else layer(c).bfloat16() if c["dt"] == "bf16" else layer(c)
    m = mk()
    pl = {v: mk() for v in (1, 2)}
    setp(m, 1)
    for v in pl:
        setp(pl[v], v)
    sorted_ps = lambda q: [p for _, p in sorted(q.named_parameters())]
    wrap = lambda: m if s["kind"] == "native" else torch.compile(m, backend=s["be"], dynamic=dict(static=False, dynamic=True, auto=None)[s["kind"]])
    cm = wrap()
    tol = 2e-2 if c["dt"] == "bf16" else 3e-5 if c["dt"] == "f32" or "Attention" in c["cls"] else 1e-10
    obs, metas, keep = [], [], []
    w = Watch()
    for a in s["h"]:
        o = []
        if a[0] == "call":
            xs = inputs(c, a[1], a[2], s["mem"])
            kx = [x.clone() for x in xs]
            bufs = [t.detach().clone() for t in list(m.parameters()) + [b.to_dense() if b.is_sparse else b for b in m.buffers()]]
            out = run(cm, sorted_ps(m), xs, a[3])
            refs = {}
            with torch.compiler.set_stance("force_eager"):
                for v in pl:
                    refs[v] = run(pl[v], sorted_ps(pl[v]), xs, a[3])
                if w.seen < 6 and s["watch"]:
                    with w:
                        run(pl[1], sorted_ps(pl[1]), xs, a[3])
                if s["fake"]:
                    with FakeTensorMode(allow_non_fake_inputs=True) as fm, torch.no_grad():
                        f = pl[1](*[fm.from_tensor(x) for x in xs])
                    metas.append(meta(f) == meta(out[0]) == meta(refs[1][0]))
            metas.append([meta(t) for t in out] == [meta(t) for t in refs[1]])
            o = [dist(npy(out), npy(refs[v]), tol) for v in (1, 2)]
            now = [t.detach() for t in list(m.parameters()) + [b.to_dense() if b.is_sparse else b for b in m.buffers()]]
            keep.append(all(torch.equal(x, k) for x, k in zip(xs, kx)) and len(now) == len(bufs) and all(torch.equal(x, k) for x, k in zip(now, bufs)))
        elif a[0] == "upd":
            setp(m, a[1])
        elif a[0] == "reset":
            torch._dynamo.reset()
            cm = wrap()
        elif a[0] == "mode":
            m.train(not m.training)
        elif a[0] == "other":
            for v in pl:
                run(pl[v], sorted_ps(pl[v]), inputs(c, 2, "c", "perm"), 1)
        obs.append(o)
    return dict(k="static" if s["kind"] == "native" else s["kind"], h=s["h"], obs=obs, meta=metas, ops=[" ".join(b) for b in w.bad], keep=keep, nops=w.seen)
