import torch, copy, io, pickle, json, warnings, numpy as np
from .common import *
import vlib
from .fresh import forked
from .p22 import layer
import torch_harmonics as th

warnings.simplefilter("ignore")


def setp(m, v):
    """parameter version v, set in place (only when it differs from the construction: version 1 = as constructed with the fixed seed)"""
    g = torch.Generator().manual_seed(100 + v)
    with torch.no_grad():
        for _, p in sorted(m.named_parameters()):
            p.copy_(torch.randn(p.shape, generator=g, dtype=torch.float32) * 0.5)


def inp(c, x, dt=torch.float32):
    g = torch.Generator().manual_seed(40 + x)
    t = torch.randn(c["x"], generator=g)
    if c.get("cx"):
        t = torch.complex(t, torch.randn(c["x"], generator=g))
    return t.to(torch.complex128 if t.is_complex() and dt == torch.float64 else (t.dtype if t.is_complex() else dt))


def cot(y):
    g = torch.Generator().manual_seed(77)
    t = torch.randn(y.shape, generator=g)
    if y.is_complex():
        t = torch.complex(t, torch.randn(y.shape, generator=g))
    return t.to(y.dtype)


def npy(ts):
    return [None if t is None else torch.view_as_real(t.detach().resolve_conj()).double().numpy().copy() if t.is_complex() else t.detach().double().numpy().copy() for t in ts]


def fb(m, x, need=True):
    x = x.detach().requires_grad_(True)
    y = m(x)
    ct = cot(y)
    keep = ct.clone()
    ps = [p for _, p in sorted(m.named_parameters())]
    gs = torch.autograd.grad(y, [x] + ps, ct, allow_unused=True)
    return [y] + list(gs), torch.equal(keep, ct), x


def wide(m, x):
    """forward with an input of higher precision than the parameters; None where the layer does not admit it"""
    try:
        with torch.no_grad():
            return npy([m(x)])
    except RuntimeError:
        return None


def excursion(m, c):
    m.double()
    try:
        with torch.no_grad():
            m(inp(c, 1, torch.float64))
    except RuntimeError:
        pass
    m.float()


def wdist(a, b):
    if a is None or b is None:
        return 0 if a is b else 2 * 10**9
    return dist(a, b, 1e-9)


def reference(c, v):
    out = {}
    for nar in (0, 1):
        m = layer(c)
        setp(m, v)
        if nar:
            excursion(m, c)
        out["wide", nar] = wide(m, inp(c, 1, torch.float64))
    for x in (1, 2):
        m = layer(c)
        setp(m, v)
        with torch.no_grad():
            out["fwd", x] = npy([m(inp(c, x))])
        out["bwd", x] = npy(fb(m, inp(c, x))[0])
    return out


REF = {}


def ref(c, v):
    k = json.dumps([c, v], sort_keys=True)
    if k not in REF:
        REF[k] = forked(reference, c, v)
    return REF[k]


def dist(a, b, tol=2e-5):
    if len(a) != len(b):
        return 2 * 10**9
    m = 0
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return 2 * 10**9
        if x is None or x.size == 0:
            continue
        if x.shape != y.shape:
            return 2 * 10**9
        m = max(m, vlib.res_int(np.abs(x - y).max(), tol * max(np.abs(y).max(), 1e-6)))
    return m


def state(m):
    return [t.detach().clone() for t in list(m.parameters()) + [b.to_dense() if b.is_sparse else b for b in m.buffers()]]


def same(a, m):
    b = state(m)
    return len(a) == len(b) and all(x.dtype == y.dtype and x.shape == y.shape and (torch.equal(x, y) or bool(((x == y) | ((x != x) & (y != y))).all())) for x, y in zip(a, b))


def history(s, refs):
    c = s["c"]
    hs = [layer(c)]
    setp(hs[0], 1)
    xs = {x: inp(c, x) for x in (1, 2)}
    keepx = {x: t.clone() for x, t in xs.items()}
    obs, clean, kept = [], [], []
    last = None
    for a, k, arg in s["h"]:
        m = hs[k - 1]
        before = [state(q) for q in hs]
        o = []
        changed = set()
        if a in ("fwd", "ng", "lay", "bat"):
            x = xs[arg]
            if a == "lay":
                x = memlay(x, s["mem"])
            if a == "bat":
                x = torch.cat([xs[2], xs[1]] + [xs[1]] * s["big"], 0) if s["big"] else x[:1]
            if a == "ng":
                with torch.no_grad():
                    y = m(x)
            else:
                y = m(x)
            if a == "bat":
                n = xs[1].shape[0]
                y2 = y[n : 2 * n] if s["big"] else y
                o = [dist(npy([y2]), [npr[: y2.shape[0]] for npr in r["fwd", arg]]) for r in refs]
            else:
                o = [dist(npy([y]), r["fwd", arg]) for r in refs]
            kept.append((y, y.detach().clone()))
            last = y
        elif a == "wide":
            w = wide(m, inp(c, 1, torch.float64))
            o = [wdist(w, r["wide", nar]) for nar in (0, 1) for r in refs]
        elif a == "bwd":
            out, ctok, xx = fb(m, xs[arg])
            clean.append(ctok and torch.equal(xx.detach(), keepx[arg]))
            o = [dist(npy(out), r["bwd", arg]) for r in refs]
            kept += [(t, t.detach().clone()) for t in out if t is not None]
        elif a == "upd":
            setp(m, arg)
            changed = {k - 1}
        elif a == "copy":
            hs.append(copy.deepcopy(m))
        elif a == "pickle":
            b = io.BytesIO()
            torch.save(m, b)
            b.seek(0)
            hs.append(torch.load(b, weights_only=False))
        elif a == "save":
            b = io.BytesIO()
            torch.save(m.state_dict(), b)
            b.seek(0)
            n = layer(c)
            setp(n, 3)
            n.load_state_dict(torch.load(b))
            hs.append(n)
        elif a == "mode":
            m.train(not m.training)
        elif a == "cast":
            excursion(m, c)
            changed = {k - 1}
        elif a == "noise":
            x = inp(c, 5) * 3 + 1
            for dt in (torch.bfloat16, torch.float16):
                try:
                    m(x if x.is_complex() else x.to(dt))
                except RuntimeError:
                    pass
            with torch.autocast("cpu", dtype=torch.bfloat16), torch.no_grad():
                try:
                    m(x)
                except RuntimeError:
                    pass
            try:
                m(torch.cat([x, x, x], 0).to(torch.complex128 if x.is_complex() else torch.float64))
            except RuntimeError:
                pass
            try:
                m(x[:0])
            except (RuntimeError, ValueError, IndexError):
                pass
        elif a == "mutout":
            if last is not None:
                kept = [kk for kk in kept if kk[0] is not last]
                with torch.no_grad():
                    try:
                        d = last.detach()
                        al = {t.untyped_storage().data_ptr() for t in xs.values()}
                        if d.untyped_storage().data_ptr() not in al:  # a layer may return its input unchanged
                            d.mul_(-2).add_(1)
                    except RuntimeError:
                        pass
        elif a == "bad":
            x = inp(dict(c, x=c["x"][:-2] + [c["x"][-2] + 1, c["x"][-1]]), 1)
            try:
                m(x)
            except Exception:
                pass
        obs.append(o)
        clean.append(all(same(b, q) for j, (b, q) in enumerate(zip(before, hs)) if j not in changed))
        clean.append(all(torch.equal(xs[x], keepx[x]) for x in xs))
    return dict(obs=obs, clean=clean, keep=all(torch.equal(a.detach(), b) for a, b in kept))


def replay(s):
    refs = [ref(s["c"], v) for v in (1, 2)]
    return dict(h=s["h"], **forked(history, s, refs))
