"""Runs the scenarios of the other distributed properties under several schedules and records the
communication programs of all ranks."""
import importlib, math, random
import torch
from .common import *
import simdist

_orig = simdist.run_grid


def bitwise(a, b):
    if isinstance(a, torch.Tensor):
        if not isinstance(b, torch.Tensor) or a.dtype != b.dtype or a.shape != b.shape:
            return False
        return simdist._same(a.detach(), b.detach())
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(bitwise(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(bitwise(a[k], b[k]) for k in a)
    return a == b


def replay(s):
    inner = importlib.import_module("props." + s["mod"])
    runs = []

    def wrapped(npol, naz, fn, policy=None, seed=0, **kw):
        n = npol * naz
        kw["keep_log"] = True
        kw.pop("policy", None)
        rng = random.Random(seed)
        pols = ["first", "last", "rr", None, None] + [rng.sample(range(n), n) for _ in range(s["nperm"])]
        out = None
        for k, pol in enumerate(pols):
            w, res = _orig(npol, naz, fn, policy=pol, seed=seed + k, **kw)
            runs.append((w, res))
            if out is None:
                out = (w, res)
            if w.faults or any(r[0] != "ok" for r in res):
                break
        return out

    simdist.run_grid = wrapped
    try:
        exc = ""
        try:
            rec = inner.replay(s["scn"])
        except BaseException as e:
            if not runs:
                raise
            exc = f"{type(e).__name__}: {str(e)[:300]}"
            rec = None
    finally:
        simdist.run_grid = _orig
    if not runs:
        return []
    w0, r0 = runs[0]
    fl = sorted({f["kind"] for w, _ in runs for f in w.faults})
    errs = [str(v)[:200] for w, res in runs for k, v in res if k == "err"][:3]
    same = all(bitwise([v for _, v in r0], [v for _, v in res]) for _, res in runs[1:]) if not errs else False
    progs = all(w.ev == w0.ev for w, _ in runs[1:]) if not errs else False
    for r, prog in enumerate(w0.ev):
        for e in prog:
            e["of"] = e.get("of", 0)
    return dict(n=w0.n, prog=w0.ev, faults=fl, same=same, progs=progs, done=not errs, nruns=len(runs), small=math.prod(len(p) + 1 for p in w0.ev) <= s["cap"], err="; ".join(errs) + exc)
