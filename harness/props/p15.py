import torch, random
import numpy as np
from .common import *
import torch_harmonics as th
import torch_harmonics.disco.convolution as C

FINE = 2**30 + 1


def entries(s, rng):
    K, R, H, W = s["K"], s["R"], s["H"], s["W"]
    allp = [(k, r, h, w) for r in range(R) for k in range(K) for h in range(H) for w in range(W)]
    pat = s["pat"]
    if pat == "one":
        sel = [rng.choice(allp)]
    elif pat == "empty":
        sel = []
    elif pat == "lastfirst":  # single-row kernels: the rows of consecutive kernels coincide
        r0 = rng.randrange(R)
        sel = [p for p in allp if p[1] == r0]
        sel = rng.sample(sel, min(len(sel), 10))
    elif pat == "nokernel":  # one kernel function without support
        k0 = rng.randrange(K)
        sel = [p for p in allp if p[0] != k0]
        sel = rng.sample(sel, min(len(sel), 12))
    elif pat == "norow":
        r0 = rng.randrange(R)
        sel = [p for p in allp if p[1] != r0]
        sel = rng.sample(sel, min(len(sel), 12))
    elif pat == "same":  # every kernel has the same support (packed layouts)
        base = [(r, h, w) for r in range(R) for h in range(H) for w in range(W)]
        base = rng.sample(base, min(len(base), 5))
        sel = [(k, *b) for k in range(K) for b in base]
    elif pat == "dense":  # large filters: hundreds of entries per row
        sel = rng.sample(allp, min(len(allp), s["nnz"]))
    elif pat == "full":
        sel = {rng.choice([p for p in allp if p[0] == k and p[1] == r]) for k in range(K) for r in range(R)}
        sel = list(sel | set(rng.sample(allp, min(len(allp), 18))))
    else:
        sel = rng.sample(allp, min(len(allp), 14))
    # order in which the library emits entries: output latitude, kernel, input latitude, longitude
    sel = sorted(sel, key=lambda p: (p[1], p[0], p[2], p[3]))
    return [[*p, rng.choice([-1, 1] if s["dt"] in ("f16", "bf16") else [-3, -2, -1, 1, 2, 3])] for p in sel]


def contract(P, x, K, R, V):
    W = x.shape[-1]
    z = np.zeros((*x.shape[:2], K, R, V), dtype=np.int64)
    cols = (W // V) * np.arange(V)
    for k, r, h, w, v in P:
        z[:, :, k, r] += v * x[:, :, h, (w + cols) % W]
    return z


def spread(P, u, H, W):
    V = u.shape[-1]
    y = np.zeros((*u.shape[:2], H, W), dtype=np.int64)
    cols = (W // V) * np.arange(V)
    for k, r, h, w, v in P:
        y[:, :, h, (w + cols) % W] += v * u[:, :, k, r]
    return y


def reference(s, P, x, w, b, gy):
    """the defining sums of the specification (module Disco) evaluated in integers; small records check that they agree"""
    K, R, H, V, W, G = s["K"], s["R"], s["H"], s["V"], s["W"], s["G"]
    B, C, O = x.shape[0], x.shape[1], gy.shape[1]
    wg = w.reshape(G, O // G, C // G, K)
    if s["op"] == "conv":
        z = contract(P, x, K, R, V).reshape(B, G, C // G, K, R, V)
        g = gy.reshape(B, G, O // G, R, V)
        y = np.einsum("bgckrv,gock->bgorv", z, wg).reshape(B, O, R, V) + b.reshape(1, -1, 1, 1)
        gx = spread(P, np.einsum("bgorv,gock->bgckrv", g, wg).reshape(B, C, K, R, V), H, W)
        gw = np.einsum("bgorv,bgckrv->gock", g, z).reshape(w.shape)
    else:
        xx = x.reshape(B, G, C // G, R, V)
        y = spread(P, np.einsum("bgcrv,gock->bgokrv", xx, wg).reshape(B, O, K, R, V), H, W) + b.reshape(1, -1, 1, 1)
        zy = contract(P, gy, K, R, V).reshape(B, G, O // G, K, R, V)
        gx = np.einsum("bgokrv,gock->bgcrv", zy, wg).reshape(x.shape)
        gw = np.einsum("bgokrv,bgcrv->gock", zy, xx).reshape(w.shape)
    return y, gx, gw, gy.sum((0, 2, 3))


def replay(s):
    if not hasattr(C, "_precompute_convolution_tensor_s2"):
        return []
    rng = random.Random(scn_seed(s))
    P = entries(s, rng)
    K, R, H, V, W, G, B = s["K"], s["R"], s["H"], s["V"], s["W"], s["G"], s["B"]
    Cin, O = G * s["ci"], G * s["co"]
    dt = DT[s["dt"]]
    calls = []

    def fake(*a, **kw):
        calls.append(1)
        idx = torch.tensor([[e[0] for e in P], [e[1] for e in P], [e[2] * W + e[3] for e in P]], dtype=torch.int64).reshape(3, len(P))
        vals = torch.tensor([float(e[4]) for e in P], dtype=torch.float64)
        roff = torch.tensor([sum(1 for e in P if e[1] < t) for t in range(R + 1)], dtype=torch.int64)
        return idx, vals, roff

    keep = C._precompute_convolution_tensor_s2
    C._precompute_convolution_tensor_s2 = fake
    try:
        kw = dict(kernel_shape=s["K"] * 2 - 1, basis_type="piecewise linear", groups=G, bias=s["bias"], theta_cutoff=0.1, optimized_kernel=s["opt"])
        if s["op"] == "conv":
            m = th.DiscreteContinuousConvS2(Cin, O, (H, W), (R, V), fused=s["fused"], **kw)
        else:
            m = th.DiscreteContinuousConvTransposeS2(Cin, O, (R, V), (H, W), **kw)
    finally:
        C._precompute_convolution_tensor_s2 = keep
    if not calls:
        return []
    m = m.to(dt)
    g = torch.Generator().manual_seed(scn_seed(s))
    amp = 1 if s["dt"] in ("f16", "bf16") else 4
    ri = lambda *sh: torch.randint(-amp, amp + 1, sh, generator=g).to(dt)
    with torch.no_grad():
        m.weight.copy_(ri(*m.weight.shape))
        if s["bias"]:
            m.bias.copy_(ri(*m.bias.shape))
    xin = (R, V) if s["op"] == "trans" else (H, W)
    yout = (H, W) if s["op"] == "trans" else (R, V)
    x = ri(B, Cin, *xin)
    # float64: the same integers times 2^30+1 on one side; every result is that multiple of the integer one, and nothing computed in float32 is
    fx, fg = (FINE if s.get("fine") == "x" else 1), (FINE if s.get("fine") == "g" else 1)
    xl = memlay(x * fx, s["mem"])
    if s["bias"] and fx > 1:
        with torch.no_grad():
            m.bias.mul_(fx)
    kx = xl.clone()
    rg = s["rg"]
    xl.requires_grad_(rg != "w")
    m.weight.requires_grad_(rg != "x")
    y = m(xl)
    gy = ri(B, O, *yout)
    if s["bias"] and fx > 1:
        with torch.no_grad():
            m.bias.div_(fx)
    if s["pat"] == "dense":
        i64 = lambda t: t.detach().to(torch.float64).numpy().astype(np.int64)
        ry, rgx, rgw, rgb = reference(s, P, i64(x), i64(m.weight), i64(m.bias) if s["bias"] else np.zeros(O, dtype=np.int64), i64(gy))
        mism = lambda t, r: int((t.detach().to(torch.float64).numpy() != r).sum()) if tuple(t.shape) == r.shape else -1
        rec = dict(op="large", layer=s["op"], shok=list(y.shape) == [B, O, *yout], dtok=y.dtype == dt, y=mism(y / fx, ry), gx=0, gw=0, gb=0)
        gok = rec["shok"]
        if rec["shok"]:
            params = ([xl] if rg != "w" else []) + ([m.weight] if rg != "x" else []) + ([m.bias] if s["bias"] else [])
            grads = list(torch.autograd.grad(y, params, memlay(gy * fg, s["gmem"])))
            gok = all(g_ is not None and g_.dtype == p_.dtype for p_, g_ in zip(params, grads))
            if rg != "w":
                rec["gx"] = mism(grads.pop(0) / fg, rgx)
            if rg != "x":
                rec["gw"] = mism(grads.pop(0) / (fx * fg), rgw)
            if s["bias"]:
                rec["gb"] = mism(grads.pop(0) / fg, rgb)
        rec.update(gok=bool(gok), inok=bool(torch.equal(xl.detach(), kx)))
        return rec
    rec = dict(op=s["op"], P=P, B=B, C=Cin, O=O, G=G, K=K, R=R, H=H, V=V, W=W, x=ints(x), w=ints(m.weight), b=ints(m.bias) if s["bias"] else [0] * O, gy=ints(gy), gx=[], gw=[], gb=[], shok=list(y.shape) == [B, O, *yout], dtok=y.dtype == dt)
    rec["y"] = ints(y / fx)
    gok = True
    if rec["shok"]:
        params = ([xl] if rg != "w" else []) + ([m.weight] if rg != "x" else []) + ([m.bias] if s["bias"] else [])
        grads = list(torch.autograd.grad(y, params, memlay(gy * fg, s["gmem"])))
        for p, gr in zip(params, grads):
            gok = gok and gr is not None and gr.shape == p.shape and gr.dtype == p.dtype
        if rg != "w":
            rec["gx"] = ints(grads.pop(0) / fg)
        if rg != "x":
            rec["gw"] = ints(grads.pop(0) / (fx * fg))
        if s["bias"]:
            rec["gb"] = ints(grads.pop(0) / fg)
    rec.update(gok=bool(gok), inok=bool(torch.equal(xl.detach(), kx)), ref=[])
    if scn_seed(s) % 6 == 0:
        i64 = lambda t: t.detach().to(torch.float64).numpy().astype(np.int64)
        rec["ref"] = [[int(q) for q in r.ravel()] for r in reference(s, P, i64(x), i64(m.weight), i64(m.bias) if s["bias"] else np.zeros(O, dtype=np.int64), i64(gy))]
    return rec
