"""Dense float64 definition of spherical attention and its comparison with a layer."""
import torch, math, numpy as np
import torch.nn.functional as F
from .common import *
import vlib
from . import refs

EPS = dict(f32=6e-8, f64=1.2e-16, f16=1e-3, bf16=8e-3, ac=8e-3)


def dense(m, query, key, value, logw, mask, nh, scale, qk_eps):
    """m: dict name->float64 parameter; returns output and logits magnitude"""
    pj = lambda x, w, b: torch.einsum("oc,bchw->bohw", m[w].reshape(m[w].shape[0], -1), x) + (m[b].reshape(1, -1, 1, 1) if b in m else 0.0)
    q, k, v = pj(query, "q_weights", "q_bias"), pj(key, "k_weights", "k_bias"), pj(value, "v_weights", "v_bias")
    B = q.shape[0]
    sp = lambda x: x.reshape(B, nh, x.shape[1] // nh, -1)
    q, k, v = sp(q), sp(k), sp(v)
    amp = 1.0
    if "q_norm_weights" in m:
        rms = lambda x, w: x * torch.rsqrt(x.pow(2).mean(2, keepdim=True) + qk_eps) * (1 + w).reshape(1, 1, -1, 1)
        amp = 1.0 / min(q.detach().pow(2).mean(2).min().item(), k.detach().pow(2).mean(2).min().item(), 1.0) ** 0.5
        amp = min(amp, qk_eps**-0.5)
        q, k = rms(q, m["q_norm_weights"]), rms(k, m["k_norm_weights"])
    L = torch.einsum("bnco,bnci->bnoi", q, k) * scale
    Z = L + logw + torch.where(mask, 0.0, float("-inf"))
    p = torch.softmax(Z, -1)
    y = torch.einsum("bnoi,bnci->bnco", p, v)
    y = y.reshape(B, -1, query.shape[2], query.shape[3])
    aux = (torch.where(mask, L, torch.zeros(())).abs().max().item(), q.abs().max().item(), k.abs().max().item(), v.abs().max().item(), amp)
    return pj(y, "proj_weights", "proj_bias"), aux


def compare(s, layer, ref_of, mask, logw, grids, extra_scale=1.0):
    """run layer and definition on the same data; s: dt, mem, gmem, B, alias, amp, kofs, gx (which gradients)"""
    (Ho, V), (Hi, W) = grids
    dtn = s["dt"]
    dt = torch.float32 if dtn == "ac" else DT[dtn]
    g = torch.Generator().manual_seed(scn_seed(s))
    rn = lambda *sh: torch.randn(*sh, generator=g, dtype=torch.float64)
    C = layer.in_channels
    layer = layer.to(dt)
    with torch.no_grad():
        for n, p in layer.named_parameters():
            p.copy_((rn(*p.shape) * (0.3 if "bias" in n or "norm" in n else 1.0 / math.sqrt(C))).to(dt))
        if s["const"] and "v_weights" in dict(layer.named_parameters()):
            pass
    names = dict(layer.named_parameters())
    query = (rn(s["B"], C, Ho, V) * s["amp"]).to(dt)
    same = (Ho, V) == (Hi, W)
    alias = s["alias"] if same else ("kv" if s["alias"] in ("kv", "all", "none3") else "sep")
    key = (rn(s["B"], C, Hi, W) * s["amp"] + s["kofs"]).to(dt)
    val = rn(s["B"], C, Hi, W).to(dt)
    if s["const"]:
        val = val[:, :, :1, :1].expand(-1, -1, Hi, W).clone()
    leaf = lambda t, how: memlay(t, how).requires_grad_(True)
    q_ = leaf(query, s["mem"])
    if alias == "none3":
        args, leaves, src = (q_,), [q_], [query]
        key = val = query
    elif alias == "all":
        args, leaves, src = (q_, q_, q_), [q_], [query]
        key = val = query
    elif alias == "kv":
        k_ = leaf(key, s["gmem"])
        args, leaves, src = (q_, k_, k_), [q_, k_], [query, key]
        val = key
    elif alias == "qk":
        v_ = leaf(val, s["gmem"])
        args, leaves, src = (q_, q_, v_), [q_, v_], [query, val]
        key = query
    elif alias == "qv":
        k_ = leaf(key, s["gmem"])
        args, leaves, src = (q_, k_, q_), [q_, k_], [query, key]
        val = query
    else:
        k_, v_ = leaf(key, s["gmem"]), leaf(val, s["mem"])
        args, leaves, src = (q_, k_, v_), [q_, k_, v_], [query, key, val]
    keep = [l.detach().clone() for l in leaves]
    if dtn == "ac":
        with torch.autocast("cpu", dtype=torch.bfloat16):
            y = layer(*args)
    else:
        y = layer(*args)
    # definition
    d64 = {n: p.detach().double().clone().requires_grad_(True) for n, p in names.items()}
    l64 = [t.double().clone().requires_grad_(True) for t in src]
    amap = dict(none3=(0, 0, 0), all=(0, 0, 0), kv=(0, 1, 1), qk=(0, 0, 1), qv=(0, 1, 0)).get(alias, (0, 1, 2))
    sc = s["scale_val"]
    qk_eps = torch.finfo(torch.bfloat16 if dtn == "ac" and False else dt).eps
    yr, (Lmax, qm, km, vm, amp) = dense(d64, l64[amap[0]], l64[amap[1]], l64[amap[2]], logw, mask, layer.num_heads, sc, qk_eps)
    shok = list(y.shape) == list(yr.shape)
    rec = dict(op="layer", shok=shok, dtok=y.dtype == (torch.bfloat16 if dtn == "ac" else dt), inok=all(torch.equal(a.detach(), b) for a, b in zip(leaves, keep)), fin=False, ry=0, rg=[], gok=False)
    if not shok:
        return rec
    ker = 6e-8 if s.get("kernel32") else 0.0
    eps = max(EPS[dtn], ker)
    unit = eps * (4 + 2 * Lmax) * extra_scale * (amp if dtn in ("f16", "bf16", "ac") else max(1.0, 0.1 * amp))
    rec["fin"] = bool(torch.isfinite(y).all())
    ysc = max(yr.abs().max().item(), vm, 1e-30)
    rec["ry"] = vlib.res_int((y.detach().double() - yr.detach()).abs().max().item() / ysc, unit)
    gy = rn(*y.shape).to(y.dtype)
    pl = list(names.values())
    gr = torch.autograd.grad(y, leaves + pl, memlay(gy, s["gmem"]), allow_unused=True)
    gref = torch.autograd.grad(yr, l64 + list(d64.values()), gy.double(), allow_unused=True)
    rec["gok"] = all(a is not None and a.shape == b.shape and a.dtype == b.dtype for a, b in zip(gr, leaves + pl))
    gm = gy.abs().max().item()
    N = s["B"] * Ho * V
    for i, (a, b) in enumerate(zip(gr, gref)):
        if a is None or a.shape != b.shape:
            continue
        # magnitude bound of the terms summed into this gradient
        fl = gm * vm * max(qm, km, 1.0) * max(abs(sc), 1e-3) if not torch.is_tensor(sc) else gm * vm * max(qm, km, 1.0)
        ssc = max(b.abs().max().item(), fl * 0.1 * amp * (1.0 if i < len(leaves) else math.sqrt(N)))
        if not (s["qkn"] and dtn in ("f16", "bf16", "ac")):  # normalising nearly vanishing vectors amplifies low-precision rounding without bound
            rec["rg"].append(vlib.res_int((a.double() - b).abs().max().item() / ssc, unit))
        rec["fin"] = rec["fin"] and bool(torch.isfinite(a).all())
    return rec
