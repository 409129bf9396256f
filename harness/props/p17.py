import torch, random, math, numpy as np
from .common import *
import vlib
from . import refs, attn
from .p16 import geometry
import torch_harmonics as th
import torch_harmonics.attention.attention as A


def pattern(s, rng):
    Hi, Ho, W, V = s["Hi"], s["Ho"], s["W"], s["V"]
    up = W % V != 0
    R, H, Wf, p = (Hi, Ho, V, V // W) if up else (Ho, Hi, W, W // V)
    allp = [(r, h, w) for r in range(R) for h in range(H) for w in range(Wf)]
    pat = s["pat"]
    n = dict(sparse=0, rand=len(allp) // 3, dense=(2 * len(allp)) // 3, full=len(allp), onerow=0)[pat]
    sel = set(rng.sample(allp, min(n, 24, len(allp))))
    # every output point needs a neighbour
    if up:
        for h in range(H):
            for res in range(p):
                if not any(e[1] == h and e[2] % p == res for e in sel):
                    sel.add((rng.randrange(R) if pat != "onerow" else 0, h, rng.choice([w for w in range(Wf) if w % p == res])))
    else:
        for r in range(R):
            if not any(e[0] == r for e in sel):
                sel.add((r, rng.randrange(H), rng.randrange(Wf)))
            if pat == "onerow":
                h = rng.randrange(H)
                sel |= {(r, h, w) for w in range(Wf)}
    return sorted(sel)


def exact(s):
    if not hasattr(A, "_precompute_convolution_tensor_s2"):
        return []
    if abs(s["shift"]) > 20:
        s = dict(s, rg=[0, 0, 0])  # gradients through large common logits are judged in the layer part
    rng = random.Random(scn_seed(s))
    Hi, Ho, W, V, nh, B = s["Hi"], s["Ho"], s["W"], s["V"], s["nh"], s["B"]
    dk, dv = s["dk"] + 1, s["dv"]
    up = W % V != 0
    P = pattern(s, rng)
    R, Wf = (Hi, V) if up else (Ho, W)
    calls = []

    def fake(*a, **kw):
        calls.append(1)
        idx = torch.tensor([[0] * len(P), [e[0] for e in P], [e[1] * Wf + e[2] for e in P]], dtype=torch.int64).reshape(3, len(P))
        return idx, torch.ones(len(P), dtype=torch.float64), torch.tensor([sum(1 for e in P if e[0] < t) for t in range(R + 1)], dtype=torch.int64)

    keep = A._precompute_convolution_tensor_s2
    A._precompute_convolution_tensor_s2 = fake
    C = max(nh * dk, nh * dv)
    dt = DT[s["dt"]]
    try:
        m = th.NeighborhoodAttentionS2(C, (Hi, W), (Ho, V), num_heads=nh, scale=math.log(2.0), bias=False, grid_in="legendre-gauss", grid_out="legendre-gauss", k_channels=nh * dk, out_channels=nh * dv, theta_cutoff=0.1, optimized_kernel=s["opt"])
    finally:
        A._precompute_convolution_tensor_s2 = keep
    if not calls or list(getattr(m, "quad_weights", torch.zeros(0)).shape) != [Hi]:
        return []
    m = m.to(dt)
    w = [rng.randint(1, 3) for _ in range(Hi)]
    with torch.no_grad():
        m.quad_weights.copy_(torch.tensor(w).to(m.quad_weights.dtype) * s["wmul"])
        eye = lambda n: torch.eye(n, C, dtype=dt).reshape(n, C, 1, 1)
        m.q_weights.copy_(eye(nh * dk))
        m.k_weights.copy_(eye(nh * dk))
        m.v_weights.copy_(eye(nh * dv))
        m.proj_weights.copy_(torch.eye(nh * dv, dtype=dt).reshape(nh * dv, nh * dv, 1, 1))
    g = torch.Generator().manual_seed(scn_seed(s))
    ri = lambda a, *sh: torch.randint(-a, a + 1, sh, generator=g).to(dt)
    q, k, v, gy = ri(1, B, nh * dk, Ho, V), ri(1, B, nh * dk, Hi, W), ri(4, B, nh * dv, Hi, W), ri(3, B, nh * dv, Ho, V)
    for hd in range(nh):  # last channel of each head: a common shift of the logits
        q[:, hd * dk + dk - 1] = s["shift"]
        k[:, hd * dk + dk - 1] = 1
    pad = lambda t: torch.cat([t, ri(3, B, C - t.shape[1], *t.shape[2:])], 1)
    ts = [memlay(pad(t), mm) for t, mm in ((q, s["mem"]), (k, s["gmem"]), (v, s["mem"]))]
    for t, f in zip(ts, s["rg"]):
        t.requires_grad_(bool(f))
    kx = [t.detach().clone() for t in ts]
    if any(s["rg"]):
        m.requires_grad_(False)  # only the chosen inputs need gradients
    y = m(*ts)
    D = 4
    fx = lambda t, c=1.0: [int(x) if abs(x) < 2e9 else 2 * 10**9 for x in torch.nan_to_num(torch.floor(t.detach().double() * (10**D) / c + 0.5), nan=2e9, posinf=2e9, neginf=-2e9).reshape(-1).tolist()]
    rec = dict(op="exact", P=[list(e) for e in P], B=B, nh=nh, dk=dk, dv=dv, Hi=Hi, Ho=Ho, W=W, V=V, w=w, d=D, q=ints(q), k=ints(k), v=ints(v), gy=ints(gy), y=fx(y), dq=[], dkk=[], dvv=[], rest=0, tol=2 + 2 * abs(s["shift"]),
               shok=list(y.shape) == [B, nh * dv, Ho, V])
    if rec["shok"] and any(s["rg"]):
        gr = list(torch.autograd.grad(y, [t for t in ts if t.requires_grad], memlay(gy, s["gmem"])))
        for i, (nm, n, c) in enumerate((("dq", nh * dk, math.log(2.0)), ("dkk", nh * dk, math.log(2.0)), ("dvv", nh * dv, 1.0))):
            if s["rg"][i]:
                gi = gr.pop(0)
                rec[nm] = fx(gi[:, :n], c)
                rec["rest"] += int((gi[:, n:] != 0).sum())
    rec["inok"] = all(torch.equal(a.detach(), b) for a, b in zip(ts, kx))
    return rec


def mask_of(s, cutoff):
    Hi, Ho, W, V = s["Hi"], s["Ho"], s["W"], s["V"]
    ti, wi = refs.colat(s["gi"], Hi)
    to, _ = refs.colat(s["go"], Ho)
    up = W % V != 0
    Wf = V if up else W
    R = 1.001 * cutoff
    mask = np.zeros((Ho, V, Hi, W), dtype=bool)
    amb = False
    for o in range(Ho):
        d, _ = geometry(to[o], ti, Wf)
        amb = amb or bool((np.abs(d - R) < 1e-7).any())
        ins = d <= R
        for j in range(V):
            for i in range(W):
                mask[o, j, :, i] = ins[:, (i * (Wf // W) - j * (Wf // V)) % Wf]
    return mask.reshape(Ho * V, Hi * W), np.repeat(2 * math.pi * wi / W, W), amb


def layer(s):
    Hi, Ho, W, V, nh = s["Hi"], s["Ho"], s["W"], s["V"], s["nh"]
    up = W % V != 0
    nc = (Hi if up else Ho) - 1
    if nc < 1:
        return []
    cutoff = s["cut"] / 100 * math.pi / nc if s["cut"] else math.pi / nc
    mask, w, amb = mask_of(s, cutoff)
    if amb or not mask.any(1).all() or (w <= 0).any():
        return []
    scale = None
    kc = nh * s["dk"] if s["dk"] else s["C"]
    if kc % nh or (s["dv"] == 0 and s["C"] % nh):
        return []
    sv = 1 / math.sqrt(kc // nh)
    if s["scale"] == "float":
        scale = sv = 0.7
    elif s["scale"] == "tensor":
        sv = 0.6
        scale = torch.tensor(0.6)
    m = th.NeighborhoodAttentionS2(s["C"], (Hi, W), (Ho, V), grid_in=s["gi"], grid_out=s["go"], num_heads=nh, scale=scale, use_qknorm=s["qkn"], bias=s["bias"], theta_cutoff=cutoff if s["cut"] else None, k_channels=kc if s["dk"] else None, out_channels=nh * s["dv"] if s["dv"] else None, optimized_kernel=s["opt"])
    s = dict(s, scale_val=float(torch.tensor(sv, dtype=torch.float32)) if s["scale"] == "tensor" else sv, kernel32=True)
    return attn.compare(s, m, None, torch.from_numpy(mask), torch.from_numpy(np.log(w)), ((Ho, V), (Hi, W)))


def replay(s):
    return exact(s) if s["op"] == "exact" else layer(s)
