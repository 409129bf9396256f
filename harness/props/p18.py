import torch, random, math, numpy as np
from .common import *
from . import refs, attn
import torch_harmonics as th


def exact(s):
    """integer data, logits in multiples of ln 2, integer weights: judged as rationals"""
    if abs(s["shift"]) > 20:
        s = dict(s, rg=[0, 0, 0])  # gradients through large common logits are judged in the layer part
    rng = random.Random(scn_seed(s))
    Hi, Ho, W, V, nh, B = s["Hi"], s["Ho"], s["W"], s["V"], s["nh"], s["B"]
    dk, dv = s["dk"] + 1, s["dv"]
    C = max(nh * dk, nh * dv)
    dt = DT[s["dt"]]
    m = th.AttentionS2(C, nh, (Hi, W), (Ho, V), grid_in="legendre-gauss", grid_out="legendre-gauss", scale=math.log(2.0), bias=False, k_channels=nh * dk, out_channels=nh * dv, drop_rate=s["drop"])
    if s["drop"]:
        m.eval()
    m = m.to(dt)
    buf = getattr(m, "log_quad_weights", None)
    if buf is None or buf.numel() != Hi * W:
        return []
    w = [rng.randint(1, 3) for _ in range(Hi)]
    with torch.no_grad():
        lw = torch.log(torch.tensor(w, dtype=torch.float64) * s["wmul"]).repeat_interleave(W)
        buf.copy_(lw.reshape(buf.shape).to(buf.dtype))
        eye = lambda n: torch.eye(n, C, dtype=dt).reshape(n, C, 1, 1)
        m.q_weights.copy_(eye(nh * dk))
        m.k_weights.copy_(eye(nh * dk))
        m.v_weights.copy_(eye(nh * dv))
        m.proj_weights.copy_(torch.eye(nh * dv, dtype=dt).reshape(nh * dv, nh * dv, 1, 1))
    g = torch.Generator().manual_seed(scn_seed(s))
    ri = lambda a, *sh: torch.randint(-a, a + 1, sh, generator=g).to(dt)
    q, k, v, gy = ri(1, B, nh * dk, Ho, V), ri(1, B, nh * dk, Hi, W), ri(4, B, nh * dv, Hi, W), ri(3, B, nh * dv, Ho, V)
    for hd in range(nh):
        q[:, hd * dk + dk - 1] = s["shift"]
        k[:, hd * dk + dk - 1] = 1
    pad = lambda t: torch.cat([t, ri(3, B, C - t.shape[1], *t.shape[2:])], 1)
    ts = [memlay(pad(t), mm) for t, mm in ((q, s["mem"]), (k, s["gmem"]), (v, s["mem"]))]
    for t, f in zip(ts, s["rg"]):
        t.requires_grad_(bool(f))
    kx = [t.detach().clone() for t in ts]
    if any(s["rg"]):
        m.requires_grad_(False)  # only the chosen inputs need gradients
    y = m(*ts)
    D = 4
    fx = lambda t, c=1.0: [int(x) if abs(x) < 2e9 else 2 * 10**9 for x in torch.nan_to_num(torch.floor(t.detach().double() * (10**D) / c + 0.5), nan=2e9, posinf=2e9, neginf=-2e9).reshape(-1).tolist()]
    rec = dict(op="exact", P=[[o, h, x] for o in range(Ho) for h in range(Hi) for x in range(W)], B=B, nh=nh, dk=dk, dv=dv, Hi=Hi, Ho=Ho, W=W, V=V, w=w, d=D, q=ints(q), k=ints(k), v=ints(v), gy=ints(gy), y=fx(y), dq=[], dkk=[], dvv=[], rest=0, tol=2 + 2 * abs(s["shift"]),
               shok=list(y.shape) == [B, nh * dv, Ho, V])
    if rec["shok"] and any(s["rg"]):
        gr = list(torch.autograd.grad(y, [t for t in ts if t.requires_grad], memlay(gy, s["gmem"])))
        for i, (nm, n, c) in enumerate((("dq", nh * dk, math.log(2.0)), ("dkk", nh * dk, math.log(2.0)), ("dvv", nh * dv, 1.0))):
            if s["rg"][i]:
                gi = gr.pop(0)
                rec[nm] = fx(gi[:, :n], c)
                rec["rest"] += int((gi[:, n:] != 0).sum())
    rec["inok"] = all(torch.equal(a.detach(), b) for a, b in zip(ts, kx))
    return rec


def layer(s):
    Hi, Ho, W, V, nh = s["Hi"], s["Ho"], s["W"], s["V"], s["nh"]
    _, wi = refs.colat(s["gi"], Hi)
    if (wi <= 0).any():
        return []
    kc = nh * s["dk"] if s["dk"] else s["C"]
    scale, sv = None, 1 / math.sqrt(kc // nh)
    if s["scale"] == "float":
        scale = sv = 0.7
    elif s["scale"] == "tensor":
        sv, scale = 0.6, torch.tensor(0.6)
    m = th.AttentionS2(s["C"], nh, (Hi, W), (Ho, V), grid_in=s["gi"], grid_out=s["go"], scale=scale, use_qknorm=s["qkn"], bias=s["bias"], k_channels=kc if s["dk"] else None, out_channels=nh * s["dv"] if s["dv"] else None, drop_rate=s["drop"])
    if s["drop"]:
        m.eval()
    if torch.is_tensor(scale):
        m.scale = m.scale.to(torch.float32 if s["dt"] == "ac" else DT[s["dt"]])
        sv = float(m.scale.double())
    logw = torch.from_numpy(np.log(np.repeat(2 * math.pi * wi / W, W)))
    return attn.compare(dict(s, scale_val=sv, kernel32=True), m, None, torch.ones(Ho * V, Hi * W, dtype=torch.bool), logw, ((Ho, V), (Hi, W)))


def replay(s):
    return exact(s) if s["op"] == "exact" else layer(s)
