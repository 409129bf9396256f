import torch
from .common import *
from .dist import *
import simdist, ringkernels
import torch_harmonics as th
import torch_harmonics.distributed as thd
from torch_harmonics.quadrature import precompute_latitudes

ringkernels.install()


def halo(s, cut):
    """rows by which the neighbourhoods of a shard's output rows reach beyond its input rows"""
    ti, to = precompute_latitudes(s["hin"], grid=s["gin"])[0], precompute_latitudes(s["hout"], grid=s["gout"])[0]
    si, so = split_sizes(s["hin"], s["np"]), split_sizes(s["hout"], s["np"])
    r, a, b = 0, 0, 0
    for p in range(s["np"]):
        for ho in range(b, b + so[p]):
            for hi in range(s["hin"]):
                if abs(float(ti[hi]) - float(to[ho])) <= cut * (1 + 1e-9):
                    r = max(r, a - hi, hi - (a + si[p] - 1))
        a, b = a + si[p], b + so[p]
    return r, min(si)


def replay(s):
    np_, na = s["np"], s["na"]
    base = s["hin"] if s["dir"] == "up" else s["hout"]
    cut = s["cut"] / 100.0 * math.pi / (base - 1)
    if np_ > 1:
        r, mn = halo(s, cut)
        if r > mn:
            return []
    kw = dict(in_channels=s["ci"], in_shape=(s["hin"], s["win"]), out_shape=(s["hout"], s["wout"]), grid_in=s["gin"], grid_out=s["gout"], num_heads=s["nh"], use_qknorm=s["qkn"], bias=s["bias"],
              theta_cutoff=cut, k_channels=s["ck"] * s["nh"], out_channels=s["co"] * s["nh"])
    torch.manual_seed(scn_seed(s))
    ser = th.NeighborhoodAttentionS2(**kw)
    with torch.no_grad():
        for p in ser.parameters():
            p.copy_(torch.randn_like(p) * 0.7)
    q = torch.randn(s["B"], s["ci"], s["hout"], s["wout"]) + s["mag"]
    k = torch.randn(s["B"], s["ci"], s["hin"], s["win"])
    v = torch.randn(s["B"], s["ci"], s["hin"], s["win"])
    self_attn = s["selfa"] and s["dir"] == "same"
    ins = [q.clone().requires_grad_(s["rq"])] if self_attn else [t.clone().requires_grad_(g) for t, g in ((q, s["rq"]), (k, s["rk"]), (v, s["rv"]))]
    y = ser(*ins)
    if not torch.isfinite(y).all():
        return []
    go = torch.randn_like(y)
    if s["frozen"] and not any(t.requires_grad for t in ins):
        ins[0].requires_grad_(True)
        y = ser(*ins)
    if s["frozen"]:  # parameters without gradients: only some of queries, keys and values need one inside the ring
        ser.requires_grad_(False)
        y = ser(*ins)
    params = [] if s["frozen"] else list(ser.named_parameters())
    leaves = [t for t in ins if t.requires_grad] + [p for _, p in params]
    gs = torch.autograd.grad(y, leaves, go)
    nin = len([t for t in ins if t.requires_grad])
    lay = ["n", "n", "p", "a"]
    thd.config.debug = s["debug"]
    ringkernels.CALLS.clear()

    def f(r, p, a):
        m = thd.DistributedNeighborhoodAttentionS2(**kw)
        m.load_state_dict(ser.state_dict())
        m.requires_grad_(not s["frozen"])
        li = [memlay(shard(t.detach(), lay, np_, na, p, a), s["mem"]).requires_grad_(t.requires_grad) for t in ins]
        keep = [t.detach().clone() for t in li]
        yl = m(*li)
        pd = dict(m.named_parameters())
        gl = torch.autograd.grad(yl, [t for t in li if t.requires_grad] + [pd[n] for n, _ in params], memlay(shard(go, lay, np_, na, p, a), s["gmem"]))
        return yl, gl, all(torch.equal(t.detach(), u) for t, u in zip(li, keep))

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s), policy=s["pol"])
    vals = check_res(res)
    items = [item("out", y, lay, np_, na, [v[0] for v in vals])]
    # rounding of a nearly cancelling gradient is relative to the size of what cancels
    gi = max([float(g.abs().max()) for g in gs[:nin]] + [0.0])
    gp = max([float(g.abs().max()) for g in gs[nin:]] + [0.0])
    for i in range(nin):
        items.append(item(f"gradin{i}", gs[i], lay, np_, na, [v[1][i] for v in vals], scale=max(float(gs[i].abs().max()), 0.05 * max(gi, gp))))
    for j, (n, _) in enumerate(params):
        tot = sum(v[1][nin + j] for v in vals)
        if n == "k_bias":
            continue  # exactly zero by shift invariance; rounding only
        items.append(item("grad_" + n, gs[nin + j], ["n"] * tot.dim(), np_, na, [tot] * (np_ * na), scale=max(float(gs[nin + j].abs().max()), 0.05 * max(gi, gp))))
    # ring observations: identify the chunk actually held by its content (first call of every rank holds its own)
    ring = []
    own = {}
    for (r, op, lo, wd, kx, vx) in ringkernels.CALLS:
        own.setdefault((r, op), (kx, vx))
    for (r, op, lo, wd, kx, vx) in ringkernels.CALLS:
        p = r // na
        held = [q % na for (q, o), (k0, v0) in own.items() if o == op and q // na == p and k0.shape == kx.shape and torch.equal(k0, kx) and torch.equal(v0, vx)]
        ring.append(dict(r=r, op=op, lo=lo, wd=wd, held=held[0] + 1 if held else 0))
    return dict(np=np_, na=na, dt="f32", nlon=s["win"], ring=ring, items=items, faults=faults(w), scale=int(y.abs().max() > 0), extra=[] if all(v[2] for v in vals) else ["input modified"])
