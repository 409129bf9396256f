"""CPU stand-ins for the CUDA-only ring-step kernels, written from the operator contract in
attention/optimized/attention_interface.cpp (and nothing else).  They let the distributed attention layer run
on the simulated process grid; every call is recorded so the trace specification can judge which chunk was
processed under which longitude offset."""
import torch

CALLS = []  # (rank, op, lon_lo_kx, width, kx, vx)
_installed = False


def _rec(op, kx, vx, lon_lo):
    import simdist

    CALLS.append((simdist.current_rank(), op, int(lon_lo), int(kx.shape[2]), kx.detach().clone(), vx.detach().clone()))


def _entries_gather(col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx):
    """all (ho, wo, hi_global, hi_local, w_local) contributions present in this chunk"""
    Hh, Wk = kx.shape[1], kx.shape[2]
    ho_l, hi_l = [], []
    cnt = roff[1:] - roff[:-1]
    rows = ridx.long()[:nlat_out]
    for ho in rows.tolist():
        b, e = int(roff[ho]), int(roff[ho + 1])
        c = col[b:e]
        ho_l.append(torch.full((e - b,), ho, dtype=torch.int64))
        hi_l.append(c)
    ho = torch.cat(ho_l)
    c = torch.cat(hi_l)
    hig, wi = c // nlon_in, c % nlon_in
    wo = torch.arange(nlon_out)
    wip = (wi[:, None] + pscale * wo[None, :]) % nlon_in
    HO, WO, HG = ho[:, None].expand_as(wip), wo[None, :].expand_as(wip), hig[:, None].expand_as(wip)
    HL = HG - lat0
    m = (wip >= lon_lo) & (wip < lon_lo + Wk) & (HL >= 0) & (HL < Hh)
    return HO[m], WO[m], HG[m], HL[m], wip[m] - lon_lo


def _entries_scatter(col, roff, nlon_out_g, pscale_out, lon_lo, lat0, nlat_out, nlon_out, kx):
    Hh, Wk = kx.shape[1], kx.shape[2]
    n = roff[1:] - roff[:-1]
    hl = torch.repeat_interleave(torch.arange(Hh), n)
    c = col[: int(roff[-1])]
    ho, wos = c // nlon_out_g, c % nlon_out_g
    wi = torch.arange(Wk)
    w = (wos[:, None] + pscale_out * (lon_lo + wi[None, :])) % nlon_out_g
    HO, HL, WI = ho[:, None].expand_as(w), hl[:, None].expand_as(w), wi[None, :].expand_as(w)
    m = w < nlon_out
    return HO[m], w[m], HL[m] + lat0, HL[m], WI[m]


def _online(E, kx, vx, qy, asum, qmax, quad, nlon_out, accs, terms):
    """one online-softmax step over entries E; accs are rescaled and receive the sums of alpha*terms"""
    HO, WO, HG, HL, WL = E
    B = kx.shape[0]
    o = HO * nlon_out + WO
    N = asum.shape[1] * asum.shape[2]
    k = kx[:, HL, WL].float()
    q = qy[:, HO, WO].float()
    L = (k * q).sum(-1)
    am, mm = asum.view(B, N), qmax.view(B, N)
    new = mm.clone().scatter_reduce_(1, o[None].expand(B, -1), L, "amax", include_self=True)
    resc = torch.where(torch.isinf(new), torch.ones_like(new), torch.exp(mm - new))
    alpha = torch.exp(L - new.gather(1, o[None].expand(B, -1))) * quad.reshape(-1).float()[HG][None]
    am.mul_(resc).index_add_(1, o, alpha)
    for a, t in zip(accs, terms):
        av = a.view(B, N, -1)
        av.mul_(resc[..., None])
        tt = t if t.dim() == 3 else t[..., None]
        av.index_add_(1, o, alpha[..., None] * tt)
    mm.copy_(new)


def fwd_step(kx, vx, qy, y_acc, asum, qmax, quad, col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, *_):
    _rec("fwd", kx, vx, lon_lo)
    E = _entries_gather(col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx)
    _online(E, kx, vx, qy, asum, qmax, quad, nlon_out, [y_acc], [vx[:, E[3], E[4]].float()])


def bwd1(kx, vx, qy, dy, asum, qmax, integ, ak, akvw, quad, col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, *_):
    _rec("bwd1", kx, vx, lon_lo)
    E = _entries_gather(col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx)
    k = kx[:, E[3], E[4]].float()
    g = (vx[:, E[3], E[4]].float() * dy[:, E[0], E[1]].float()).sum(-1)
    _online(E, kx, vx, qy, asum, qmax, quad, nlon_out, [integ, ak, akvw], [g, k, g[..., None] * k])


def _pass2(E, kx, vx, qy, dy, asum, qmax, integn, dkx, dvx, quad):
    HO, WO, HG, HL, WL = E
    B, Hh, Wk, _ = kx.shape
    k, v, q, d = kx[:, HL, WL].float(), vx[:, HL, WL].float(), qy[:, HO, WO].float(), dy[:, HO, WO].float()
    L = (k * q).sum(-1)
    al = torch.exp(L - qmax[:, HO, WO]) * quad.reshape(-1).float()[HG][None] / asum[:, HO, WO]
    g = (v * d).sum(-1)
    i = HL * Wk + WL
    dkx.view(B, Hh * Wk, -1).index_add_(1, i, (al * (g - integn[:, HO, WO]))[..., None] * q)
    dvx.view(B, Hh * Wk, -1).index_add_(1, i, al[..., None] * d)


def bwd2(kx, vx, qy, dy, asum, qmax, integn, dkx, dvx, quad, col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, *_):
    _rec("bwd2", kx, vx, lon_lo)
    _pass2(_entries_gather(col, roff, ridx, nlon_in, pscale, lon_lo, lat0, nlat_out, nlon_out, kx), kx, vx, qy, dy, asum, qmax, integn, dkx, dvx, quad)


def ufwd(kx, vx, qy, y_acc, asum, qmax, quad, col, roff, nlon_in, nog, ps, lon_lo, lat0, nlat_out, nlon_out):
    _rec("fwd", kx, vx, lon_lo)
    E = _entries_scatter(col, roff, nog, ps, lon_lo, lat0, nlat_out, nlon_out, kx)
    _online(E, kx, vx, qy, asum, qmax, quad, nlon_out, [y_acc], [vx[:, E[3], E[4]].float()])


def ubwd1(kx, vx, qy, dy, qmax, integ, ak, akvw, quad, col, roff, nlon_in, nog, ps, lon_lo, lat0, nlat_out, nlon_out):
    _rec("bwd1", kx, vx, lon_lo)
    E = _entries_scatter(col, roff, nog, ps, lon_lo, lat0, nlat_out, nlon_out, kx)
    HO, WO, HG, HL, WL = E
    B = kx.shape[0]
    o = HO * nlon_out + WO
    k, v, q, d = kx[:, HL, WL].float(), vx[:, HL, WL].float(), qy[:, HO, WO].float(), dy[:, HO, WO].float()
    al = torch.exp((k * q).sum(-1) - qmax[:, HO, WO]) * quad.reshape(-1).float()[HG][None]
    g = (v * d).sum(-1)
    N = nlat_out * nlon_out
    for a, t in ((integ, g[..., None]), (ak, k), (akvw, g[..., None] * k)):
        a.view(B, N, -1).index_add_(1, o, al[..., None] * t)


def ubwd2(kx, vx, qy, dy, asum, qmax, integn, dkx, dvx, quad, col, roff, nlon_in, nog, ps, lon_lo, lat0, nlat_out, nlon_out):
    _rec("bwd2", kx, vx, lon_lo)
    _pass2(_entries_scatter(col, roff, nog, ps, lon_lo, lat0, nlat_out, nlon_out, kx), kx, vx, qy, dy, asum, qmax, integn, dkx, dvx, quad)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    for name, fn in (("forward_ring_step", fwd_step), ("backward_ring_step_pass1", bwd1), ("backward_ring_step_pass2", bwd2),
                     ("forward_ring_step_upsample", ufwd), ("backward_ring_step_upsample_pass1", ubwd1), ("backward_ring_step_upsample_pass2", ubwd2)):
        _reg(name, fn)
    _reg("split_csr_rows", split_csr_rows)


def split_csr_rows(row_idx, row_off, nlat_out):
    """launch-shape hints only: rows are sorted by decreasing length"""
    n = (row_off[1:] - row_off[:-1])[row_idx.long()]
    return 0, int(n.max()) if n.numel() else 0, int(n[n.numel() // 2]) if n.numel() else 0


def _reg(name, fn):
    if not torch._C._dispatch_has_kernel_for_dispatch_key("attention_kernels::" + name, "CPU"):
        torch.library.impl("attention_kernels::" + name, "cpu", fn)
