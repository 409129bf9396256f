import torch, math, numpy as np, warnings
from .common import *
import vlib
from . import refs
import torch_harmonics as th

warnings.simplefilter("ignore")


def ops(grid, H, W, L):
    """analysis and synthesis matrices: coef[l,m] = A[l,m,h,w] f ; f = Re-linear S acting on re and im parts"""
    t, w = refs.colat(grid, H)
    P = refs.plm(L, t)[0]
    F = refs.dft_forward(W, L)
    A = 2 * math.pi * np.einsum("lmk,k,mj->lmkj", P, w, F)
    j = np.arange(W)
    Sr, Si = np.zeros((L, L, H, W)), np.zeros((L, L, H, W))
    for m in range(min(L, W // 2 + 1)):
        e = np.exp(2j * math.pi * ((m * j) % W) / W)
        c = 1.0 if m == 0 or 2 * m == W else 2.0
        Sr[:, m] = c * P[:, m, :, None] * e.real
        if c == 2.0:
            Si[:, m] = -c * P[:, m, :, None] * e.imag
    q = np.repeat((w * 2 * math.pi / W)[:, None], W, 1)
    T = torch.from_numpy
    return T(A), T(Sr), T(Si), T(q)


def define(x, K, b, oi, oo, G):
    A, q = oi[0], oi[3]
    u = torch.einsum("lmkj,bckj->bclm", A, x.to(A.dtype))
    if b is not None:
        I = torch.einsum("kj,bckj->bc", q, x)
        u = u + I[..., None, None] * b
    B, C, L, _ = u.shape
    v = torch.einsum("bgilm,giol->bgolm", u.reshape(B, G, C // G, L, L), K).reshape(B, -1, L, L)
    return torch.einsum("bolm,lmkj->bokj", v.real, oo[1]) + torch.einsum("bolm,lmkj->bokj", v.imag, oo[2])


def cp(z):
    return [[int(a), int(b)] for a, b in zip(np.rint(z.real).reshape(-1).tolist(), np.rint(z.imag).reshape(-1).tolist())]


EPS = dict(f32=1.2e-7, f64=1.2e-7, f16=1e-3, bf16=8e-3, ac=1.2e-7)


def replay(s):
    Hi, Ho, W, V, G = s["Hi"], s["Ho"], s["W"], s["V"], s["G"]
    C, O = G * s["ci"], G * s["co"]
    dt = torch.float32 if s["dt"] == "ac" else DT[s["dt"]]
    m = th.SpectralConvS2((Hi, W), (Ho, V), C, O, num_groups=G, grid_in=s["gi"], grid_out=s["go"], bias=s["bias"])
    L = int(m.lmax)
    base = dict(L=L if m.lmax == m.mmax else -1, Hi=Hi, Ho=Ho, W=W, V=V, gi=s["gi"], go=s["go"], G=G, C=C, O=O)
    par = dict(m.named_parameters())
    K = [p for n, p in par.items() if p.dim() == 4 and p.shape[0] == G and p.shape[-1] == L and p is not par.get("spectral_bias")]
    if L != s["L"]:
        return dict(base, op="res", shok=True, dtok=True, inok=True, ry=0, rg=[], fin=True, gok=True)
    g = torch.Generator().manual_seed(scn_seed(s))
    ri = lambda a, *sh: torch.randint(-a, a + 1, sh, generator=g).double()
    B = s["B"]
    oi, oo = ops(s["gi"], Hi, W, L), ops(s["go"], Ho, V, L)
    w, bp = par["weight"], par.get("spectral_bias")
    recs = []
    run = lambda x: m(x)
    if s["dt"] == "ac":
        def run(x):
            with torch.autocast("cpu", dtype=torch.bfloat16):
                return m(x)
    if s["coef"] and dt in (torch.float32, torch.float64):
        n = ri(2, C)
        u = torch.complex(ri(3, C, L, L), ri(3, C, L, L)) * torch.tril(torch.ones(L, L))
        u[..., 0] = u[..., 0].real + 0j
        if W % 2 == 0 and W // 2 < L:
            u[..., W // 2] = u[..., W // 2].real + 0j
        u[:, 0, 0] = (n / math.sqrt(4 * math.pi)).to(u.dtype)
        k = torch.complex(ri(2, *w.shape), ri(2, *w.shape))
        b = torch.complex(ri(1, C, L, L), ri(1, C, L, L)) if bp is not None else torch.zeros(C, L, L, dtype=torch.complex128)
        with torch.no_grad():
            w.copy_(k.to(w.dtype))
            if bp is not None:
                bp.copy_(b.to(bp.dtype).reshape(bp.shape))
        x = (torch.einsum("clm,lmkj->ckj", u.real, oi[1]) + torch.einsum("clm,lmkj->ckj", u.imag, oi[2])).to(dt).unsqueeze(0)
        x = torch.cat([ri(3, B - 1, C, Hi, W).to(dt), x]) if B > 1 else x
        xl = memlay(x, s["mem"])
        y = run(xl)
        shok = list(y.shape) == [B, O, Ho, V]
        rec = dict(base, op="coef", shok=shok, dtok=y.dtype == dt, inok=torch.equal(xl, x), n=[int(v) for v in n], u=cp(u.numpy() * 1000), b=cp(b.numpy()), kk=cp(k.numpy()), y=[], tol=20 + 6 * s["ci"] + 2 * L, out=0)
        if shok:
            yy = y[-1].detach().double()
            # coefficients of the output field by least squares on the reference harmonics
            msk = [(l, mm) for l in range(L) for mm in range(l + 1) if mm <= V // 2]
            cols = [oo[1][l, mm].reshape(-1) for l, mm in msk] + [oo[2][l, mm].reshape(-1) for l, mm in msk if mm > 0 and 2 * mm != V]
            M = torch.stack(cols, 1)
            sol = torch.linalg.lstsq(M, yy.reshape(O, -1).T, driver="gelsd").solution
            res = (M @ sol - yy.reshape(O, -1).T).abs().max().item()
            rec["out"] = vlib.res_int(res, 2e-6 * (1 + yy.abs().max().item()))
            z = np.zeros((O, L, L), dtype=complex)
            for i, (l, mm) in enumerate(msk):
                z[:, l, mm] += sol[i].numpy()
            for i, (l, mm) in enumerate([t for t in msk if t[1] > 0 and 2 * t[1] != V]):
                z[:, l, mm] += 1j * sol[len(msk) + i].numpy()
            z = np.nan_to_num(z, nan=1e5, posinf=1e5, neginf=1e5)
            rec["y"] = cp(z * 1000)
        recs.append(rec)
    # arbitrary fields
    rn = lambda *sh: torch.randn(*sh, generator=g, dtype=torch.float64)
    with torch.no_grad():
        w.copy_(torch.complex(rn(*w.shape), rn(*w.shape)).to(w.dtype))
        if bp is not None:
            bp.copy_(torch.complex(rn(*bp.shape), rn(*bp.shape)).to(bp.dtype))
    x = (rn(B, C, Hi, W) * s["amp"]).to(dt)
    xl = memlay(x, s["mem"]).requires_grad_(s["rg"] != "w")
    w.requires_grad_(s["rg"] != "x")
    y = run(xl)
    shok = list(y.shape) == [B, O, Ho, V]
    rec = dict(base, op="res", shok=shok, dtok=y.dtype == dt, inok=torch.equal(xl.detach(), x), ry=0, rg=[], fin=False, gok=True)
    if shok:
        x64 = x.double().requires_grad_(True)
        k64 = w.detach().to(torch.complex128).requires_grad_(True)
        b64 = bp.detach().to(torch.complex128).requires_grad_(True) if bp is not None else None
        yr = define(x64, k64, b64, oi, oo, G)
        eps = EPS[s["dt"]]
        rec["ry"] = vlib.res_int((y.double() - yr).abs().max().item() / (yr.abs().max().item() + 1e-30), eps * 4)
        gy = rn(*y.shape).to(dt)
        ps = ([xl] if s["rg"] != "w" else []) + ([w] if s["rg"] != "x" else []) + ([bp] if bp is not None else [])
        rs = ([x64] if s["rg"] != "w" else []) + ([k64] if s["rg"] != "x" else []) + ([b64] if bp is not None else [])
        gr = torch.autograd.grad(y, ps, memlay(gy, s["gmem"]), allow_unused=True)
        gf = torch.autograd.grad(yr, rs, gy.double())
        rec["gok"] = all(a is not None and a.shape == p.shape and a.dtype == p.dtype for a, p in zip(gr, ps))
        rec["fin"] = bool(torch.isfinite(y).all()) and all(bool(torch.isfinite(torch.view_as_real(a) if a.is_complex() else a).all()) for a in gr if a is not None)
        for a, b in zip(gr, gf):
            if a is not None:
                b = b.reshape(a.shape)
                rec["rg"].append(vlib.res_int((a.to(b.dtype) - b).abs().max().item() / (b.abs().max().item() + 1e-30), eps * 4))
    recs.append(rec)
    return recs
