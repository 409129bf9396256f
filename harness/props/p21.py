import torch, math, numpy as np, warnings, copy, zlib
from .common import *
import vlib
from . import refs
from .p20 import ops
from torch_harmonics.random_fields import GaussianRandomFieldS2

warnings.simplefilter("ignore")


def hid(t):
    t = t.detach().double().numpy()
    return (zlib.crc32(np.ascontiguousarray(t).tobytes()) >> 2) + 1


def lsq(y, oo, L, V):
    """coefficients (orthonormal synthesis) of fields y (N,H,V); residual"""
    msk = [(l, m) for l in range(L) for m in range(l + 1) if m <= V // 2]
    cols = [oo[1][l, m].reshape(-1) for l, m in msk] + [oo[2][l, m].reshape(-1) for l, m in msk if m > 0 and 2 * m != V]
    M = torch.stack(cols, 1)
    sol = torch.linalg.lstsq(M, y.reshape(y.shape[0], -1).T, driver="gelsd").solution
    res = (M @ sol - y.reshape(y.shape[0], -1).T).abs().max().item()
    z = np.zeros((y.shape[0], L, L), dtype=complex)
    for i, (l, m) in enumerate(msk):
        z[:, l, m] += sol[i].numpy()
    for i, (l, m) in enumerate([t for t in msk if t[1] > 0 and 2 * t[1] != V]):
        z[:, l, m] += 1j * sol[len(msk) + i].numpy()
    return z, res


def make(s, dt):
    kw = dict(alpha=2.0 * s["half"] if "half" in s else s["alpha"], tau=float(s["tau"]), radius=float(s["R"]), grid=s["grid"], dtype=dt)
    if s["sigma"]:
        kw["sigma"] = float(s["sigma"])
    m = GaussianRandomFieldS2(s["nlat"], **kw)
    return m.to(torch.device("cpu")) if s.get("moved") else m


def replay(s):
    dt = DT[s["dt"]]
    cdt = torch.complex128 if s["dt"] == "f64" else torch.complex64
    eps = 1.2e-16 if s["dt"] == "f64" else 6e-8
    m = make(s, dt)
    H, V = s["nlat"], 2 * s["nlat"]
    L = int(m.isht.lmax)
    g = torch.Generator().manual_seed(scn_seed(s))
    if s["op"] == "hist":
        xs = [torch.complex(torch.randn(n, L, L, generator=g), torch.randn(n, L, L, generator=g)).to(cdt) for n in (1, 2)]
        ref = [hid(make(s, dt)(x.shape[0], xi=x)) for x in xs]
        out = []
        shok = dtok = True
        keep = [x.clone() for x in xs]
        for a, n in s["h"]:
            o = 0
            if a == "seed":
                torch.manual_seed(n)
            elif a in ("sample", "given"):
                y = m(n) if a == "sample" else m(n, xi=xs[n - 1])
                shok = shok and list(y.shape) == [n, H, V]
                dtok = dtok and y.dtype == dt
                o = hid(y)
            elif a == "copy":
                m = copy.deepcopy(m)
            elif a == "to":
                m = m.to(torch.device("cpu"))
            out.append(o)
        return dict(op="hist", h=s["h"], out=out, ref=ref, shok=shok, dtok=dtok, inok=all(torch.equal(a, b) for a, b in zip(xs, keep)))
    oo = ops(s["grid"], H, V, L) if s["op"] != "res" else None
    rt4 = math.sqrt(4 * math.pi)  # the module synthesises with harmonics divided by sqrt(4 pi)
    if s["op"] == "stat":
        N = s["N"]
        torch.manual_seed(s["seed"])
        parts = []
        left = N
        while left:
            k = min(left, s["chunk"])
            parts.append(m(k))
            left -= k
        y = torch.cat(parts)
        z, _ = lsq(y.double(), oo, L, V)
        a = 2.0 * s["half"]
        sg = s["sigma"] or s["tau"] ** (a - 1)
        cols = []
        for l in range(1, L):
            r = sg * (l * (l + 1) / s["R"] ** 2 + s["tau"] ** 2) ** (-a / 2) / rt4
            for mm in range(l + 1):
                if mm <= V // 2:
                    cols.append(z[:, l, mm].real / r)
                    if mm > 0 and 2 * mm != V:
                        cols.append(z[:, l, mm].imag / r)
        X = np.stack(cols)
        cor = (X @ X.T) / N
        off = cor[~np.eye(len(cols), dtype=bool)]
        lag = (X[:, 1:] * X[:, :-1]).mean(1)
        i3 = lambda v: [int(round(float(t) * 1000)) for t in np.nan_to_num(v, nan=1e6)]
        return dict(op="stat", var=i3((X**2).mean(1)), mean=i3(X.mean(1)), cor=i3(off) + i3(lag), tolv=int(7000 * math.sqrt(2 / N)), tolm=int(7000 / math.sqrt(N)), shok=list(y.shape) == [N, H, V], dtok=y.dtype == dt, inok=True)
    if s["op"] == "map":
        xi = torch.complex(torch.randint(-9, 10, (2, L, L), generator=g).double(), torch.randint(-9, 10, (2, L, L), generator=g).double()).to(cdt)
        kx = xi.clone()
        y = m(2, xi=memlay(xi, s["mem"]))
        shok = list(y.shape) == [2, H, V]
        rec = dict(op="map", nlat=H, nlon=V, half=s["half"], tau=s["tau"], R=s["R"], sigma=s["sigma"], d=4, shok=shok, dtok=y.dtype == dt, inok=torch.equal(xi, kx), xi=[], lm=[], y=[], out=0)
        if shok:
            z, res = lsq(y.double(), oo, L, V)
            z = np.nan_to_num(z * rt4, nan=1e4, posinf=1e4, neginf=1e4)
            rec["out"] = vlib.res_int(res, (3e-6 if s["dt"] == "f32" else 1e-13) * (1 + y.abs().max().item()))
            for l in range(L):
                for mm in range(L):
                    if mm <= V // 2:
                        rec["lm"].append([l, mm])
                        v = xi[1, l, mm]
                        rec["xi"].append([int(v.real), int(v.imag)])
                        rec["y"].append([int(math.floor(z[1, l, mm].real * 1e4)), int(math.floor(z[1, l, mm].imag * 1e4))])
        return rec
    # arbitrary parameters and noise
    N = s["N"]
    xi = torch.complex(torch.randn(N, L, L, generator=g, dtype=torch.float64), torch.randn(N, L, L, generator=g, dtype=torch.float64)).to(cdt)
    if s.get("band"):  # only the upper degrees, so that their spectrum is not hidden behind the large scales
        xi[:, : int(L * s["band"] / 10)] = 0
    kx = xi.clone()
    y = m(N, xi=memlay(xi, s["mem"]))
    shok = list(y.shape) == [N, H, V]
    rec = dict(op="res", shok=shok, dtok=y.dtype == dt, inok=torch.equal(xi, kx), ry=0, mean=0, batch=0)
    if shok:
        sg = s["sigma"] or s["tau"] ** (s["alpha"] - 1)
        root = torch.tensor([0.0] + [sg * (l * (l + 1) / s["R"] ** 2 + s["tau"] ** 2) ** (-s["alpha"] / 2) for l in range(1, L)], dtype=torch.float64)
        c = xi.to(torch.complex128) * root[None, :, None] / rt4
        t, w = refs.colat(s["grid"], H)
        yr = torch.from_numpy(refs.synth_lon(np.einsum("nlm,lmk->nkm", c.numpy(), refs.plm(L, t)[0]), V))
        qw = torch.from_numpy(np.repeat((w * 2 * math.pi / V)[:, None], V, 1))
        sc = yr.abs().max().item() + 1e-30
        rec["ry"] = vlib.res_int((y.double() - yr).abs().max().item() / sc, eps * 8)
        rec["mean"] = vlib.res_int((y.double() * qw).sum((-1, -2)).abs().max().item() / sc, eps * 8) if L > 1 else 0
        one = m(1, xi=xi[-1:])
        rec["batch"] = vlib.res_int((one[0].double() - y[-1].double()).abs().max().item() / sc, eps * 8)
    return rec
