import torch, math, copy, warnings
from .common import *
from .p09 import halo
from .p23 import covered
import simdist, ringkernels
import vlib
import torch_harmonics as th
import torch_harmonics.distributed as thd

warnings.simplefilter("ignore")
NAME = {v: k for k, v in DT.items()}
CX = dict(f32=torch.complex64, f64=torch.complex128)
GR = ["equiangular", "legendre-gauss", "lobatto"]


def build(s, dist=False):
    c = s["c"]
    f = c["fam"]
    mod, P = (thd, "Distributed") if dist else (th, "")
    cls = lambda n: getattr(mod, P + n)
    I, O = tuple(s["I"]), tuple(s["O"])
    gi, go = GR[s["gi"]], GR[s["go"]]
    torch.manual_seed(s["seed"])
    C = s["C"]
    if f in ("conv", "convt"):
        return cls("DiscreteContinuousConvS2" if f == "conv" else "DiscreteContinuousConvTransposeS2")(C * s["G"], s["Co"] * s["G"], in_shape=I, out_shape=O, kernel_shape=tuple(s["ks"]), groups=s["G"], bias=c["bias"], grid_in=gi, grid_out=go, theta_cutoff=s["tc"], optimized_kernel=c["opt"])
    if f == "natt":
        return cls("NeighborhoodAttentionS2")(in_channels=C * s["G"], in_shape=I, out_shape=O, grid_in=gi, grid_out=go, num_heads=s["G"], bias=s["b2"], use_qknorm=s["qkn"], theta_cutoff=s["tc"], optimized_kernel=c["opt"] or dist)
    if f == "att":
        return th.AttentionS2(in_channels=C * s["G"], num_heads=s["G"], in_shape=I, out_shape=O, grid_in=gi, grid_out=go, bias=s["b2"])
    if f == "res":
        return cls("ResampleS2")(*I, *O, grid_in=gi, grid_out=go, mode=s["mode"])
    if f == "quad":
        return cls("QuadratureS2")(I, grid=gi, normalize=s["b2"])
    if f == "spc":
        return cls("SpectralConvS2")(in_shape=I, out_shape=O, in_channels=C * s["G"], out_channels=s["Co"] * s["G"], num_groups=s["G"], grid_in=gi, grid_out=go, bias=c["bias"])
    n = {"sht": "RealSHT", "vsht": "RealVectorSHT", "isht": "InverseRealSHT", "ivsht": "InverseRealVectorSHT"}[f]
    return cls(n)(*I, grid=gi)


def channels(s):
    return {"vsht": 2, "ivsht": 2, "sht": s["C"], "isht": s["C"], "res": s["C"], "quad": s["C"]}.get(s["c"]["fam"], s["C"] * s["G"])


def field(s, m, d, k):
    """the k-th field of the history, of type d"""
    g = torch.Generator().manual_seed(77 * s["seed"] + k)
    B, C = s["B"], channels(s)
    f = s["c"]["fam"]
    rn = lambda *sh: torch.randn(*sh, generator=g, dtype=torch.float64)
    if f in ("isht", "ivsht"):
        sh = (B, C, m.lmax, m.mmax)
        return [torch.complex(rn(*sh), rn(*sh)).to(CX[d])]
    x = (rn(B, C, *s["I"]) * (0.3 if f == "res" else 1)).to(DT[d])
    if f in ("natt", "att") and (s["cross"] or s["I"] != s["O"]):
        q = rn(B, C, *s["O"]).to(DT[d])
        return [q, x, rn(B, C, *s["I"]).to(DT[d])] if s["cross"] else [q, x, x]
    return [x]


def cot(y, k, s):
    g = torch.Generator().manual_seed(78 * s["seed"] + k)
    c = torch.randint(-2, 3, y.shape, generator=g).double()
    if y.is_complex():
        c = torch.complex(c, torch.randint(-2, 3, y.shape, generator=g).double())
    return c


def wide(t):
    return t.detach().to(torch.complex128 if t.is_complex() else torch.float64)


def run(m, xs, ct, stackless=True):
    """answer and gradients; the backward pass runs outside every region"""
    leaves, seen = [], {}
    for x in xs:
        if id(x) not in seen:
            seen[id(x)] = x.detach().clone().requires_grad_(True)
            leaves.append(seen[id(x)])
    ps = [p for p in m.parameters()]
    y = m(*[seen[id(x)] for x in xs])
    with torch.autocast("cpu", enabled=False):
        gr = torch.autograd.grad(y, leaves + ps, ct(y).to(y.dtype), allow_unused=True)
    gt = all(a is None or a.dtype == b.dtype for a, b in zip(gr, leaves + ps))
    return y.detach(), gr, gt


def err(a, b, sc=None):
    a, b = wide(a), wide(b)
    if a.shape != b.shape:
        return 2 * 10**9
    if a.numel() == 0:
        return 0
    e = (a - b).abs().max().item() / max(b.abs().max().item() if sc is None else sc, 1e-30)
    return 2 * 10**9 if not math.isfinite(e) else int(min(math.ceil(e * 2**24), 1900000000))


def rms(a, b, sc=None):
    a, b = wide(a), wide(b)
    if a.shape != b.shape:
        return 2 * 10**9
    if a.numel() == 0:
        return 0
    e = ((a - b).abs() ** 2).mean().sqrt().item() / max(((b.abs() ** 2).mean().sqrt().item()) if sc is None else sc, 1e-30)
    return 2 * 10**9 if not math.isfinite(e) else int(min(math.ceil(e * 2**24), 1900000000))


LINEAR = ("conv", "convt", "res", "quad", "sht", "isht", "vsht", "ivsht")


def survives(s, m, k):
    """a change of the field by 2^-30 of its size reaches the answer (affine layers, float64)"""
    with torch.no_grad(), torch.autocast("cpu", enabled=False):
        x, z = field(s, m, "f64", k)[0], field(s, m, "f64", k + 1000)[0]
        d = (wide(m(x + 2.0**-30 * z)) - wide(m(x))) * 2.0**30
        want = wide(m(z)) - wide(m(torch.zeros_like(z)))
        return bool((d - want).abs().max() <= 1e-3 * max(want.abs().max().item(), 1e-12)) if d.numel() else True


def tname(t):
    t = t.dtype
    return {torch.complex64: "f32", torch.complex128: "f64"}.get(t) or NAME[t]


def region():
    return "off" if not torch.is_autocast_enabled("cpu") else NAME[torch.get_autocast_dtype("cpu")]


def walk(s, m, call, fail):
    """the steps of the history; call(n, d, k) and fail() act on the layer"""
    obs, ac, stack, k = [], [], [], 0
    try:
        for n, (a, d) in enumerate(s["h"]):
            o = dict(t="none", e=0, g=0, q=0, gt=True, fine=True, same=True)
            if a == "enter":
                cm = torch.autocast("cpu", enabled=d != "off", dtype=DT[d] if d != "off" else torch.bfloat16)
                cm.__enter__()
                stack.append(cm)
            elif a == "exit":
                stack.pop().__exit__(None, None, None)
            elif a == "fail":
                fail()
            else:
                o = call(n, d, k)
                k += 1
            obs.append(o)
            ac.append(region())
    finally:
        while stack:
            stack.pop().__exit__(None, None, None)
    return obs, ac


def immune(s):
    return s["c"]["fam"] in ("res", "quad", "spc")


def ref(s, m32, d, k, mag=False):
    """float32 execution on the same numbers, outside every region (float64 for fields of that type where the layer has it)"""
    f = s["c"]["fam"]
    with torch.autocast("cpu", enabled=False):
        xs = field(s, m32, d, k)
        if mag:
            xs = [x.abs() for x in xs]
        new = {}
        for x in xs:
            new.setdefault(id(x), x.to(torch.complex64 if x.is_complex() else torch.float32))
        return run(m32, [new[id(x)] for x in xs], lambda y: cot(y, k, s))


def replay(s):
    if s["c"]["fam"] == "natt" and not covered(dict(gi=GR[s["gi"]], go=GR[s["go"]], H=s["I"][0], Ho=s["O"][0], ni=s["I"][1], no=s["O"][1], tc=s["tc"])):
        return []
    return dist(s) if s["np"] * s["na"] > 1 else [serial(s)]


def modules(s, dist_=False):
    m = build(s, dist_)
    with torch.no_grad():
        g = torch.Generator().manual_seed(s["seed"] + 5)
        for p in m.parameters():
            v = torch.randn(p.shape, generator=g, dtype=p.dtype)
            if not v.is_complex():
                v = torch.copysign(0.5 + 0.5 * v.abs().clamp(max=2), v)  # away from underflow
            p.copy_(v * (0.5 if p.dim() < 2 else (0.5 if s["c"]["fam"] in ("natt", "att") else 1) / math.sqrt(max(1, p[0].numel()))))
    if s["c"]["md"] != "f32":
        m = m.to(DT[s["c"]["md"]])
    m32 = build(dict(s, c=dict(s["c"], opt=True)))  # the reference runs on the compiled kernels
    if not dist_:
        m32.load_state_dict(m.state_dict())
    return m, m32


def serial(s):
    m, m32 = modules(s)
    st = {k: v.clone() for k, v in m.state_dict().items()}
    free = {}

    def call(n, d, k):
        xs = field(s, m, d, k)
        try:
            y, gr, gt = run(m, xs, lambda y: cot(y, k, s))
        except Exception as e:
            return dict(t="refused", e=0, g=0, gt=True, fine=True, same=True, q=0, why=str(e)[:120])
        ry, rg, _ = ref(s, m32, d, k)
        nx = len({id(x) for x in xs})
        ps = max([b.abs().max().item() for b in rg[nx:] if b is not None and b.numel()] + [1e-30])  # some parameters have gradient zero
        xs_ = max(b.abs().max().item() for b in rg[:nx]) if s["c"]["fam"] in ("natt", "att") else None  # gradients towards queries and keys cancel
        g = max([0] + [err(a, b, xs_ if j < nx else ps) for j, (a, b) in enumerate(zip(gr, rg)) if b is not None and b.numel()])
        same = True
        if immune(s):
            with torch.autocast("cpu", enabled=False):
                y0, g0, _ = run(m, xs, lambda y: cot(y, k, s))
            same = bool(torch.equal(y, y0)) and all((a is None) == (b is None) and (a is None or torch.equal(a, b)) for a, b in zip(gr, g0))
        yv = wide(y)
        fine = bool((yv.to(torch.complex64 if y.is_complex() else torch.float32).to(yv.dtype) != yv).any()) if y.numel() > 3 else True
        if fine and d == "f64" and s["c"]["fam"] in LINEAR:
            fine = survives(s, m, k)
        sc = ref(s, m32, d, k, True)[0].abs().max().item() if s["c"]["fam"] == "quad" else None  # integrals cancel
        return dict(t=tname(y), e=err(y, ry, sc), q=rms(y, ry, sc), g=g, gt=gt, fine=fine, same=same)

    def fail():
        xs = [torch.zeros(s["B"], channels(s), *[e + 1 for e in x.shape[-2:]], dtype=x.dtype) for x in field(s, m, "f32", 0)]
        try:
            m(*xs)
        except Exception:
            pass

    obs, ac = walk(s, m, call, fail)
    keep = all(bool(torch.equal(v, st[k])) for k, v in m.state_dict().items())
    return dict(c=s["c"], h=s["h"], obs=obs, ac=ac, keep=keep)


def dist(s):
    np_, na = s["np"], s["na"]
    if s["c"]["fam"] == "natt":
        ringkernels.install()
    ser, m32 = modules(s)
    if s["c"]["fam"] == "natt":
        a, b = sorted((s["I"][1], s["O"][1]))
        if any(v != (b // a) * u for u, v in zip(split_sizes(a, na), split_sizes(b, na))):
            return []  # refused at construction (P22)
    if s["c"]["fam"] == "natt" and np_ > 1:
        r, mn = halo(dict(hin=s["I"][0], hout=s["O"][0], gin=GR[s["gi"]], gout=GR[s["go"]], np=np_), s["tc"])
        if r > mn:
            return []
    refs_ = {}
    for k, d in enumerate([d for a, d in s["h"] if a == "call"]):
        r0 = ref(s, m32, d, k)
        refs_[k] = r0 + (ref(s, m32, d, k, True)[0] if s["c"]["fam"] == "quad" else r0[0],)
    pol, azi = -2, -1

    def f(r, p, a):
        m, _ = modules(s, True)
        src = ser.state_dict()
        for k, v in m.state_dict().items():
            if src[k].shape == v.shape:
                v.copy_(src[k])
            else:  # parameters of the spectral convolution live with their degrees (and orders)
                w = src[k]
                for dim in range(w.dim()):
                    if w.shape[dim] != v.shape[dim]:
                        n, rr = (np_, p) if split_sizes(w.shape[dim], np_)[p] == v.shape[dim] and not (dim == w.dim() - 1 and k.endswith("bias")) else (na, a)
                        w = chunk(w, dim, n, rr)
                v.copy_(w)
        sh = lambda t: chunk(chunk(t, -2, np_, p), -1, na, a).contiguous()

        def call(n, d, k):
            new = {}
            xs = field(s, ser, d, k)
            for x in xs:
                new.setdefault(id(x), sh(x))
            ry, rg, _, mag = refs_[k]
            c0 = cot(ry, k, s)
            full = s["c"]["fam"] == "quad"
            loc = lambda t: t if full else sh(t)
            try:
                y, gr, gt = run(m, [new[id(x)] for x in xs], lambda y: loc(c0))
            except (simdist.SimDeadlock, simdist.SimMismatch):
                raise
            except Exception as e:
                return dict(t="refused", e=0, g=0, gt=True, fine=True, same=True, q=0, why=str(e)[:120])
            nx = len(new)
            sc = lambda t: max(t.abs().max().item(), 1e-30)
            top = max(sc(b) for b in rg[:nx])
            g = max([0] + [err(a_, sh(b), top) for a_, b in zip(gr[:nx], rg[:nx])]) if not full else 0
            return dict(t=tname(y), e=err(y, loc(ry), sc(mag if full else ry)), q=rms(y, loc(ry), sc(mag) if full else None), g=g, gt=gt, fine=True, same=True)

        obs, ac = walk(s, m, call, lambda: None)
        return dict(c=s["c"], h=s["h"], obs=obs, ac=ac, keep=True)

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s))
    vals = check_res(res)
    if faults(w):
        raise RuntimeError("faults")
    return vals
