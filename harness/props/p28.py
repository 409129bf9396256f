import torch, math, warnings
from .common import *
from .p09 import halo
import simdist
import torch_harmonics as th
import torch_harmonics.distributed as thd

warnings.simplefilter("ignore")
GR = ["equiangular", "legendre-gauss", "lobatto"]
BS = [("piecewise linear", (2, 3)), ("morlet", (2, 2)), ("zernike", 3)]
NM = ["nodal", "mean", "support"]
NO = ["ortho", "four-pi", "schmidt"]
TC = {1: 0.9, 0: 0.0, -1: -0.5}


def build(c, s, dist):
    """the layer for configuration c; where c names the default choice, one of the equivalent choices is taken"""
    f = c["fam"]
    mod = thd if dist else th
    P = "Distributed" if dist else ""
    gi = c["gi"] if c["gi"] != "equiangular" else GR[s["gsel"]]
    go = c["go"] if c["go"] != "equiangular" else GR[(s["gsel"] + s["bsel"]) % 3]
    bt, ks = (c["basis"], 3) if c["basis"] != "piecewise linear" else BS[s["bsel"]]
    nm = c["bnorm"] if c["bnorm"] != "nodal" else NM[s["nsel"]]
    no = c["norm"] if c["norm"] != "ortho" else NO[s["nsel"]]
    I, O = (c["H"], c["W"]), (c["Ho"], c["Wo"])
    cls = lambda n: getattr(mod, P + n)
    torch.manual_seed(s["seed"])
    if f in ("sht", "vsht"):
        return cls("RealSHT" if f == "sht" else "RealVectorSHT")(*I, lmax=c["L"], mmax=c["M"], grid=gi, norm=no)
    if f in ("isht", "ivsht"):
        return cls("InverseRealSHT" if f == "isht" else "InverseRealVectorSHT")(*O, lmax=c["L"], mmax=c["M"], grid=go, norm=no)
    if f in ("conv", "convt"):
        return cls("DiscreteContinuousConvS2" if f == "conv" else "DiscreteContinuousConvTransposeS2")(c["ci"], c["co"], in_shape=I, out_shape=O, kernel_shape=ks, basis_type=bt, basis_norm_mode=nm, groups=c["g"], grid_in=gi, grid_out=go, theta_cutoff=TC[c["tc"]], optimized_kernel=s["opt"])
    if f == "natt":
        return cls("NeighborhoodAttentionS2")(in_channels=c["ci"], in_shape=I, out_shape=O, grid_in=gi, grid_out=go, num_heads=c["g"], k_channels=c["kc"], out_channels=c["co"], theta_cutoff=TC[c["tc"]], optimized_kernel=s["opt"] or dist)
    if f == "att":
        return th.AttentionS2(in_channels=c["ci"], num_heads=c["g"], in_shape=I, out_shape=O, grid_in=gi, grid_out=go, k_channels=c["kc"], out_channels=c["co"])
    if f == "res":
        return cls("ResampleS2")(*I, *O, grid_in=gi, grid_out=go, mode=c["mode"] if c["mode"] != "bilinear" or s["bsel"] else "bilinear-spherical")
    if f == "quad":
        return cls("QuadratureS2")(I, grid=gi)
    return cls("SpectralConvS2")(in_shape=I, out_shape=O, in_channels=c["ci"], out_channels=c["co"], num_groups=c["g"], grid_in=gi, grid_out=go, bias=s["bsel"] == 1)


def vary(v, k, b=2):
    """spec/Contract.tla: Vary (the judge looks at the shapes handed over, not at this)"""
    n, ch, h, w = b, k[0] or 3, k[1], k[2]
    return dict(ok=[n, ch, h, w], glob=[n, ch, k[3], k[4]]).get(v) or {"h+": [n, ch, h + 1, w], "h-": [n, ch, h - 1, w], "h2": [n, ch, 2 * h, w], "h1": [n, ch, 1, w], "w+": [n, ch, h, w + 1], "w-": [n, ch, h, w - 1], "w2": [n, ch, h, 2 * w], "w1": [n, ch, h, 1], "wh": [n, ch, h, w // 2],
            "swap": [n, ch, w, h], "flat": [n, ch, 1, h * w], "mix": [n, ch, h + 1, 2 * w], "c+": [n, ch + 1, h, w], "c-": [n, ch - 1, h, w], "c2": [n, 2 * ch, h, w], "b+": [n + 1, ch, h, w]}[v]


def slots(c, g):
    f = c["fam"]
    if f in ("sht", "res", "quad"):
        return [(0, c["H"], c["W"], g["H"], g["W"])]
    if f == "vsht":
        return [(2, c["H"], c["W"], g["H"], g["W"])]
    if f in ("isht", "ivsht"):
        return [(0 if f == "isht" else 2, c["L"], c["M"], g["L"], g["M"])]
    i = (c["ci"], c["H"], c["W"], g["H"], g["W"])
    return [i] if f in ("conv", "convt", "spc") else [(c["ci"], c["Ho"], c["Wo"], g["Ho"], g["Wo"]), i, i]


def local(c, np_, na, p, a):
    sp = lambda n, k, r: split_sizes(n, k)[r]
    return dict(c, H=sp(c["H"], np_, p), Ho=sp(c["Ho"], np_, p), L=sp(c["L"], np_, p), W=sp(c["W"], na, a), Wo=sp(c["Wo"], na, a), M=sp(c["M"], na, a))


def fields(c, ss, s, n, r=0):
    g = torch.Generator().manual_seed(1000 * s["seed"] + 10 * n + r)
    out = []
    for sh in ss:
        x = torch.randn(*sh, generator=g)
        if c["fam"] in ("isht", "ivsht"):
            x = torch.complex(x, torch.randn(*sh, generator=g))
        out.append(memlay(x, s["mem"]) if len(sh) > 2 else x)
    return out


def state(m):
    return {k: v.clone() for k, v in list(m.named_parameters()) + list(m.named_buffers())}


def call(m, xs):
    try:
        with torch.no_grad():
            y = m(*xs)
        return ["shape"] + list(y.shape), y
    except (simdist.SimDeadlock, simdist.SimMismatch) as e:
        return ["broken", str(e)[:200]], None
    except Exception as e:
        return ["refused"], None


def eq(a, b):
    return a is None and b is None or (a is not None and b is not None and a.shape == b.shape and bool(torch.equal(torch.nan_to_num(torch.view_as_real(a) if a.is_complex() else a), torch.nan_to_num(torch.view_as_real(b) if b.is_complex() else b))))


def session(c, g, s, calls, dist, r=0):
    """build, make the calls, and make the answered ones again on fresh layers"""
    try:
        m = build(g, s, dist)
    except (simdist.SimDeadlock, simdist.SimMismatch):
        raise
    except Exception as e:
        return dict(c=g, l=c, built=False, h=[], obs=[], same=[], keep=True)
    st = state(m)
    obs, ys = [], []
    for n, ss in enumerate(calls):
        o, y = call(m, fields(c, ss, s, n, r))
        obs.append(o)
        ys.append(y)
        if o[0] == "broken":
            break
    keep = all(bool(torch.equal(v, st[k])) for k, v in state(m).items())
    same = []
    for n, (o, y) in enumerate(zip(obs, ys)):
        if o[0] != "shape":
            same.append(True)
            continue
        f = build(g, s, dist)
        same.append(eq(y, call(f, fields(c, calls[n], s, n, r))[1]))
    return dict(c=g, l=c, built=True, h=[dict(ss=ss) for ss in calls[: len(obs)]], obs=obs, same=same, keep=keep)


def replay(s):
    g = s["c"]
    if not s["dist"]:
        return [session(g, g, s, [c["ss"] for c in s["h"]], False)]
    np_, na = s["np"], s["na"]
    if min(g["H"], g["Ho"], g["L"]) < np_ or min(g["W"], g["Wo"], g["M"]) < na:
        return []
    if s["adm"] and g["fam"] == "natt" and np_ > 1:
        r, mn = halo(dict(hin=g["H"], hout=g["Ho"], gin=GR[s["gsel"]], gout=GR[(s["gsel"] + s["bsel"]) % 3], np=np_), TC[g["tc"]])
        if r > mn:
            return []
    if s["adm"] and g["fam"] == "spc" and (min(g["H"], g["Ho"]) < 2 * np_ or min(g["W"], g["Wo"]) < 4 * na):
        return []  # fewer degrees or orders than ranks
    loc = [local(g, np_, na, p, a) for p in range(np_) for a in range(na)]
    calls = []
    for c in loc:
        sl = slots(c, g)
        calls.append([[vary(h["v"] if j == h["k"] - 1 else "ok", k) for j, k in enumerate(sl)] for h in s["h"]])
    ok = [[vary("ok", k) for k in slots(c, g)] for c in loc]
    for n in range(len(s["h"])):
        dev = [calls[r][n] != ok[r] for r in range(len(loc))]
        if any(dev) != all(dev) or any(e < 1 for r in calls for ss in r[n] for e in ss):
            return []  # the deviation does not change every rank's shard
        if g["fam"] not in ("quad", "natt") and any(ss[0][1] < max(np_, na) for r in calls for ss in r):
            return []  # fewer channels than ranks to share them
        if g["fam"] == "quad" and any(1 in ss[0][2:] for r in calls + [[o] for o in ok] for ss in r):
            return []  # constant along an axis

    def f(r, p, a):
        return session(loc[r], g, s, calls[r], True, r)

    w, res = simdist.run_grid(np_, na, f, seed=scn_seed(s))
    vals = check_res(res)
    if faults(w):
        for v in vals:
            v["obs"] = [["broken", "faults"]] * len(v["obs"])
    return vals
