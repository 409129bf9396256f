import torch, math, gc, json, warnings, numpy as np
from .common import *
import vlib
from .fresh import forked
import torch_harmonics as th
from torch_harmonics import quadrature as Q, legendre as Lg, filter_basis as FB
from torch_harmonics.disco import convolution as DC

warnings.simplefilter("ignore")

# ---- cached functions and layers, as families of nearby configurations: args of value v; arg objects that can be modified in place are tensors
def angles(n, off):
    return torch.linspace(0.2 + off, 2.8 + off, n, dtype=torch.float64)


def lat(c):
    n, g, how = c
    return Q.precompute_latitudes(n, grid=g) if how else Q.precompute_latitudes(n, g)


def lon(c):
    return Q.precompute_longitudes(c[0]) if c[1] else Q.precompute_longitudes(nlon=c[0])


def basis_obj(c):
    ks, t = c
    return FB.get_filter_basis(tuple(ks) if isinstance(ks, list) else ks, t)


def basis_vals(fb):
    g = torch.Generator().manual_seed(3)
    r = torch.rand(6, 7, generator=g, dtype=torch.float64) * 0.5
    ph = torch.rand(6, 7, generator=g, dtype=torch.float64) * 2 * math.pi - math.pi
    idx, v = fb.compute_support_vals(r, ph, r_cutoff=0.4)
    return [idx, v, torch.as_tensor(fb.kernel_size), fb.get_init_factors()]


def conv(c):
    fb = basis_obj(c["fb"])
    return DC._precompute_convolution_tensor_s2(tuple(c["i"]), tuple(c["o"]), fb, grid_in=c["gi"], grid_out=c["go"], theta_cutoff=c["tc"], transpose_normalization=c["tr"], basis_norm_mode=c["nm"], merge_quadrature=c["mq"])


def layer(c):
    torch.manual_seed(5)
    cls = getattr(th, c["cls"])
    kw = {k: tuple(v) if isinstance(v, list) else v for k, v in c["kw"].items()}
    return cls(*c.get("a", []), **kw)


def run_layer(m, c):
    g = torch.Generator().manual_seed(9)
    x = torch.randn(c["x"], generator=g)
    if c.get("cx"):
        x = torch.complex(x, torch.randn(c["x"], generator=g))
    with torch.no_grad():
        y = m(x)
    return [y] + [b.to_dense() if b.is_sparse else b for _, b in sorted(m.named_buffers())] + [p for _, p in sorted(m.named_parameters())]


from .p22cfg import FAMS

TENSOR = {"leg", "dleg"}
LAYERS = {"sht", "isht", "vsht", "ivsht", "quad", "cv", "cvt", "natt", "att", "res", "spc"}


def call(fam, c, t=None):
    if fam == "lat":
        return lat(c)
    if fam == "lon":
        return lon(c)
    if fam in TENSOR:
        f = Lg._precompute_legpoly if fam == "leg" else getattr(Lg, "_precompute_dlegpoly", Lg._precompute_legpoly)
        return f(c[1], c[2], t, norm=c[3], inverse=c[4], csphase=c[5])
    if fam == "basis":
        return basis_obj(c)
    if fam == "conv":
        return conv(c)
    return layer(c)


def content(fam, c, obj):
    """numpy content of an object; c: the configuration it was made with"""
    if fam in LAYERS:
        obj = run_layer(obj, c)
    elif fam == "basis":
        obj = basis_vals(obj)
    elif torch.is_tensor(obj):
        obj = [obj]
    return [(list(t.shape), torch.view_as_real(t.detach()).double().numpy().ravel().tolist() if t.is_complex() else t.detach().double().numpy().ravel().tolist()) for t in obj if torch.is_tensor(t)]


def dist(a, b):
    if len(a) != len(b):
        return 2 * 10**9
    m = 0
    for (sa, va), (sb, vb) in zip(a, b):
        if sa != sb:
            return 2 * 10**9
        if va:
            va, vb = np.array(va), np.array(vb)
            sc = max(1e-30, np.abs(vb).max())
            m = max(m, vlib.res_int(np.abs(va - vb).max(), 2e-6 * sc))
    return m


def tensors_of(fam, obj):
    if fam in LAYERS:
        ts = list(obj.parameters()) + list(obj.buffers()) + [v for mod in obj.modules() for v in vars(mod).values() if torch.is_tensor(v)]
    else:
        ts = [obj] if torch.is_tensor(obj) else [t for t in obj if torch.is_tensor(t)] if isinstance(obj, (tuple, list)) else []
    return ts


def mutate(fam, obj):
    """in-place modification of everything reachable (indices to 0: still valid indices)"""
    if fam == "basis":
        for t in basis_vals(obj):
            t.zero_()
        return
    with torch.no_grad():
        for t in tensors_of(fam, obj):
            try:
                if t.is_sparse:
                    t._values().zero_()
                elif t.dtype in (torch.int64, torch.int32):
                    t.zero_()
                else:
                    t.mul_(-0.5).add_(0.25)
            except RuntimeError:
                pass


def flood(fam):
    for n in range(11, 34):
        Q.precompute_latitudes(n, "lobatto")
        Q.precompute_longitudes(n)
        t = angles(3, 0.01 * n)
        Lg._precompute_legpoly(3, 3, t)
        getattr(Lg, "_precompute_dlegpoly", Lg._precompute_legpoly)(2, 2, t)
    for n in range(22):
        FB.get_filter_basis((5, n + 5), "piecewise linear")
        if fam in ("conv", "cv", "cvt", "natt"):
            DC._precompute_convolution_tensor_s2((3, 4), (3, 4), FB.get_filter_basis(1, "piecewise linear"), theta_cutoff=0.3 + 0.01 * n)


def reference(fam, c):
    return content(fam, c, call(fam, c, angles(4, c[0]) if fam in TENSOR else None))


REF = {}


def ref(fam, c):
    k = json.dumps([fam, c])
    if k not in REF:
        REF[k] = forked(reference, fam, c)
    return REF[k]


def history(s, refs):
    fam, cs = s["fam"], s["cfgs"]
    val = {1: 1, 2: 2}
    targ = {a: angles(4, cs[v - 1][0]) for a, v in val.items()} if fam in TENSOR else {}
    hs, made, obs = [], [], []
    for act in s["h"]:
        if act[0] == "call":
            v = val[act[1]]
            hs.append(call(fam, cs[v - 1], targ.get(act[1])))
            made.append(cs[v - 1])
        elif act[0] == "mut":
            mutate(fam, hs[act[1] - 1])
            if fam == "basis":  # the basis object itself is shared by documentation; only what it computes can be modified
                pass
        elif act[0] == "drop":
            hs[act[1] - 1] = None
            gc.collect()
        elif act[0] == "arg":
            val[act[1]] = act[2]
            if fam in TENSOR:
                targ[act[1]].copy_(angles(4, cs[act[2] - 1][0]))
        elif act[0] == "flood":
            flood(fam)
        elif act[0] == "renew":  # the same argument values in new objects (memory of the old ones is free for reuse)
            for a in targ:
                old = targ[a]
                targ[a] = None
                del old
                targ[a] = angles(4, cs[val[a] - 1][0])
        row = []
        dirty = {x[1] for x in s["h"][: len(obs) + 1] if x[0] == "mut"}
        for j, o in enumerate(hs):
            if o is None or (j + 1) in dirty:
                row.append([0] * len(cs))
            else:
                got = content(fam, made[j], o)
                row.append([dist(got, r) for r in refs])
        obs.append(row)
    return obs


def replay(s):
    refs = [ref(s["fam"], c) for c in s["cfgs"]]
    return dict(h=s["h"], fam=s["fam"], obs=forked(history, s, refs))
