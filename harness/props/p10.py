import os, torch
from .common import *
from .dist import ulps
import simdist, ringkernels
import torch_harmonics as th
import torch_harmonics.distributed as thd

ringkernels.install()
NP, NA = 2, 3
NW = NP * NA


def handles():
    return dict(
        P=simdist.SimGroup("P", lambda r: tuple(p * NA + r % NA for p in range(NP))),
        A=simdist.SimGroup("A", lambda r: tuple((r // NA) * NA + a for a in range(NA))),
        W=simdist.SimGroup("W", lambda r: tuple(range(NW))),
        S=simdist.SimGroup("S", lambda r: (r,)),
    )


def size_rank(n, w):
    return dict(P=(NP, w // NA), A=(NA, w % NA), W=(NW, w), S=(1, 0))[n] if n != "-" else (1, 0)


def loc(t, lay, pol, az, w):
    for d, l in enumerate(lay):
        if l != "n":
            n, r = size_rank(pol if l == "p" else az, w)
            t = chunk(t, d, n, r)
    return t


def use(what, pol, az, sd):
    """run operator what on every rank under the current registration; compare with the serial operator"""
    g = torch.Generator().manual_seed(sd)
    rnd = lambda *s, dt=torch.float64: torch.randn(*s, generator=g, dtype=dt)
    dt = "f64"
    sp = ["n", "n", "p", "a"]
    bad, expect = False, False
    if what == "regions":
        # identity along an unregistered axis, sum/slice/concat along a registered one
        npol, naz = size_rank(pol, 0)[0], size_rank(az, 0)[0]
        x = rnd(3, 12, 5)

        def f(w):
            pr, ar = size_rank(pol, w)[1], size_rank(az, w)[1]
            o = [thd.reduce_from_polar_region(x * (pr + 1)), thd.reduce_from_azimuth_region(x * (ar + 1)), thd.copy_to_polar_region(x.clone()), thd.copy_to_azimuth_region(x.clone()),
                 thd.scatter_to_polar_region(x, 1), thd.gather_from_polar_region(chunk(x, 1, npol, pr).contiguous(), 1, split_sizes(12, npol)),
                 thd.distributed_transpose_polar(chunk(x, 1, npol, pr).contiguous(), (1, 1), split_sizes(12, npol)) if npol == 1 else x,
                 thd.reduce_from_scatter_to_polar_region(x, 1), thd.reduce_from_scatter_to_azimuth_region(x, 1)]
            return o

        refs = [(x * (npol * (npol + 1) // 2), "nnn"), (x * (naz * (naz + 1) // 2), "nnn"), (x, "nnn"), (x, "nnn"), (x, "npn"), (x, "nnn"), (x, "nnn"), (x * npol, "npn"), (x * naz, "nan")]
        names = ["redp", "reda", "copyp", "copya", "scat", "gath", "tr", "rsp", "rsa"]
    elif what == "bad":
        bad = True
        npol = size_rank(pol, 0)[0]
        expect = npol > 1
        x = rnd(7, 12, 3)

        def f(w):
            pr = size_rank(pol, w)[1]
            n = npol
            wrong = split_sizes(12, n)
            if n > 1:
                wrong = [wrong[0] + 1] + wrong[1:-1] + [wrong[-1] - 1]
            try:
                if sd % 2:
                    thd.distributed_transpose_polar(chunk(x, 1, n, pr).contiguous(), (0, 1), wrong)
                else:
                    thd.gather_from_polar_region(chunk(x, 1, n, pr).contiguous(), 1, wrong)
            except ValueError:
                return "rejected"
            except simdist.SimMismatch:
                return "mismatch"
            return "accepted"
    else:
        kw = {}
        if what in ("RealSHT", "InverseRealSHT", "RealVectorSHT", "InverseRealVectorSHT"):
            args = (12, 14)
            kw = dict(lmax=7, mmax=7)
            vec = [2] if "Vector" in what else []
            x = rnd(2, *vec, 12, 14) if "Inverse" not in what else rnd(2, *vec, 7, 7, dt=torch.complex128)
            lay = "nn" if vec else "n"
            lay = lay + "pa"
        elif what == "QuadratureS2":
            args, x, lay, dt = ((9, 11),), rnd(2, 2, 9, 11), "nnpa", "f64"
        elif what == "ResampleS2":
            args, x, lay = (8, 10, 9, 12), rnd(7, 8, 10), "npa"
            kw = dict(grid_in="legendre-gauss")
        elif what == "SpectralConvS2":
            args, x, lay, dt = ((12, 14), (13, 13), 2, 2), rnd(1, 2, 12, 14, dt=torch.float32), "nnpa", "f32"
        elif what in ("DiscreteContinuousConvS2", "DiscreteContinuousConvTransposeS2"):
            a, b = (8, 12), (7, 6)
            args = (7, 7, a, b, 2) if "Trans" not in what else (7, 7, b, a, 2)
            x, lay = rnd(1, 7, *args[2]), "nnpa"
            kw = dict(bias=True)
        else:
            args, x, lay, dt = (), rnd(1, 2, 8 if pol != "W" else 12, 12, dt=torch.float32), "nnpa", "f32"
            h = x.shape[2]
            kw = dict(in_channels=2, in_shape=(h, 12), out_shape=(h, 12), num_heads=2, theta_cutoff=1.5 * math.pi / (h - 1))
        torch.manual_seed(sd)
        ser = getattr(th, what)(*args, **kw)
        if dt == "f64":
            ser = ser.to(torch.float64)
        with torch.no_grad():
            for p in ser.parameters():
                p.copy_(torch.randn_like(p))
        xs = x.clone().requires_grad_()
        y = ser(xs)
        go = torch.randn(y.shape, generator=g, dtype=y.dtype)
        (gx,) = torch.autograd.grad(y, xs, go)
        olay = "n" * y.dim() if what == "QuadratureS2" else "n" * (y.dim() - 2) + "pa"

        def f(w):
            m = getattr(thd, "Distributed" + what)(*args, **kw)
            if dt == "f64":
                m = m.to(torch.float64)
            sd_ = ser.state_dict()
            if what == "SpectralConvS2":
                sd_ = {"weight": loc(sd_["weight"], "nnnp", pol, az, w).clone()}
            m.load_state_dict(sd_)
            xl = loc(x, lay, pol, az, w).clone().requires_grad_()
            yl = m(xl)
            (gl,) = torch.autograd.grad(yl, xl, loc(go, olay, pol, az, w).clone())
            return [yl, gl]

        refs, names = [(y, olay), (gx, lay)], ["out", "grad"]
    w_ = simdist.World(NW, seed=sd, policy=[None, "first", "last", "rr"][sd % 4])
    res = w_.run(f)
    vals = check_res(res)
    if bad:
        return dict(bad=True, expect=expect, rejected=all(v == "rejected" for v in vals), items=[], faults=[], dt=dt)
    items = []
    for k, (ref, lay) in enumerate(refs):
        sc = max(1e-6, float(ref.detach().abs().max()))
        items.append(dict(n=names[k], gsh=list(ref.shape), lay=list(lay), obs=[dict(sh=list(v[k].shape), res=ulps(v[k], loc(ref, lay, pol, az, r), sc)) for r, v in enumerate(vals)]))
    return dict(bad=False, expect=False, rejected=False, items=items, faults=faults(w_), dt=dt)


def replay(s):
    H = handles()
    names = {id(v): k for k, v in H.items()}
    name = lambda h: "-" if h is None else names.get(id(h), "?")
    simdist.DESTROYED.clear()
    thd.config._debug = None
    os.environ.pop("TORCH_HARMONICS_DISTRIBUTED_DEBUG", None)
    pol = az = "-"
    obs_ = []
    try:
        for k, o in enumerate(s["h"]):
            u = None
            if o["k"] == "init":
                pol, az = o["p"], o["a"]
                thd.init(H.get(pol), H.get(az))
            elif o["k"] == "fin":
                thd.finalize()
                pol = az = "-"
            elif o["k"] == "dbg":
                thd.config.debug = o["v"]
            elif o["k"] == "env":
                os.environ["TORCH_HARMONICS_DISTRIBUTED_DEBUG"] = "1" if o["v"] else "0"
            else:
                ops = s["ops"]
                u = use(o["w"] if o["w"] != "op" else ops[k % len(ops)], pol, az, s["sd"] + k)
            w_ = simdist.World(NW)
            rk = check_res(w_.run(lambda r: dict(ps=thd.polar_group_size(), as_=thd.azimuth_group_size(), pr=thd.polar_group_rank(), ar=thd.azimuth_group_rank())))
            ob = dict(ini=thd.is_initialized(), pol=name(thd.polar_group()), az=name(thd.azimuth_group()), isp=thd.is_distributed_polar(), isa=thd.is_distributed_azimuth(), dbg=bool(thd.config.debug),
                      dead=[name(g) for g in simdist.DESTROYED], ranks=[{("as" if a == "as_" else a): int(b) for a, b in q.items()} for q in rk])
            if u is not None:
                ob["use"] = u
            obs_.append(ob)
    finally:
        os.environ.pop("TORCH_HARMONICS_DISTRIBUTED_DEBUG", None)
        thd.config._debug = None
        thd.init(None, None)
        thd.finalize()
    return dict(h=s["h"], obs=obs_)
