import torch, math, numpy as np, warnings
from .common import *
import vlib

warnings.simplefilter("ignore")
from torch_harmonics.examples.shallow_water_equations import ShallowWaterSolver
from torch_harmonics.examples.pde_sphere import SphereSolver
from torch_harmonics.examples.pde_dataset import PdeDataset


def rel(a, scale, tol=1e-9):
    return vlib.res_int(float(a.abs().max()) if torch.is_tensor(a) else abs(a), tol * float(scale))


def rspec(L, M, g, n=1, mean=True):
    c = torch.complex(torch.randn(n, L, M, generator=g, dtype=torch.float64), torch.randn(n, L, M, generator=g, dtype=torch.float64))
    c[..., 0] = c[..., 0].real + 0j
    c = torch.tril(c)
    if not mean:
        c[:, 0] = 0
    return c


def state(s, g, amp=1.0):
    """a moist plausible random state of the solver"""
    u = torch.zeros(3, s.lmax, s.mmax, dtype=torch.complex128)
    P0 = float(s.havg * s.gravity)
    u[0] = rspec(s.lmax, s.mmax, g)[0] * P0 * 0.01 * amp
    u[0, 0, 0] = math.sqrt(4 * math.pi) * P0
    u[1:] = rspec(s.lmax, s.mmax, g, 2, mean=False) * 1e-6 * amp
    return u


HARM = {
    1: [lambda x, y, z: x, lambda x, y, z: y, lambda x, y, z: z],
    2: [lambda x, y, z: x * y, lambda x, y, z: y * z, lambda x, y, z: x * z, lambda x, y, z: x * x - y * y, lambda x, y, z: 2 * z * z - x * x - y * y],
    3: [lambda x, y, z: x * y * z, lambda x, y, z: z * (x * x - y * y), lambda x, y, z: x**3 - 3 * x * y * y, lambda x, y, z: 2 * z**3 - 3 * z * (x * x + y * y), lambda x, y, z: x * (4 * z * z - x * x - y * y)],
}


class Field:
    """sum of solid harmonics: value and surface gradient on the unit sphere, and its Laplacian"""

    def __init__(self, c):
        self.c = c

    @classmethod
    def rand(cls, g, ds=(1, 2, 3)):
        return cls({(d, k): float(torch.randn(1, generator=g, dtype=torch.float64)) for d in ds for k in range(len(HARM[d]))})

    def lap(self):
        return Field({(d, k): -d * (d + 1) * v for (d, k), v in self.c.items()})

    def at(self, X):
        X = X.detach().requires_grad_(True)
        x, y, z = X.unbind(-1)
        f = sum(v * HARM[d][k](x, y, z) for (d, k), v in self.c.items())
        (gr,) = torch.autograd.grad(f.sum(), X)
        X = X.detach()
        return f.detach(), gr - (gr * X).sum(-1, keepdim=True) * X


def tendencies(m, g):
    """state made of solid harmonics, and its tendency from the equations in vector form"""
    lat, lon = m.lats.double()[:, None], m.lons.double().reshape(1, -1)
    X = torch.stack([torch.cos(lat) * torch.cos(lon), torch.cos(lat) * torch.sin(lon), torch.sin(lat) + 0 * lon], -1)
    a, Om, P0 = float(m.radius), float(m.omega), float(m.havg * m.gravity)
    psi, chi, eta = Field.rand(g), Field.rand(g), Field.rand(g)
    U = 20.0
    gp, gc = psi.at(X)[1], chi.at(X)[1]
    V = U * (gc + torch.cross(X, gp, dim=-1))  # psi, chi in units of a U
    zt, dv = [(U / a) * f.lap().at(X)[0] for f in (psi, chi)]
    gz = (U / a) * psi.lap().at(X)[1]
    ez = torch.tensor([0.0, 0.0, 1.0], dtype=torch.float64).expand_as(X)
    ab = zt + 2 * Om * X[..., 2]
    ga = gz + 2 * Om * (ez - X[..., 2:] * X)
    ph, gph = eta.at(X)
    ph, gph = P0 + 0.05 * P0 * ph, 0.05 * P0 * gph
    dot = lambda p, q: (p * q).sum(-1)
    sp = m.grid2spec
    l = torch.arange(m.lmax, dtype=torch.float64)[:, None]
    u = torch.stack([sp(ph), sp(zt), sp(dv)])
    e = torch.stack([-sp(ph * dv + dot(V, gph) / a), -sp(ab * dv + dot(V, ga) / a), sp(ab * zt + dot(torch.cross(ga, V, dim=-1), X) / a) + l * (l + 1) / a**2 * sp(ph + 0.5 * dot(V, V))])
    return u, e, [P0 * U / a, (U / a) ** 2, max((U / a) ** 2, P0 / a**2)]


def replay(s):
    g = torch.Generator().manual_seed(scn_seed(s))
    if s["op"] == "steps":
        m = ShallowWaterSolver(8, 16, 12, lmax=3, mmax=3).double()
        L, M = m.lmax, m.mmax
        m.hyperdiff = torch.full((L, M), float(s["D"]), dtype=torch.float64)
        u = torch.full((3, L, M), 3.0, dtype=torch.complex128)
        keep = u.clone()
        calls = [[]]
        for t in s["h"]:
            if t == -99:
                calls.append([])
            else:
                calls[-1].append(t)
        first = u
        for c in calls:
            it = iter(c)
            m.dudtspec = lambda _: torch.full((3, L, M), float(next(it)), dtype=torch.complex128)
            u = m.timestep(u, len(c))
        ok = all(bool((u[k] == u[k, 0, 0]).all()) for k in range(3)) and bool((u.imag.abs() < 1e-9).all())
        ok = all(float((u[k].real - u[k, 0, 0].real).abs().max()) < 1e-6 for k in range(3))
        got = [int(round(float(u[k, 0, 0].real))) if ok and abs(float(u[k, 0, 0].real) - round(float(u[k, 0, 0].real))) < 1e-6 else BAD for k in range(3)]
        return dict(op="steps", D=s["D"], h=s["h"], u0=3, got=got, kept=bool(torch.equal(first, keep)))
    nlat, nlon, L = s["nlat"], s["nlon"], s["lmax"]
    cl = []
    add = lambda n, v: cl.append(dict(n=n, v=v))
    kept = True
    if s["op"] in ("sphere",):
        m = SphereSolver(nlat, nlon, 0.1, lmax=L, mmax=L, grid=s["grid"], coeff=0.01).double()
        for pde, f in (("allen-cahn", 1.0), ("ginzburg-landau", 1 + 2j)):
            for c in (0.0, 1.0, -1.0, 0.5):
                u = torch.zeros(m.lmax, m.mmax, dtype=torch.complex128)
                u[0, 0] = c * math.sqrt(4 * math.pi)
                e = torch.zeros_like(u)
                e[0, 0] = (c - f * c**3) * math.sqrt(4 * math.pi)
                k = u.clone()
                d = m.dudtspec(u, pde)
                kept = kept and torch.equal(k, u)
                add("ConstantState", rel(d - e, 10))
            u = rspec(m.lmax, m.mmax, g)[0] * 1e-6
            l = torch.arange(m.lmax, dtype=torch.float64)[:, None]
            e = u - f * 0.01 * l * (l + 1) * u
            add("LinearGrowth", rel(m.dudtspec(u, pde) - e, 1e-6 * L * L))
            j = 1 + int(torch.randint(nlon - 1, (1,), generator=g))
            ph = torch.exp(1j * torch.arange(m.mmax, dtype=torch.float64) * (2 * math.pi * j / nlon))
            u = rspec(m.lmax, m.mmax, g)[0]
            # the cubic term of the second equation has complex factors: the rotation still acts on coefficients
            add("Rotates", rel(m.dudtspec(u * ph, pde) - m.dudtspec(u, pde) * ph, 1e4))
        return dict(op="res", cl=cl, kept=bool(kept))
    m = ShallowWaterSolver(nlat, nlon, 100.0, lmax=L, mmax=L, grid=s["grid"], omega=s["omega"] if s["op"] in ("cons", "steady", "rot", "tend") else 0.0 if s["op"] == "wave" else 7.292e-5).double()
    P0, a, Om = float(m.havg * m.gravity), float(m.radius), float(m.omega)
    if s["op"] == "cons":
        u = state(m, g)
        keep = u.clone()
        v = m.timestep(u, s["n"])
        kept = torch.equal(u, keep)
        add("Mass", rel(v[0, 0, 0] - u[0, 0, 0], P0, 1e-12))
        add("MeanVorticityDivergence", rel(v[1:, 0] - u[1:, 0], 1e-6, 1e-12))
        add("Spectral", rel(torch.triu(v, 1), P0, 1e-10))
        add("Finite", 0 if bool(torch.isfinite(torch.view_as_real(v)).all()) else 2)
        add("NoSteps", rel(m.timestep(u, 0) - u, 1e-300))
        d = m.dudtspec(u)
        e = u + 100.0 * d
        e[1:] = m.hyperdiff * e[1:]
        w = m.timestep(u, 1) - e
        add("Euler", max(rel(w[0], P0, 1e-12), rel(w[1:], 1e-6, 1e-11)))
        add("MassOnGrid", rel(m.integrate_grid(m.spec2grid(v[0])) - m.integrate_grid(m.spec2grid(u[0])), P0 * 4 * math.pi * a * a, 1e-11))
        z = torch.zeros_like(u)
        z[0, 0, 0] = u[0, 0, 0]
        w = m.timestep(z, s["n"]) - z
        add("RestStaysAtRest", max(rel(w[0], P0, 1e-10), rel(w[1:], 1e-6, 1e-9)))
        hd = m.hyperdiff
        add("DampingBounded", 0 if float(hd.max()) <= 1 and float(hd.min()) > 0 and float((hd[0] - 1).abs().max()) == 0 and bool((hd[1:, 0] <= hd[:-1, 0]).all()) else 2)
    elif s["op"] == "wind":
        v = rspec(m.lmax, m.mmax, g, 2, mean=False)
        keep = v.clone()
        add("WindInverse", rel(m.vrtdivspec(m.getuv(v)) - v, 1, 1e-8))
        kept = torch.equal(v, keep)
        h = rspec(m.lmax, m.mmax, g, 1)
        o = m.gethuv(torch.cat([h, v]))
        add("HeightAndWind", max(rel(o[0] - m.spec2grid(h)[0], 10), rel(o[1:] - m.getuv(v), a)))
    elif s["op"] in ("steady",):
        lat = m.lats.double()[:, None].expand(nlat, nlon)
        u0 = 40.0
        uu = torch.stack([u0 * torch.cos(lat), torch.zeros_like(lat)])
        vd = m.vrtdivspec(uu)
        add("SolidBodyVorticity", rel(m.spec2grid(vd[0]) - 2 * u0 / a * torch.sin(lat), u0 / a, 1e-8))
        add("SolidBodyDivergence", rel(m.spec2grid(vd[1]), u0 / a, 1e-8))
        add("Coriolis", rel(m.coriolis - 2 * Om * torch.sin(lat[:, :1]), abs(Om) + 1e-9))
        ph = P0 - (a * Om * u0 + u0 * u0 / 2) * torch.sin(lat) ** 2
        u = torch.stack([m.grid2spec(ph), vd[0], torch.zeros_like(vd[0])])
        d = m.dudtspec(u)
        add("SteadyZonalFlow", max(rel(d[0], P0 * u0 / a, 1e-8), rel(d[1:], P0 / a / a, 1e-8)))
        # the same flow with the opposite sign of the pressure is not in balance
        u[0] = m.grid2spec(2 * P0 - ph)
        add("NotTrivial", 0 if float(m.dudtspec(u)[2].abs().max()) > 1e-5 * (a * abs(Om) * u0 + u0 * u0 / 2) / a / a else 2)
    elif s["op"] == "tend":
        u, e, sc = tendencies(m, g)
        keep = u.clone()
        d = m.dudtspec(u)
        kept = torch.equal(u, keep)
        for k, n in enumerate(("HeightTendency", "VorticityTendency", "DivergenceTendency")):
            add(n, rel(d[k] - e[k], sc[k], 1e-8))
    elif s["op"] == "wave":
        u = state(m, g, 1e-7)
        d = m.dudtspec(u)
        l = torch.arange(m.lmax, dtype=torch.float64)[:, None]
        add("WaveHeight", rel(d[0] + P0 * u[2], P0 * 1e-13, 1e-5))
        add("WaveVorticity", rel(d[1], 1e-9 * 1e-6, 1e-3))
        add("WaveDivergence", rel((d[2] - l * (l + 1) / a**2 * u[0])[1:], P0 * 1e-9 / a / a, 1e-3))
    elif s["op"] == "rot":
        u = state(m, g)
        j = 1 + int(torch.randint(nlon - 1, (1,), generator=g))
        ph = torch.exp(1j * torch.arange(m.mmax, dtype=torch.float64) * (2 * math.pi * j / nlon))
        w = m.timestep(u * ph, s["n"]) - m.timestep(u, s["n"]) * ph
        add("Rotates", max(rel(w[0], P0), rel(w[1:], 1e-5)))
        z = u.clone()
        z[..., 1:] = 0
        v = m.timestep(z, s["n"])
        add("ZonalStaysZonal", max(rel(v[0, :, 1:], P0), rel(v[1:, :, 1:], 1e-5)))
    elif s["op"] == "integral":
        one = torch.ones(2, nlat, nlon, dtype=torch.float64)
        add("Area", rel(m.integrate_grid(one) - 4 * math.pi * a * a, a * a))
        add("UnitArea", rel(m.integrate_grid(one, dimensionless=True) - 4 * math.pi, 1))
        lat = m.lats[:, None].double().expand(nlat, nlon)
        add("Odd", rel(m.integrate_grid(torch.sin(lat), dimensionless=True), 1))
        add("Second", rel(m.integrate_grid(torch.sin(lat) ** 2, dimensionless=True) - 4 * math.pi / 3, 1))
        add("Nyquist", rel(m.integrate_grid(torch.cos(m.lons)[None].expand(nlat, nlon).double(), dimensionless=True), 1))
        c = m.galewsky_initial_condition()
        add("GalewskyMeans", rel(c[1:, 0], 1e-5))
        add("GalewskyDepth", 0 if abs(float(c[0, 0, 0].real) / math.sqrt(4 * math.pi) / P0 - 1) < 0.05 else 2)
    elif s["op"] == "data":
        for ic in ("random", "galewsky"):
            torch.manual_seed(3)
            d = PdeDataset(dt=600, nsteps=s["n"], dims=(nlat, nlon), grid=s["grid"], initial_condition=ic, num_examples=5, normalize=s["i"] % 16 < 8)
            add("Length", 0 if len(d) == (5 if ic == "random" else 1) else 2)
            torch.manual_seed(11)
            x, y = d[0]
            torch.manual_seed(11)
            c = d.solver.random_initial_condition(mach=0.2) if ic == "random" else d.solver.galewsky_initial_condition()
            ex, ey = d.solver.spec2grid(c), d.solver.spec2grid(d.solver.timestep(c, s["n"]))
            if d.normalize:
                ex, ey = [(t - d.inp_mean) / torch.sqrt(d.inp_var) for t in (ex, ey)]
            fin = bool(torch.isfinite(ey).all())
            add("Sample", max(rel((x - ex)[:2], float(ex[:2].abs().max()), 1e-4), rel((y - ey)[:2], float(ey[:2].abs().max()), 1e-4)) if fin else 0)
            add("TotalTime", rel(d.solver.dt * s["n"] - 600, 600))
    return dict(op="res", cl=cl, kept=bool(kept))
