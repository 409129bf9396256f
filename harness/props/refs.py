"""Independent references, written from the mathematical definitions (no torch_harmonics code)."""
import math, functools
import numpy as np
from numpy.polynomial import legendre as NL


@functools.lru_cache(maxsize=None)
def _rule(grid, n):
    """nodes (ascending) and weights on [-1,1]"""
    if grid == "legendre-gauss":
        from scipy.special import roots_legendre

        x, w = roots_legendre(n)
    elif grid == "lobatto":
        # interior nodes: roots of P'_{n-1}; w = 2/(n(n-1)P_{n-1}(x)^2)
        c = np.zeros(n)
        c[n - 1] = 1.0
        if n > 2:
            from scipy.special import roots_jacobi

            xi, _ = roots_jacobi(n - 2, 1.0, 1.0)
            x = np.concatenate([[-1.0], np.sort(xi), [1.0]])
        else:
            x = np.array([-1.0, 1.0])
        w = 2.0 / (n * (n - 1) * NL.legval(x, c) ** 2)
    elif grid == "equiangular":
        # Clenshaw-Curtis by integrating the cardinal Chebyshev interpolants
        N = n - 1
        th = math.pi - np.arange(n) * math.pi / N
        x = np.cos(th)
        w = np.zeros(n)
        for k in range(n):
            s = 0.0
            for j in range(0, N + 1, 2):  # integral of T_j over [-1,1] = 2/(1-j^2) for even j
                b = 0.5 if j in (0, N) else 1.0
                s += b * 2.0 / (1 - j * j) * math.cos(j * th[k])
            w[k] = (0.5 if k in (0, N) else 1.0) * 2.0 / N * s
    elif grid == "equiangular-trapezoidal":
        x = np.linspace(-1, 1, n)
        w = np.full(n, 2.0 / (n - 1))
        w[0] *= 0.5
        w[-1] *= 0.5
    else:
        raise ValueError(grid)
    return x, w


def rule(grid, n):
    x, w = _rule(grid, n)
    return x.copy(), w.copy()


def colat(grid, n):
    """colatitudes ascending and the weights of these nodes"""
    x, w = rule(grid, n)
    if grid == "equiangular":
        return np.arange(n) * math.pi / (n - 1), w[::-1].copy()
    return np.arccos(x[::-1]), w[::-1].copy()


def _pre(l, m):
    return math.sqrt((2 * l + 1) / (4 * math.pi) * math.exp(math.lgamma(l - m + 1) - math.lgamma(l + m + 1)))


@functools.lru_cache(maxsize=None)
def _q(l, m):
    c = np.zeros(l + 1)
    c[l] = 1.0
    return NL.legder(c, m) if m else c


def plm(L, th, vec=False, cs=True):
    """orthonormal P_l^m(cos th), shape (L degrees, L orders, len(th)); with vec also dP/dtheta and m P/sin(theta)"""
    if L > 14:  # the closed form loses digits; scipy's stable recurrences from here on
        return plm_scipy(L, th, vec, cs)
    x, s = np.cos(th), np.sin(th)
    out = np.zeros((3 if vec else 1, L, L, len(th)))
    for l in range(L):
        for m in range(l + 1):
            n = _pre(l, m) * ((-1) ** m if cs else 1)
            q = NL.legval(x, _q(l, m))
            out[0, l, m] = n * s**m * q
            if vec:
                q1 = NL.legval(x, _q(l, m + 1)) if l >= m + 1 else 0.0 * x
                out[1, l, m] = n * ((m * s ** (m - 1) * x * q if m else 0.0) - s ** (m + 1) * q1)
                out[2, l, m] = n * (m * s ** (m - 1) * q if m else 0.0 * x)
    return out


def plm_scipy(L, th, vec=False, cs=True):
    from scipy.special import sph_legendre_p

    th = np.asarray(th, dtype=float)
    sn = np.sin(th)
    pole = sn < 1e-9
    out = np.zeros((3 if vec else 1, L, L, len(th)))
    for l in range(L):
        for m in range(l + 1):
            c = 1 if cs else (-1) ** m
            if not vec:
                out[0, l, m] = c * np.asarray(sph_legendre_p(l, m, th)).reshape(-1)
                continue
            out[0, l, m] = c * np.asarray(sph_legendre_p(l, m, th)).reshape(-1)
            if m:
                out[2, l, m] = np.where(pole, 0.0, m * out[0, l, m] / np.where(pole, 1.0, sn))
                if m == 1:  # limit at the poles
                    sgn = np.where(th < 1.0, 1.0, (-1.0) ** (l - 1))
                    out[2, l, 1] = np.where(pole, -c * _pre(l, 1) * l * (l + 1) / 2 * sgn, out[2, l, 1])
    if vec:  # dP/dtheta = (sqrt((l+m)(l-m+1)) P^{m-1} - sqrt((l-m)(l+m+1)) P^{m+1}) / 2 up to the phase convention
        e = -1.0 if cs else 1.0
        for l in range(L):
            for m in range(l + 1):
                up = out[0, l, m + 1] if m + 1 <= l else 0.0
                if m == 0:
                    out[1, l, 0] = -math.sqrt(l * (l + 1.0)) * e * up if l else 0.0
                else:
                    dn = out[0, l, m - 1]
                    out[1, l, m] = 0.5 * e * (math.sqrt((l + m) * (l - m + 1.0)) * dn - math.sqrt((l - m) * (l + m + 1.0)) * up)
    return out


def nu(norm, l):
    """analysis harmonics are nu_l times the orthonormal ones, synthesis harmonics 1/nu_l times"""
    return {"ortho": 1.0, "schmidt": math.sqrt(4 * math.pi / (2 * l + 1)), "unnorm": math.sqrt(4 * math.pi)}[norm]


def dft_forward(nlon, M):
    """(M, nlon) complex: mode m of a real signal = mean f e^{-im lam}; zero rows beyond Nyquist"""
    j = np.arange(nlon)
    F = np.zeros((M, nlon), dtype=complex)
    for m in range(min(M, nlon // 2 + 1)):
        F[m] = np.exp(-2j * math.pi * ((m * j) % nlon) / nlon) / nlon
    return F


def synth_lon(modes, nlon):
    """real signal from modes (..., M) -> (..., nlon); DC and Nyquist contribute their real part; beyond Nyquist dropped"""
    M = modes.shape[-1]
    j = np.arange(nlon)
    out = np.zeros(modes.shape[:-1] + (nlon,))
    for m in range(min(M, nlon // 2 + 1)):
        e = np.exp(2j * math.pi * ((m * j) % nlon) / nlon)
        if m == 0 or 2 * m == nlon:
            out += modes[..., m].real[..., None] * e.real
        else:
            out += 2 * (modes[..., m][..., None] * e).real
    return out
