import torch, random, json, math
import simdist

DT = dict(f32=torch.float32, f64=torch.float64, c64=torch.complex64, c128=torch.complex128, f16=torch.float16, bf16=torch.bfloat16, i64=torch.int64, i32=torch.int32)
BAD = -999999


def tag(shape, dtype, mul=1, add=1):
    """tensor whose element with flat index g is mul*g+add (complex: imaginary part = -(value) - 5)"""
    n = math.prod(shape)
    v = torch.arange(n, dtype=torch.float64) * mul + add
    if dtype.is_complex:
        v = torch.complex(v, -v - 5)
    return v.reshape(shape).to(dtype)


def ints(t):
    """flat exact integers; anything that is not the expected encoding becomes BAD"""
    t = t.detach().resolve_conj()
    if t.is_complex():
        re, im = t.real.double(), t.imag.double()
        bad = (im != -re - 5)
    else:
        re = t.double()
        bad = torch.zeros(re.shape, dtype=torch.bool)
    bad = bad | torch.isnan(re) | (re != torch.round(re)) | (re.abs() > 1e9)
    re = torch.where(bad, torch.full_like(re, BAD), re)
    return [int(v) for v in re.reshape(-1).tolist()]


def memlay(t, how):
    """same values, other memory layout"""
    if how == "contig" or t.dim() == 0:
        return t.contiguous().clone()
    if how == "perm" and t.dim() >= 2:
        return t.transpose(0, -1).contiguous().transpose(0, -1)
    if how == "slice":
        big = torch.zeros([s + 2 for s in t.shape], dtype=t.dtype)
        v = big[tuple(slice(1, 1 + s) for s in t.shape)]
        v.copy_(t)
        return v
    if how == "step":
        big = torch.zeros(list(t.shape[:-1]) + [2 * t.shape[-1]], dtype=t.dtype)
        v = big[..., ::2]
        v.copy_(t)
        return v
    return t.contiguous().clone()


def split_sizes(n, p):
    return [n // p + (1 if r < n % p else 0) for r in range(p)]


def chunk(t, dim, p, r):
    s = split_sizes(t.shape[dim], p)
    return t.narrow(dim, sum(s[:r]), s[r])


def shard(t, lay, np_, na, p, a):
    for d, l in enumerate(lay):
        if l == "p":
            t = chunk(t, d, np_, p)
        elif l == "a":
            t = chunk(t, d, na, a)
    return t


def obs(t):
    return dict(sh=list(t.shape), v=ints(t))


def faults(w):
    return [f["kind"] for f in w.faults]


def check_res(res):
    for k, v in res:
        if k == "err" and not isinstance(v, simdist.SimDeadlock):
            raise v
    for k, v in res:
        if k == "err":
            raise v
    return [v for _, v in res]


def h(*a):
    """small deterministic hash for deriving variants from scenarios"""
    import zlib

    return zlib.crc32(json.dumps(a, sort_keys=True).encode())


def scn_seed(s):
    return h(s) % (2**31)
