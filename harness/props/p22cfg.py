"""configurations of the cached functions and layers (no torch import)"""
BASE = dict(i=[5, 8], o=[5, 8], fb=[[2, 3], "piecewise linear"], gi="equiangular", go="equiangular", tc=0.9, tr=False, nm="nodal", mq=True)
D = lambda **k: dict(BASE, **k)
KW = dict(in_channels=2, out_channels=2, in_shape=[6, 8], out_shape=[6, 8], kernel_shape=[3, 2])
AT = dict(in_channels=2, in_shape=[5, 8], out_shape=[5, 8], num_heads=1)


def lay(cls, x, base, a=[], cx=False, **var):
    """base configuration and one-argument variations"""
    out = [dict(cls=cls, kw=base, a=a, x=x, cx=cx)]
    for k, vs in var.items():
        for v in vs:
            out.append(dict(cls=cls, kw=dict(base, **{k: v}), a=a, x=x, cx=cx))
    return out


FAMS = dict(
    lat=[[5, "equiangular", 0], [5, "equiangular", 1], [5, "lobatto", 0], [5, "legendre-gauss", 1], [6, "equiangular", 0], [5, "equiangular-trapezoidal", 0], [3, "equiangular", 0], [2, "lobatto", 0], [3, "legendre-gauss", 1], [1, "legendre-gauss", 0]],
    lon=[[5, 0], [5, 1], [6, 0], [7, 1], [10, 0], [2, 0], [1, 0], [3, 1]],
    leg=[[0.0, 5, 5, "ortho", False, True], [0.1, 5, 5, "ortho", False, True], [0.0, 5, 5, "ortho", True, True], [0.0, 5, 5, "ortho", False, False], [0.0, 5, 5, "four-pi", False, True], [0.0, 5, 5, "schmidt", False, True], [0.0, 4, 5, "ortho", False, True], [0.0, 5, 4, "ortho", False, True]],
    dleg=[[0.0, 5, 5, "ortho", False, True], [0.1, 5, 5, "ortho", False, True], [0.0, 5, 5, "schmidt", True, True], [0.0, 5, 5, "schmidt", False, True], [0.0, 5, 5, "ortho", False, False], [0.0, 4, 5, "ortho", False, True], [0.0, 5, 4, "ortho", False, True]],
    basis=[[[2, 3], "piecewise linear"], [[3, 2], "piecewise linear"], [3, "piecewise linear"], [[3], "piecewise linear"], [3, "zernike"], [4, "zernike"], [[2, 3], "harmonic"], [[3, 2], "harmonic"], [[2, 3], "fourier-bessel"], [True, "piecewise linear"]],
    conv=[BASE, D(tc=0.9000001), D(tc=0.7), D(tr=True), D(nm="mean"), D(nm="none"), D(nm="modal"), D(mq=False), D(gi="lobatto"), D(go="lobatto"), D(o=[4, 8]), D(i=[4, 8]), D(o=[5, 4]), D(fb=[[3, 2], "piecewise linear"]), D(fb=[[2, 3], "harmonic"]), D(tr=True, mq=False)],
    sht=lay("RealSHT", [2, 6, 10], dict(grid="equiangular"), a=[6, 10], grid=["lobatto", "legendre-gauss"], lmax=[4], mmax=[3], norm=["schmidt", "four-pi"], csphase=[False]),
    isht=lay("InverseRealSHT", [2, 4, 4], dict(grid="equiangular", lmax=4, mmax=4), a=[6, 10], cx=True, grid=["lobatto", "legendre-gauss"], norm=["schmidt", "four-pi"], csphase=[False]),
    vsht=lay("RealVectorSHT", [2, 2, 6, 10], dict(grid="equiangular"), a=[6, 10], grid=["lobatto"], lmax=[4], mmax=[3], norm=["schmidt"], csphase=[False]),
    ivsht=lay("InverseRealVectorSHT", [2, 2, 4, 4], dict(grid="equiangular", lmax=4, mmax=4), a=[6, 10], cx=True, grid=["lobatto"], norm=["schmidt"], csphase=[False]),
    quad=lay("QuadratureS2", [2, 2, 6, 10], dict(grid="equiangular"), a=[[6, 10]], grid=["lobatto", "legendre-gauss", "equiangular-trapezoidal"], normalize=[True]),
    cv=lay("DiscreteContinuousConvS2", [2, 2, 6, 8], KW, grid_in=["lobatto"], grid_out=["lobatto"], theta_cutoff=[0.9, 1.2], kernel_shape=[[2, 3]], basis_type=["harmonic", "zernike"], basis_norm_mode=["mean", "none"], optimized_kernel=[False], out_shape=[[6, 4]]),
    cvt=lay("DiscreteContinuousConvTransposeS2", [2, 2, 6, 8], KW, grid_in=["lobatto"], grid_out=["lobatto"], theta_cutoff=[0.9, 1.2], kernel_shape=[[2, 3]], basis_type=["harmonic"], basis_norm_mode=["mean", "none"], optimized_kernel=[False], out_shape=[[6, 16]]),
    natt=lay("NeighborhoodAttentionS2", [2, 2, 5, 8], AT, grid_in=["lobatto"], grid_out=["lobatto"], theta_cutoff=[0.9, 1.5], optimized_kernel=[False], use_qknorm=[True]),
    att=lay("AttentionS2", [2, 2, 5, 8], AT, grid_in=["lobatto", "legendre-gauss"], use_qknorm=[True]),
    res=lay("ResampleS2", [2, 2, 5, 8], dict(nlat_in=5, nlon_in=8, nlat_out=7, nlon_out=6), grid_in=["lobatto", "legendre-gauss"], grid_out=["lobatto"], mode=["bilinear-spherical"], nlat_out=[4], nlon_out=[5]),
    spc=lay("SpectralConvS2", [2, 2, 6, 10], dict(in_shape=[6, 10], out_shape=[6, 10], in_channels=2, out_channels=2), grid_in=["lobatto"], grid_out=["lobatto"], out_shape=[[4, 8]], bias=[True]),
)
for k in ("cv", "cvt"):  # zernike takes an integer
    for c in FAMS[k]:
        if c["kw"].get("basis_type") == "zernike":
            c["kw"] = dict(c["kw"], kernel_shape=3)
