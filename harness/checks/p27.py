import json, random, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["graphs are captured with torch.compile (aot_eager: tracing, guards, functionalisation and the joint gradient graph, eager kernels; inductor for the method the library itself compiles); no CUDA device",
               "agreement with the plain layer to 3e-5 (float32) / 1e-10 (float64) / 2e-2 (bfloat16) of the largest value", "data-free execution with fake tensors; strides of whole layers are not compared, those of the library's own operators are", "histories of up to 4 (quick) / 5 (thorough) actions over batch sizes 1..3"]


def C(cls, xs, a=[], cx=False, dt="f32", fake=True, **kw):
    return dict(cls=cls, xs=xs, a=a, cx=cx, dt=dt, kw=kw, fake=fake)


def configs():
    out = dict(sht=[], isht=[], vsht=[], quad=[], cv=[], cvt=[], natt=[], att=[], res=[], spc=[])
    for dt in ("f32", "f64", "bf16"):
        for g, n, m in () if dt == "bf16" else (("equiangular", 7, 12), ("lobatto", 6, 9), ("legendre-gauss", 5, 10)):
            out["sht"].append(C("RealSHT", [[3, n, m]], [n, m], grid=g, dt=dt))
            out["isht"].append(C("InverseRealSHT", [[2, 4, 4]], [n, m], grid=g, lmax=4, mmax=4, cx=True, dt=dt))
            out["vsht"].append(C("RealVectorSHT", [[2, 2, n, m]], [n, m], grid=g, dt=dt))
            out["vsht"].append(C("InverseRealVectorSHT", [[2, 2, 4, 4]], [n, m], grid=g, lmax=4, mmax=4, cx=True, dt=dt))
            out["quad"].append(C("QuadratureS2", [[3, n, m]], [[n, m]], grid=g, normalize=m == 9, dt=dt))
            for md in ("bilinear", "bilinear-spherical"):
                out["res"].append(C("ResampleS2", [[3, n, m]], nlat_in=n, nlon_in=m, nlat_out=9, nlon_out=8, grid_in=g, grid_out="equiangular", mode=md, dt=dt, fake=False))
        for o in ([6, 8], [4, 4], [9, 2]):
            for f, opt in ((False, True), (True, True), (False, False)):
                out["cv"].append(C("DiscreteContinuousConvS2", [[4, 6, 8]], in_channels=4, out_channels=6, in_shape=[6, 8], out_shape=o, kernel_shape=[2, 3], theta_cutoff=0.9, groups=2, bias=not f, fused=f, optimized_kernel=opt, dt=dt, fake=opt))
        for o in ([6, 8], [8, 16], [5, 24]):
            for opt in (True, False):
                out["cvt"].append(C("DiscreteContinuousConvTransposeS2", [[4, 6, 8]], in_channels=4, out_channels=2, in_shape=[6, 8], out_shape=o, kernel_shape=3, theta_cutoff=0.9, groups=2, optimized_kernel=opt, dt=dt, fake=opt))
        if True:
            for i, o in (([5, 8], [5, 8]), ([6, 12], [5, 4]), ([5, 4], [7, 12])):
                for opt in (True, False):
                    for nh, k, v, qn in ((1, None, None, False), (2, 4, 8, True)):
                        out["natt"].append(C("NeighborhoodAttentionS2", [[4, *o], [4, *i], [4, *i]], in_channels=4, in_shape=i, out_shape=o, num_heads=nh, k_channels=k, out_channels=v, use_qknorm=qn, theta_cutoff=1.1, optimized_kernel=opt, dt=dt))
                out["natt"].append(C("NeighborhoodAttentionS2", [[1, *o], [1, *i], [1, *i]], in_channels=1, in_shape=i, out_shape=o, num_heads=1, theta_cutoff=1.1, dt=dt))
            for i, o in (([5, 8], [5, 8]), ([6, 12], [5, 6])):
                for nh, k, v, qn in ((1, None, None, False), (2, 4, 8, True)):
                    out["att"].append(C("AttentionS2", [[4, *o], [4, *i], [4, *i]], in_channels=4, num_heads=nh, in_shape=i, out_shape=o, k_channels=k, out_channels=v, use_qknorm=qn, dt=dt))
            for b in (False, True) if dt == "f32" else ():
                for o in ([6, 10], [4, 8]):
                    out["spc"].append(C("SpectralConvS2", [[4, 6, 10]], in_shape=[6, 10], out_shape=o, in_channels=4, out_channels=2, num_groups=2, bias=b, dt=dt))
    return out


def check(ctx):
    q = ctx.quick
    n = "3" if q else "4"
    r = ctx.tlc("GraphMC", "INIT Init\nNEXT Next\nINVARIANTS Served Neutral Bounded Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0=n))
    hs = vlib.scn_prints(r)
    g = ctx.tlc("GraphMC", "INIT Init\nNEXT Next\nINVARIANTS Scn\nCHECK_DEADLOCK FALSE\n", defs=dict(Len0="5" if q else "7"), extra=("-simulate", f"num={500 if q else 3000}", "-depth", "8", "-seed", str(ctx.seed)))
    hs = list({json.dumps(h, sort_keys=True): h for h in hs + vlib.scn_prints(g)}.values())
    ctx.log(len(hs), "histories")
    cf = configs()
    slow = dict(natt=1.1, att=0.8, sht=0.7, isht=0.7, vsht=0.7, spc=0.5)
    scns = []
    for f in sorted(cf):
        rng = random.Random(f"{ctx.seed}{f}")
        mine = ctx.pick(hs, int((40 if q else 500) * slow.get(f, 1)), key=lambda h: (h["kind"], h["n"], h["hits"], any(a[0] == "upd" for a in h["h"])))
        rng.shuffle(mine)
        for j, h in enumerate(mine):
            c = cf[f][j % len(cf[f])]
            scns.append(dict(c=c, fam=f, kind=h["kind"], h=h["h"], be="aot_eager", mem=rng.choice(["perm", "slice", "step"]), watch=j % 2 == 0, fake=c["fake"] and j % 3 != 2))
            if f == "spc" and j % 2:
                scns.append(dict(scns[-1], kind="native", be="inductor", fake=False, watch=False))
    rng.shuffle(scns)
    import os
    env = dict(TORCHDYNAMO_DISABLE="0", TORCHINDUCTOR_CACHE_DIR=os.path.join(ctx.work, "inductor"), TRITON_CACHE_DIR=os.path.join(ctx.work, "triton"), TMPDIR=ctx.work)
    recs = ctx.replay(scns, env=env, per_scn_timeout=240)
    ctx.validate("T_P27", recs)
