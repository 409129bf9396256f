import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["ranks simulated in one process with the torch.distributed contract of harness/simdist.py", "process grids up to 4x4 (quick) / 6x5 (thorough), latitudes up to 24, plus a sample of larger problems (up to 8x6 ranks, 65 latitudes, 97 longitudes; thorough 96x150); the serial transforms (property P11, P12) are the reference", "agreement within 1e6 ulp (float64) / 4e3 ulp (float32) of the largest value"]
MEM = ["contig", "perm", "slice", "step"]
LEADS = {1: [[1], [1, 1], [1, 1, 1]], 2: [[2], [1, 2], [2, 1]], 3: [[3], [3, 1], [1, 3, 1]], 5: [[5], [1, 5]], 6: [[6], [2, 3], [3, 1, 2], [1, 2, 3, 1]], 7: [[7], [1, 7]], 33: [[33], [3, 11], [2, 33]]}


def variants(s, seed):
    h = zlib.crc32(json.dumps([s, seed], sort_keys=True).encode())
    ld = LEADS[s["lead"]]
    l2 = LEADS[[1, 2, 3, 5, 6][(h >> 20) % 5]][0]
    return dict(s, vec=bool(h % 3 == 0), norm=["ortho", "schmidt", "unnorm", "ortho"][(h >> 3) % 4], cs=bool((h >> 5) % 2), leads=ld[(h >> 6) % len(ld)], leads2=l2, mem=MEM[(h >> 8) % 4], gmem=MEM[(h >> 10) % 4],
                dt="f64" if (h >> 12) % 4 else "f32", debug=(h >> 14) % 4 == 0, pol=[None, "first", "last", "rr"][(h >> 16) % 4], mreq=[0, 0, s["L"], max(s["np"], s["na"], s["L"] - 1)][(h >> 18) % 4])


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("DistSHT", "INIT Init\nNEXT Next\nINVARIANTS Admissible Final Scn\nCHECK_DEADLOCK FALSE\n", workers=8, defs=dict(
        PSet="1..4" if q else "1..6", ASet="1..4" if q else "1..5", Lats="{5,6,9,13}" if q else "{4,5,6,9,12,13,24}", Lons="{6,9,12,15}" if q else "{4,6,8,9,12,15,25}",
        Leads="{1,2,3,5,6}", Grids='{"equiangular","legendre-gauss","lobatto"}', LReqs="{0,3,4,5,7}" if q else "{0,2,3,4,5,7,9,12}"))
    scns = [variants(s, ctx.seed) for s in vlib.scn_prints(r)]
    ctx.log(len(scns), "configurations")
    scns = ctx.pick(scns, 420 if q else 9000, key=lambda s: (s["np"], s["na"], s["kind"], s["vec"], s["lead"] < max(s["np"], s["na"])))
    b = ctx.tlc("DistSHT", "INIT Init\nNEXT Next\nINVARIANTS Admissible Final Scn\nCHECK_DEADLOCK FALSE\n", workers=8, defs=dict(
        PSet="{1,2,3,4,5,8}", ASet="{1,2,3,4,6}", Lats="{33,48,65}" if q else "{33,48,65,96}", Lons="{64,81,97}" if q else "{64,81,97,150}", Leads="{1,3,7,33}", Grids='{"equiangular","legendre-gauss","lobatto"}', LReqs="{0,31}"))
    scns += ctx.pick([variants(s, ctx.seed) for s in vlib.scn_prints(b)], 48 if q else 500, key=lambda s: (s["np"], s["na"], s["kind"], s["lead"]))
    recs = ctx.replay(scns)
    ctx.validate("T_Dist", recs, split=1 if q else 4)
