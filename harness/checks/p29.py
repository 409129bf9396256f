import json, zlib, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["mixed precision as torch.autocast('cpu') offers it; the backward pass runs outside the region, as PyTorch asks", "answers are compared with float32 execution of the same layer on the same numbers (correctness of that is decided by the other properties), within a number of roundings fixed per layer family", "calls that mix types outside mixed precision, float64 fields inside it for mixing layers, two 16-bit types in one outermost region (PyTorch keeps converted parameters until it closes), and harmonic transforms inside it are left open by the documentation and not made"]
INV = "INIT Init\nNEXT Next\nINVARIANTS Consistent Local Honest Untouched Scn\nCHECK_DEADLOCK FALSE\n"


def check(ctx):
    q = ctx.quick
    r = ctx.tlc("PrecisionMC", INV, defs=dict(Len0="3" if q else "4", Depth="2"))
    sys_ = vlib.scn_prints(r)
    g = ctx.tlc("PrecisionMC", INV, defs=dict(Len0="7", Depth="3"), extra=("-simulate", f"num={1500 if q else 15000}", "-depth", "8", "-seed", str(ctx.seed)))
    long = vlib.scn_prints(g)
    ctx.log(len(sys_), "short and", len(long), "long histories")

    def mk(s, v, np_=1, na=1):
        h = zlib.crc32(json.dumps([s, ctx.seed, v], sort_keys=True).encode())
        b = lambda k, n: (h >> k) % n
        fam = s["c"]["fam"]
        I = [[8, 16], [6, 8], [9, 12], [7, 14], [12, 24]][b(0, 5)]
        if fam == "natt" and not s["c"]["opt"]:
            I = [[4, 8], [5, 6], [6, 8]][b(0, 3)]  # the reference attention is a Python loop
        O = I
        if fam in ("conv", "convt", "natt", "att", "res", "spc"):
            O = [I, [I[0] // 2 + 1, I[1] // 2], [I[0] + 2, I[1]]][b(3, 3)]
            if fam == "convt" or (fam == "natt" and b(5, 2)):
                I, O = O, I
        return dict(s, I=I, O=O, gi=b(6, 3), go=b(8, 3), C=1 + b(10, 3), Co=1 + b(12, 3), G=1 + b(14, 2), B=1 + b(15, 3), ks=[[2, 2], [3], [2, 3]][b(17, 3)], tc=1.2, qkn=bool(b(20, 2)) and b(10, 3) == 2 and s["c"]["md"] != "f64", b2=bool(b(21, 2)), cross=bool(b(22, 2)), mode="bilinear", seed=h % 9973, np=np_, na=na)

    key = lambda s: (s["c"]["fam"], s["c"]["md"], s["c"]["bias"], json.dumps(s["h"][0]), json.dumps(s["h"][-1]))
    scns = [mk(s, 1) for s in ctx.pick(sys_, 3000 if q else 20000, key=key)] + [mk(s, 2) for s in ctx.pick(long, 600 if q else 6000, key=lambda s: (s["c"]["fam"], s["c"]["md"]))]
    # process grids: both 16-bit types never meet in one exchange
    D = ("conv", "convt", "natt", "res", "quad", "spc", "sht", "isht", "vsht", "ivsht")
    ds = []
    for s in sys_ + long:
        ts = {t for a, t in s["h"] if t in ("f16", "bf16")} | ({s["c"]["md"]} & {"bf16"})
        if s["c"]["fam"] in D and len(ts) < 2 and s["c"]["md"] != "bf16" and s["c"]["opt"] and not any(a == "fail" for a, _ in s["h"]):
            ds.append(s)
    for np_, na in ((2, 1), (1, 2), (2, 2)):
        for s in ctx.pick(ds, 150 if q else 1500, key=lambda s: (s["c"]["fam"], s["c"]["md"], json.dumps(s["h"][-1]), json.dumps(s["h"][0]))):
            scns.append(dict(mk(s, 3, np_, na), G=1, C=4, Co=4, tc=0.9, qkn=False))
    ctx.validate("T_P29", ctx.replay(scns))
