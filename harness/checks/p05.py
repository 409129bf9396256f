import importlib, threading, vlib
LEVEL = "model_checking"
ASSUMPTIONS = ["weakest torch.distributed semantics: rendezvous sends, collectives complete when all members arrived, receive buffers undefined and send buffers frozen until wait",
               "reductions combine in rank order (the contract leaves the order open; bitwise equality across schedules is judged with that choice)",
               "communication programs are those recorded on the replayed scenarios; all interleavings of them are covered (explicitly for small ones, by monotone enabledness otherwise)"]
MODS = dict(p02=(24, 300), p03=(24, 300), p04=(16, 200), p06=(32, 500), p07=(32, 500), p08=(28, 400), p09=(32, 500))


class Captured(Exception):
    pass


class Proxy:
    def __init__(self, ctx, n):
        self.ctx, self.n = ctx, n
        self.quick, self.tier, self.seed, self.work = True, "quick", ctx.seed, ctx.work
        self.scns = []

    def log(self, *a):
        pass

    def tlc(self, module, cfg, **kw):
        kw["workers"] = 2
        return self.ctx.tlc(module, cfg, **kw)

    def pick(self, scns, n, key=None):
        return self.ctx.pick(scns, self.n, key=key)

    def replay(self, scns, **kw):
        self.scns.extend(self.ctx.pick(scns, self.n))
        raise Captured

    def validate(self, *a, **k):
        raise Captured


def check(ctx):
    q = ctx.quick
    got, errs = {}, []

    def gather(m, n):
        p = Proxy(ctx, n)
        try:
            importlib.import_module("checks." + m).check(p)
        except Captured:
            pass
        except Exception as e:
            errs.append(e)
        got[m] = p.scns

    ths = [threading.Thread(target=gather, args=(m, n[0] if q else n[1])) for m, n in MODS.items()]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    if errs:
        raise errs[0]
    scns = []
    for k in range(max(len(v) for v in got.values())):
        for m in sorted(got):
            if k < len(got[m]):
                scns.append(dict(mod=m, scn=got[m][k], nperm=2 if q else 8, cap=3000 if q else 60000))
    recs = ctx.replay(scns)
    ctx.validate("T_P05", recs, split=1 if q else 4, invs="Inv Monotone")
