import torch, math, numpy as np, warnings
from .common import *
import vlib
from . import refs

warnings.simplefilter("ignore")
from torch_harmonics.examples import losses as L, metrics as Mt

S = 10000


def val(v, sc=1.0):
    v = float(v)
    return -1 if v != v else int(max(-1e9, min(1e9, round(v / sc * S))))


def ri(a, b):
    a, b = float(a), float(b)
    if b != b or a != a:
        return 0 if (a != a) == (b != b) else 2 * 10**9
    return vlib.res_int(abs(a - b), 2e-5 * max(1.0, abs(b)))


def replay(s):
    H, W, B, C = s["H"], s["W"], s["B"], s["C"]
    _, wl = refs.colat(s["grid"], H)
    wl = np.asarray(wl, dtype=np.float64)
    wp = wl / wl.sum() / W
    P = np.array(s["P"])
    pred = P[:, 2].reshape(B, H, W) - 1
    tru = P[:, 3].reshape(B, H, W) - 1  # -1 = ignored
    ign = tru < 0
    out = dict(op=s["op"], P=s["P"], w=[int(round(x * S)) for x in wp], B=B, C=C, macro=s["macro"], weighted=s["weighted"], wt=[1 + c % 3 for c in range(C)], smooth=s["smooth"], pw=s["pw"], masked=s["masked"])
    cw = np.array(out["wt"]) / 4.0
    g = torch.Generator().manual_seed(scn_seed(s))
    # the class numbered like the ignore index is never used as a label otherwise
    ig = s["ig"] if not (0 <= s["ig"] < C) else -100
    lab = torch.from_numpy(np.where(ign, ig, tru)).long()
    logit = 40.0 * torch.nn.functional.one_hot(torch.from_numpy(pred), C).permute(0, 3, 1, 2).float()
    rnd = torch.randn(B, C, H, W, generator=g) * 2
    k = 1 + int(torch.randint(max(1, W), (1,), generator=g))
    roll = lambda *ts: [torch.roll(t, k, -1) for t in ts]
    bp = torch.randperm(B, generator=g)
    close = lambda a, b: bool(torch.isnan(a) & torch.isnan(b)) or abs(float(a) - float(b)) <= 3e-5 * max(1.0, abs(float(b)))
    mess = lambda x: torch.where(lab.eq(ig)[:, None], 3 * torch.randn(x.shape, generator=g), x)

    def invariant(f, x, t):
        y = f(x, t)
        return close(f(*roll(x, t)), y) and close(f(x[bp], t[bp]), y) and close(f(mess(x), t), y)

    w3 = np.broadcast_to(wp[None, :, None], (B, H, W))
    wt = torch.tensor(cw, dtype=torch.float32) if s["weighted"] else None
    mode = "macro" if s["macro"] else "micro"
    grid = s["grid"]
    if s["op"] == "score":
        iou = Mt.IntersectionOverUnionS2(H, W, grid, weight=wt, ignore_index=ig, mode=mode)
        acc = Mt.AccuracyS2(H, W, grid, weight=wt, ignore_index=ig, mode=mode)

        def stats(pr, defect=False):
            ok = ~ign
            z = lambda m: np.stack([(w3 * m(c)).sum((1, 2)) for c in range(C)], 1)
            tp, fp, fn, tn = z(lambda c: ok & (pr == c) & (tru == c)), z(lambda c: ok & (pr == c) & (tru != c)), z(lambda c: ok & (pr != c) & (tru == c)), z(lambda c: ok & (pr != c) & (tru != c))
            u = cw if s["weighted"] else np.ones(C) / (1 if not s["macro"] else C)
            def sc(n, d):
                if s["macro"]:
                    n, d = n.sum(0), d.sum(0)
                    return (np.where(d > 1e-12, n / np.where(d > 1e-12, d, 1), 0) * u).sum()
                d = (d * u).sum()
                return (n * u).sum() / d if d > 1e-12 else float("nan")
            if defect:  # known finding: ignored points counted as true negatives of every class
                tn = tn + (w3 * ign).sum((1, 2))[:, None]
            return sc(tp, tp + fp + fn), sc(tp + tn, tp + fp + fn + tn)

        a, b = iou(logit, lab), acc(logit, lab)
        e = stats(pred)
        e2 = stats(rnd.argmax(1).numpy())
        out = dict(out, iou=val(a), acc=val(b), res=[ri(a, e[0]), ri(b, e[1]), ri(iou(rnd, lab), e2[0]), ri(acc(rnd, lab), e2[1])], inv=invariant(iou, rnd, lab) and invariant(acc, rnd, lab))
        # the tag of the known finding is given only to a record in which everything else is right
        if ign.any() and out["inv"] and max(out["res"][0], out["res"][2], ri(b, stats(pred, True)[1]), ri(acc(rnd, lab), stats(rnd.argmax(1).numpy(), True)[1])) <= 1:
            out["finding"] = "accuracy-ignored-as-true-negative"
        return out
    if s["op"] == "dice":
        f = L.DiceLossS2(H, W, grid, weight=wt, smooth=s["smooth"] / S, ignore_index=ig, mode=mode)

        def ref(x, defect=False):
            p = torch.softmax(x.double(), 1).numpy() * ~ign[:, None]
            t = np.stack([tru == c for c in range(C)], 1) * 1.0
            if defect:  # known finding: ignored points counted as points of class 0
                t[:, 0] += ign
            I, U = (p * t * wp[:, None]).sum((2, 3)), ((p + t) * wp[:, None]).sum((2, 3))
            if not s["macro"]:
                I, U = ((I * cw).sum(1), (U * cw).sum(1)) if s["weighted"] else (I.mean(1), U.mean(1))
            sm = s["smooth"] / S
            with np.errstate(all="ignore"):
                d = (2 * I + sm) / (U + sm)
            if s["macro"]:
                d = (d * cw).sum(1) if s["weighted"] else d.mean(1)
            return 1 - d.mean()

        full = not any((~ign)[b].sum() == 0 for b in range(B))
        out = dict(out, dice=val(f(logit, lab)), res=[ri(f(rnd, lab), ref(rnd))] if full or s["smooth"] else [], inv=not full or invariant(f, rnd, lab))
        if ign.any() and out["inv"] and max(ri(f(rnd, lab), ref(rnd, True)), ri(f(logit, lab), ref(logit, True))) <= 1:
            out["finding"] = "dice-ignored-as-class-0"
        return out
    if s["op"] == "ce":
        f = getattr(L, s["kind"])(H, W, grid, weight=wt, ignore_index=ig)

        def ref(x):
            lp = torch.log_softmax(x.double(), 1).numpy()
            ce = np.zeros((B, H, W))
            for c in range(C):
                ce += np.where(tru == c, -lp[:, c] * (cw[c] if s["weighted"] else 1), 0)
            if s["kind"] == "FocalLossS2":
                ce = 0.25 * (1 - np.exp(-ce)) ** 2 * ce
            return (ce * w3).sum((1, 2)).mean()

        v = f(logit, lab)
        big = 40.0 * (0.25 if s["kind"] == "FocalLossS2" else 1)
        return dict(out, ce=val(v, big), res=[ri(f(rnd, lab), ref(rnd)), ri(v, ref(logit))], inv=invariant(f, rnd, lab))
    mask = torch.from_numpy(~ign).float()
    some = bool((mask.sum((-1, -2)) > 0).all())
    x, t = torch.from_numpy(pred + 1).float(), torch.from_numpy(tru + 1).float()
    rx, rt = torch.randn(B, H, W, generator=g), torch.randn(B, H, W, generator=g)
    m = mask if s["masked"] else None
    cc = lambda *ts: [None if u is None else u[:, None] for u in ts] if s["chan"] else list(ts)
    if s["op"] == "err":
        f = (L.L1LossS2 if s["pw"] == 1 else L.L2LossS2 if s["root"] else L.SquaredL2LossS2)(H, W, grid)
        # the root is taken per sample: judged on single samples by its square
        run = lambda a, b, mm: f(*cc(a, b, mm))

        def ref(a, b, mm):
            e = (a - b).double().abs().numpy() ** s["pw"]
            k = np.ones((B, H, W)) if mm is None else mm.numpy()
            v = (e * k * w3).sum((1, 2)) / ((k * w3).sum((1, 2)) if mm is not None else 1)
            return (np.sqrt(v) if s["pw"] == 2 and s["root"] else v).mean()

        if not some and s["masked"]:
            return dict(out, op="err", val=0, res=[], inv=True)
        if s["pw"] == 2 and s["root"]:
            v = sum(float(f(*cc(x[b : b + 1], t[b : b + 1], None if m is None else m[b : b + 1]))) ** 2 for b in range(B)) / B
        else:
            v = run(x, t, m)
        y = run(rx, rt, m)
        inv = close(run(*roll(rx, rt), None if m is None else roll(m)[0]), y) and close(run(rx[bp], rt[bp], None if m is None else m[bp]), y) and float(run(rx, rx, m)) == 0
        con = float(run(rx, rx + 3.0, m))
        inv = inv and abs(con - (9.0 if s["pw"] == 2 and not s["root"] else 3.0)) < 1e-4
        if s["masked"]:
            inv = inv and close(run(torch.where(mask > 0, rx, rx + 7), rt, m), y)
        return dict(out, val=val(v), res=[ri(y, ref(rx, rt, m))], inv=bool(inv))
    # derivative-based losses
    f = getattr(L, s["der"])(H, W, grid)
    y = f(rx, rt)
    inv = close(f(*roll(rx, rt)), y) and close(f(rx[bp], rt[bp]), y) and abs(float(f(rx, rx))) < 1e-5 and float(y) >= 0 and abs(float(f(rx, rx + 2.0))) < 1e-4
    return dict(out, op="err", P=[], masked=False, val=0, res=[], inv=bool(inv))
