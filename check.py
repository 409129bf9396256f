#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property (see DESIGN.md)."""
import sys, os, json, time, argparse, shutil, tempfile, importlib, traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import vlib


class Ctx:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.t0 = time.time()
        self.states = self.trans = 0
        self.samples = []
        self.violations = []
        self.traces = 0
        self.quick = tier == "quick"
        self.notes = []

    def log(self, *a):
        print(f"[{self.pid} {time.time()-self.t0:6.1f}s]", *a, flush=True)

    def tlc(self, module, cfg, **kw):
        r = vlib.tlc(module, cfg, self.work, **kw)
        self.states += r.distinct
        self.trans += r.generated
        self.log(f"TLC {module}: {r.distinct} distinct states, {r.generated} generated, {r.wall:.1f}s")
        return r

    def violation(self, rid, clauses, rec):
        self.violations.append(dict(id=rid, clauses=sorted(clauses), rec=rec))

    def pick(self, scns, n, key=None):
        """deterministic seeded sample, stratified by key"""
        import random

        rng = random.Random(self.seed * 7919 + 13)
        scns = sorted(scns, key=lambda s: json.dumps(s, sort_keys=True))
        if len(scns) <= n:
            return scns
        if key is None:
            return rng.sample(scns, n)
        groups = {}
        for s in scns:
            groups.setdefault(json.dumps(key(s)), []).append(s)
        for g in groups.values():
            rng.shuffle(g)
        names = sorted(groups)
        rng.shuffle(names)
        out = []
        while len(out) < n and any(groups.values()):
            for g in names:
                if groups[g] and len(out) < n:
                    out.append(groups[g].pop())
        return out

    def replay(self, scns, **kw):
        recs = vlib.run_workers(self.pid.lower() if "mod" not in kw else kw.pop("mod"), scns, self.work, log=self.log, **kw)
        self.log(f"replayed {len(scns)} scenarios -> {len(recs)} records")
        return recs

    def validate(self, module, recs, label="", heap="4g", workers=vlib.NCPU, split=None, invs="Inv"):
        """TLC decides every record with spec/<module>.tla; failed clauses become violations."""
        if not recs:
            raise vlib.SpecError("no records")
        ids = set()
        byid = {}
        for k, r in enumerate(recs):
            if r["id"] in ids:
                r["id"] = f"{r['id']}~{k}"
            ids.add(r["id"])
            byid[r["id"]] = r
        self.traces += len(recs)
        good = []
        for r in recs:
            if r.get("kind") == "crash":
                # no observation to judge: the operation itself failed
                self.violation(r["id"], ["NoException"], r)
            else:
                good.append(r)
        if not good:
            return
        nf = 0
        nparts = split or 1
        for part in range(nparts):
            sub = good[part::nparts]
            if not sub:
                continue
            p = os.path.join(self.work, f"trace_{module}_{label}_{part}_{len(self.samples)}.ndjson")
            with open(p, "w") as f:
                for r in sub:
                    f.write(json.dumps({k: v for k, v in r.items() if k not in ("err", "scn")}) + "\n")
            r = vlib.tlc(module, "INIT Init\nNEXT Next\nINVARIANTS " + invs + "\nCHECK_DEADLOCK FALSE\n", self.work, env={"TRACE": p}, allow_fail=True, heap=heap, workers=workers)
            self.states += r.distinct
            self.trans += r.generated
            fails = vlib.scn_prints(r, "FAIL ")
            seen = set()
            for f_ in fails:
                if f_["id"] in seen:
                    continue
                seen.add(f_["id"])
                nf += 1
                self.violation(f_["id"], f_["c"], byid.get(f_["id"], {}))
            if not r.ok:
                tail = "\n".join(l for l in r.out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[-3000:]
                if "unsupported JSON" in tail:
                    raise vlib.SpecError("bad trace file:\n" + tail)
                if "valuating" in tail or "ttempted" in tail or "In applying" in tail or "TLC threw" in tail:
                    # the observation is outside the specification's domain (e.g. wrong rank): rejected
                    self.violation(f"{module}-eval", ["ObservationOutsideSpecification"], dict(log=tail))
                else:
                    raise vlib.SpecError("trace validation failed to run:\n" + tail)
            elif r.distinct < len(sub):
                raise vlib.SpecError(f"{module}: only {r.distinct} of {len(sub)} records were judged")
            self.log(f"TLC {module} judged {len(sub)} records ({nf} rejected), {r.wall:.1f}s")
        self.samples.extend([r["id"] + ": " + json.dumps(r["scn"])[:200] for r in good[:: max(1, len(good) // 4)][:4]])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    pid = a.pid
    base = os.path.join(vlib.VERIF, ".work")
    os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "_", dir=base)
    ctx = Ctx(pid, a.tier, seed, work)
    rc = 3
    try:
        ok, msg = vlib.ensure_build(ctx.log)
        mod = importlib.import_module("checks." + pid.lower())
        if not ok:
            # a tree that does not build cannot satisfy the property
            ctx.violation("build", ["Builds"], dict(log=msg))
        else:
            mod.check(ctx)
        rc = finish(ctx, mod)
    except vlib.SpecError as e:
        print("INFRASTRUCTURE:", e)
        rc = 3
    finally:
        if os.environ.get("VERIF_KEEP") != "1":
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def finish(ctx, mod):
    known = vlib.load_findings(ctx.pid)
    new, seenknown = [], {}
    for v in ctx.violations:
        tag = v["rec"].get("finding") if isinstance(v["rec"], dict) else None
        hit = None
        for m, text in known:
            if tag == m:
                hit = (m, text)
        if hit:
            seenknown[hit[0]] = hit[1]
        else:
            new.append(v)
    for m, text in sorted(seenknown.items()):
        print(f"KNOWN-FINDING: property={ctx.pid} {m}: {text}")
    ev = dict(
        property=ctx.pid, tier=ctx.tier, seed=ctx.seed, level=mod.LEVEL,
        coverage=dict(states=ctx.states, transitions=ctx.trans, traces_validated_against_impl=ctx.traces, samples=ctx.samples[:12] or ["none"]),
        assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - ctx.t0, 1), violations=len(new),
    )
    os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(vlib.VERIF, "evidence", ctx.pid + ".json"), "w"), indent=1)
    if new:
        rp = os.path.join(vlib.VERIF, "evidence", f"{ctx.pid}.violations.json")
        json.dump(new[:50], open(rp, "w"), indent=1, default=str)
        for v in new[:8]:
            print("  rejected:", v["id"], v["clauses"], json.dumps(v["rec"].get("scn", ""))[:300], str(v["rec"].get("err", v["rec"].get("log", "")))[-400:])
        print(f"VIOLATION property={ctx.pid} replay={rp}")
        return 1
    ctx.log(f"OK: {ctx.traces} records conform, {ctx.states} states")
    return 0


main()
