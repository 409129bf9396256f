"""Shared machinery: build, TLC runs, worker pool, verdicts, evidence."""
import os, sys, json, subprocess, hashlib, time, shutil, tempfile, re, random, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
NCPU = max(1, min(8, os.cpu_count() or 1))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def env_base():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="", TORCHDYNAMO_DISABLE="1")
    e.pop("TORCH_HARMONICS_DISTRIBUTED_DEBUG", None)
    return e


# ------------------------------------------------------------------------------------------- build
def build_is_current():
    sums = os.path.join(REPO, "build", ".sources.sha256")
    if not os.path.exists(sums):
        return False
    recorded = {}
    for line in open(sums):
        p = line.split(None, 1)
        if len(p) == 2:
            recorded[p[1].strip().lstrip("*").lstrip("./")] = p[0]
    if not recorded:
        return False
    now = {}
    top = os.path.join(REPO, "torch_harmonics")
    for root, dirs, files in os.walk(top):
        for f in files:
            if f.endswith((".cpp", ".h", ".cc", ".hpp")):
                full = os.path.join(root, f)
                now[os.path.relpath(full, REPO)] = hashlib.sha256(open(full, "rb").read()).hexdigest()
    if now != recorded:
        return False
    so = [f for d in ("torch_harmonics/disco", "torch_harmonics/attention", ".") for f in os.listdir(os.path.join(REPO, d)) if f.endswith(".so")]
    return len(so) >= 4


def ensure_build(log):
    """Compiled kernels must correspond to the working tree.  Returns (ok, message)."""
    try:
        cur = build_is_current()
    except Exception as e:  # pragma: no cover
        cur = False
    if cur:
        log("build: compiled sources unchanged")
        return True, ""
    t = time.time()
    for attempt in range(2):
        p = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
    log(f"build: rebuilt in {time.time()-t:.0f}s rc={p.returncode}")
    return p.returncode == 0, p.stdout[-3000:]


def openmp_build(work, log):
    """A scratch copy of the working tree built with the library's OpenMP option (off in the default build): there the
    parallel loops of the compiled kernels really run on several threads.  Returns its path or None."""
    d = os.path.join(work, "omp")
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "build", "*.so", "docs", "images", "notebooks"))
    e = env_base()
    e.update(TORCH_HARMONICS_ENABLE_OPENMP="1", SETUPTOOLS_SCM_PRETEND_VERSION="0.9.3", MAX_JOBS="8", USE_NINJA="1", HOME="/root", PATH="/opt/venv/bin:" + os.environ.get("PATH", ""))
    t = time.time()
    p = subprocess.run([PY, "setup.py", "build_ext", "--inplace"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log(f"OpenMP build in {time.time()-t:.0f}s rc={p.returncode}")
    return d if p.returncode == 0 else None


# --------------------------------------------------------------------------------------------- TLC
class TlcResult:
    pass


def tlc(module, cfg, work, env=None, workers=NCPU, extra=(), timeout=800, heap="3g", allow_fail=False, defs=None):
    """Run TLC on spec/<module>.tla with configuration text cfg."""
    d = os.path.join(work, f"tlc_{module}_{int(time.time()*1000)%10**9}_{random.randrange(10**6)}")
    os.makedirs(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
    if defs:
        mc = "MC" + module
        body = "\n".join(f"def_{k} == {v}" for k, v in defs.items())
        open(os.path.join(d, mc + ".tla"), "w").write(f"---- MODULE {mc} ----\nEXTENDS {module}\n{body}\n====\n")
        cfg = cfg + "\nCONSTANTS\n" + "\n".join(f" {k} <- def_{k}" for k in defs) + "\n"
        module = mc
    open(os.path.join(d, module + ".cfg"), "w").write(cfg)
    e = env_base()
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-config", module + ".cfg", *extra, module + ".tla"]
    t = time.time()
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    r = TlcResult()
    r.out, r.rc, r.wall, r.dir = p.stdout, p.returncode, time.time() - t, d
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", p.stdout)
    r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    r.prints = []
    for line in p.stdout.splitlines():
        if line.startswith('"') and line.endswith('"'):
            try:
                r.prints.append(json.loads(line))
            except Exception:
                pass
    r.ok = p.returncode == 0
    if not r.ok and not allow_fail:
        raise SpecError(f"TLC failed on {module} rc={p.returncode}\n" + "\n".join(l for l in p.stdout.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))[-4000:])
    return r


class SpecError(Exception):
    pass


def scn_prints(r, tag="SCN "):
    return [json.loads(s[len(tag):]) for s in r.prints if s.startswith(tag)]


# ------------------------------------------------------------------------------------- worker pool
def run_workers(pid, scns, work, nworkers=NCPU, per_scn_timeout=120, log=print, threads=1, deadline=None, env=None):
    """run_pool; a scenario that ran out of time on a busy machine gets a second, longer run on its own: only a scenario
    that does not end then either is reported as hanging."""
    recs = run_pool(pid, scns, work, nworkers, per_scn_timeout, log, threads, deadline, env)
    late = [r for r in recs if r.get("kind") == "crash" and r["err"].startswith("hang")]
    if not late:
        return recs
    t0 = time.time()
    for r in late:
        if time.time() - t0 > 240:
            log("not repeated for lack of time:", r["id"])
            recs.remove(r)
            continue
        again = run_pool(pid, [r["scn"]], work, 1, 240, log, max(threads, NCPU // 2), deadline, env)
        if any(a.get("kind") == "crash" for a in again):
            break
        log("slow scenario", r["id"], "repeated on its own")
        recs.remove(r)
        for a in again:
            a["id"] = r["id"] + a["id"][2:]
        recs += again
    return recs


def run_pool(pid, scns, work, nworkers=NCPU, per_scn_timeout=120, log=print, threads=1, deadline=None, env=None):
    """Replays scenarios with props.<pid>.replay in subprocesses.  Every scenario yields >=1 record; a worker that
    dies or hangs yields a record with status 'crash'/'hang' for the scenario it was on."""
    from collections import deque

    todo = [(i, s) for i, s in enumerate(scns)]
    recs = []
    chunks = [deque() for _ in range(min(nworkers, max(1, len(todo))))]
    for j, it in enumerate(todo):
        chunks[j % len(chunks)].append(it)
    procs = [None] * len(chunks)
    e = env_base()
    e["OMP_NUM_THREADS"] = str(threads)
    e["PYTHONPATH"] = os.path.join(VERIF, "harness") + os.pathsep + REPO
    e.update(env or {})

    def start(c):
        if not chunks[c]:
            procs[c] = None
            return
        tag = f"{c}_{random.randrange(10**9)}"
        fin, fout = os.path.join(work, f"in_{tag}.json"), os.path.join(work, f"out_{tag}.ndjson")
        json.dump(list(chunks[c]), open(fin, "w"))
        open(fout, "w").close()
        err = open(os.path.join(work, f"err_{tag}.txt"), "w")
        p = subprocess.Popen([PY, "-W", "ignore", os.path.join(VERIF, "harness", "worker.py"), pid, fin, fout], env=e, cwd=work, stdout=err, stderr=err, start_new_session=True)
        procs[c] = dict(p=p, fout=fout, pos=0, last=time.time(), err=err.name)

    restarts = 0
    for c in range(len(chunks)):
        start(c)
    while any(procs):
        time.sleep(0.05)
        for c, pr in enumerate(procs):
            if not pr:
                continue
            alive = pr["p"].poll() is None
            with open(pr["fout"]) as f:
                f.seek(pr["pos"])
                data = f.read()
            k = data.rfind("\n")
            if k >= 0:
                for line in data[: k + 1].splitlines():
                    m = json.loads(line)
                    recs.extend(m["recs"])
                    while chunks[c] and chunks[c][0][0] <= m["i"]:
                        chunks[c].popleft()
                pr["pos"] += len(data[: k + 1].encode())
                pr["last"] = time.time()
            hang = alive and time.time() - pr["last"] > per_scn_timeout
            if hang:
                os.killpg(pr["p"].pid, signal.SIGKILL)
                pr["p"].wait()
            if hang or (not alive and k < 0):
                if chunks[c]:
                    i, s = chunks[c].popleft()
                    tail = open(pr["err"]).read()[-1500:]
                    recs.append(dict(id=f"s{i}", scn=s, kind="crash", ok=False, err=("hang" if hang else f"worker died rc={pr['p'].returncode}") + ": " + tail))
                    restarts += 1
                    if restarts > 6:
                        log("too many worker crashes; stopping early")
                        chunks[c].clear()
                procs[c] = None
                start(c)
    return recs


# ------------------------------------------------------------------------------------------ verdict
def res_int(err, scale=1.0):
    """scaled residual as an integer for TLC: ceil(err/scale), capped; NaN/inf -> 2e9"""
    import math

    try:
        v = float(err) / float(scale)
    except ZeroDivisionError:
        v = 0.0 if err == 0 else 2e9
    if math.isnan(v) or math.isinf(v):
        return 2000000000
    return int(min(math.ceil(v), 1900000000))


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, "findings", "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out
