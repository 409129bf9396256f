"""Create and confirm planted bugs.  mk(id, prop, [(file, old, new)...], demo, needs, breaks): applies the edits in a scratch copy, writes
/verif/seeded/<id>/, runs the demonstration on the unchanged and the changed copy and (tests=True) the repository's stable tests."""
import os, subprocess, shutil, json, sys
WT = "/tmp/seedwt"
SEED = os.environ.get("SEED_DIR", "/verif/seeded")
PRE = '''import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.getcwd())
'''
SIM = '''import simdist; simdist.install()
import torch, torch_harmonics as th, torch_harmonics.distributed as thd
def shard(x, dim, n, r):
    return thd.split_tensor_along_dim(x, dim, n)[r].contiguous()
def vals(res):
    for s, v in res:
        if s != "ok": raise v
    return [v for s, v in res]
'''


def sh(cmd, cwd=WT, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="", MAX_JOBS="8", SETUPTOOLS_SCM_PRETEND_VERSION="0.9.3", PATH="/opt/venv/bin:" + os.environ["PATH"])
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
    return p.returncode, p.stdout


def fresh():
    if not os.path.exists(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
    head = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()
    cur = subprocess.check_output(["git", "-C", WT, "rev-parse", "HEAD"], text=True).strip()
    if head != cur:
        shutil.rmtree(WT)
        subprocess.check_call(["cp", "-a", "/repo", WT])
    subprocess.check_call(["git", "-C", WT, "checkout", "-q", "--", "torch_harmonics"])


def build():
    rc, out = sh("/opt/venv/bin/python setup.py build_ext --inplace")
    assert rc == 0, out[-3000:]


def mk(id, prop, edits, demo, needs, breaks, sim=True, tests=True):
    fresh()
    d = f"{SEED}/{id}"
    os.makedirs(d, exist_ok=True)
    cpp = False
    for f, old, new in edits:
        p = f"{WT}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
        cpp |= f.endswith((".h", ".cpp"))
    diff = subprocess.check_output(["git", "-C", WT, "diff", "--", "torch_harmonics"], text=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(PRE + (SIM if sim else "import torch, torch_harmonics as th\n") + demo)
    if sim:
        shutil.copy("/verif/harness/simdist.py", f"{d}/simdist.py")
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    if cpp:
        build()
    rc1, o1 = sh(f"bash {d}/demo.sh")
    tr = None
    if tests:
        rct, ot = sh("/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider -n 8 --timeout=300 --ignore-glob='**/test_distributed_*' tests", env=dict(PYTHONPATH=WT))
        tr = (rct, ot[-300:] if rct else ot.strip().splitlines()[-1])
    fresh()
    if cpp:
        for f, _, _ in edits:
            os.utime(f"{WT}/{f}")
        build()
    rc0, o0 = sh(f"bash {d}/demo.sh")
    print(f"{id}: base rc={rc0} patched rc={rc1} tests={tr}", flush=True)
    if rc0 != 0:
        print("BASE OUT", o0[-1500:])
    if rc1 == 0 or "Error" in o1 and "Assertion" not in o1:
        print("PATCHED OUT", o1[-1500:])
