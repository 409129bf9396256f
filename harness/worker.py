import sys, json, os, traceback, importlib

pid, fin, fout = sys.argv[1:4]
import faulthandler

faulthandler.enable()
import torch

torch.set_num_threads(int(os.environ.get("OMP_NUM_THREADS", "1")))
import simdist

simdist.install()
items = json.load(open(fin))
out = open(fout, "a")


def emit(i, recs):
    out.write(json.dumps(dict(i=i, recs=recs)) + "\n")
    out.flush()


try:
    mod = importlib.import_module("props." + pid)
except BaseException:
    tb = traceback.format_exc()
    for i, s in items:
        emit(i, [dict(id=f"s{i}", scn=s, kind="crash", ok=False, err="import: " + tb[-1500:])])
    sys.exit(0)
for i, s in items:
    try:
        recs = mod.replay(s)
        if isinstance(recs, dict):
            recs = [recs]
        for j, r in enumerate(recs):
            r.setdefault("id", f"s{i}" if len(recs) == 1 else f"s{i}.{j}")
            r.setdefault("scn", s)
            r.setdefault("ok", True)
            r.setdefault("kind", "obs")
            r.setdefault("err", "")
    except BaseException as e:
        recs = [dict(id=f"s{i}", scn=s, kind="crash", ok=False, err=traceback.format_exc()[-1800:])]
    emit(i, recs)
