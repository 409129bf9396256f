"""Run a function in a forked child of the (still pristine) worker, so that every history starts from the state right after import."""
import os, pickle, traceback, signal


def forked(fn, *a):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = (True, fn(*a))
            except BaseException:
                out = (False, traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if not data:
        raise RuntimeError(f"child died with status {st}")
    ok, out = pickle.loads(data)
    if not ok:
        raise RuntimeError("in child: " + out)
    return out
