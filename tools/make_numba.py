"""Run once on the reviewed tree: which public functions compile through fluids.numba for which argument patterns, and agree with
the interpreted function on the harvested calls.  Writes mc/numba.json: {key: {"sigs": [pattern, ...], "cost": seconds}}."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("MC_REPO", "/repo"), ROOT]
os.environ["NUMBA_FUNCTION_CACHE_SIZE"] = "0"


class TO(Exception):
    pass


def alarm(*a):
    raise TO()


def one(key):
    from mc import conform, nb
    t0 = time.time()
    out = {}
    log = []
    signal.signal(signal.SIGALRM, alarm)
    f, g = conform.cur(key), nb.compiled(key)
    if f is None or g is None:
        return key, None, "absent"
    for kw in conform.calls(key, 150):
        p = nb.pattern(kw)
        o = out.setdefault(p, {"n": 0, "ok": 0, "err": None, "t": 0.0})
        if o["err"] or o["n"] >= 12 or len(out) > 12:
            continue
        signal.alarm(100)
        t = time.time()
        try:
            bad, said = nb.check(key, kw)
            signal.alarm(0)
            if said:
                o["t"] += time.time() - t
                o["n"] += 1
            if not bad:
                o["ok"] += said
            else:
                log.append("%r: %s" % (kw, bad))
                if "Error:" in bad:
                    o["err"] = bad
        except TO:
            o["err"] = "timeout"
        except BaseException as x:
            o["err"] = type(x).__name__ + ": " + str(x).replace("\n", " ")[:150]
        finally:
            signal.alarm(0)
    return key, out, log[:3]


if __name__ == "__main__":
    from mc import conform
    keys = sys.argv[2:] or sorted(conform.seeds())
    res = {}
    with mp.get_context("fork").Pool(int(sys.argv[1]), maxtasksperchild=6) as pool:
        for key, out, log in pool.imap_unordered(one, keys, chunksize=1):
            res[key] = {"out": out, "log": log}
            json.dump(res, open("/tmp/x/numba_raw.json", "w"))
