"""Run once on the reviewed tree: which functions of numba_vectorized broadcast.  Writes the list mc/numba_vec.json."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("MC_REPO", "/repo"), ROOT]
os.environ["NUMBA_FUNCTION_CACHE_SIZE"] = "0"


def alarm(*a):
    raise TimeoutError()


def one(key):
    from mc import conform, nb
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(120)
    t = time.time()
    n = 0
    try:
        if nb.compiled(key, True) is None:
            return key, 0, "absent", 0
        for kw in conform.calls(key, 40):
            for which in ((), (0,)):
                bad, said = nb.check_vec(key, kw, which)
                n += said
                if bad:
                    return key, 0, bad, 0
    except TimeoutError:
        return key, 0, "timeout", 0
    finally:
        signal.alarm(0)
    return key, n, None, time.time() - t


if __name__ == "__main__":
    tab = json.load(open(os.path.join(ROOT, "mc", "numba.json")))
    out = {}
    with mp.get_context("fork").Pool(int(sys.argv[1]), maxtasksperchild=10) as pool:
        for key, n, bad, t in pool.imap_unordered(one, sorted(tab), chunksize=1):
            if n:
                out[key] = round(t, 2)
                json.dump(out, open(os.path.join(ROOT, "mc", "numba_vec.json"), "w"), indent=0, sort_keys=True)
            elif bad:
                print(key, bad[:300], flush=True)
    json.dump(out, open(os.path.join(ROOT, "mc", "numba_vec.json"), "w"), indent=0, sort_keys=True)
    print(len(out), sum(out.values()))
