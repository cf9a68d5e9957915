"""Bounded exhaustive exploration harness.

A property module (mc/props/cNN.py) declares *spaces*.  A space is a finite,
completely enumerated set of cases together with the function that runs one case
against the real code in /repo and compares it with an oracle.  Nothing is
sampled: every case of every declared space is executed, sharded over forked
workers.  A case that contradicts its oracle raises Violation; so does a library
exception where the oracle expects a value, and a call that does not return.
"""
from __future__ import annotations

import hashlib
import json
import math
import os
import pickle
import base64
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))


class Violation(Exception):
    """The code contradicted the oracle.  `key` identifies the failing input, call
    site or history (for the known-findings file)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class CaseTimeout(Exception):
    pass


class _Trivial:
    def __repr__(self):
        return "TRIVIAL"


TRIVIAL = _Trivial()      # outcome of a case that exercised nothing (guard not met)


class Space:
    """name; cases: callable -> iterable of picklable cases, simplest first;
    fn(case) -> outcome; key(case) -> string naming the case; limit: seconds one
    case may take; states/transitions: optional counters for model-checking spaces
    (fn may return Outcome with extra counters)."""

    def __init__(self, name, cases, fn, key=None, limit=30.0, serial=False, rule="", share=True):
        self.name = name
        self.cases = cases
        self.fn = fn
        self.key = key
        self.limit = limit
        self.serial = serial
        self.rule = rule


class Outcome:
    """Outcome with counters, for spaces in which a single case is itself an
    exploration (a start state, a harness of threads, a history)."""
    __slots__ = ("value", "states", "transitions", "traces", "evals", "outcomes")

    def __init__(self, value, states=0, transitions=0, traces=0, evals=0, outcomes=0):
        self.value = value
        self.states = states
        self.transitions = transitions
        self.traces = traces
        self.evals = evals
        self.outcomes = outcomes


def _h(x):
    return int.from_bytes(hashlib.blake2b(x.encode("utf-8", "replace"), digest_size=8).digest(), "little")


def canon(v, digits=9):
    """Canonical text of an outcome, floats to `digits` significant digits."""
    if isinstance(v, bool) or v is None:
        return repr(v)
    if isinstance(v, float):
        return "%.*g" % (digits, v)
    if isinstance(v, complex):
        return "%.*g,%.*gj" % (digits, v.real, digits, v.imag)
    if isinstance(v, (list, tuple)):
        return "[" + " ".join(canon(i, digits) for i in v) + "]"
    if isinstance(v, dict):
        return "{" + " ".join(str(k) + ":" + canon(v[k], digits) for k in sorted(v, key=str)) + "}"
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            return canon(v.tolist(), digits)
        if isinstance(v, np.generic):
            return canon(v.item(), digits)
    except ImportError:
        pass
    return str(v)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_shard(space, shard, nshards, deadline, maxviol=40):
    res = {"evals": 0, "trivial": 0, "hashes": set(), "viol": [], "nviol": 0, "samples": [],
           "states": 0, "transitions": 0, "traces": 0, "xout": 0, "cut": False, "cases": 0}
    signal.signal(signal.SIGALRM, _alarm)
    fn = space.fn
    keys = {}
    timeouts = 0
    setit = signal.setitimer
    REAL = signal.ITIMER_REAL
    for i, case in enumerate(space.cases()):
        if i % nshards != shard:
            continue
        if not (res["cases"] & 63) and time.time() > deadline:
            res["cut"] = True
            break
        res["cases"] += 1
        try:
            setit(REAL, space.limit, 2.0)     # re-fires: an alarm swallowed by a bare except comes again
            try:
                out = fn(case)
            finally:
                setit(REAL, 0)
        except Violation as v:
            v_msg, v_key = v.msg, v.key
        except CaseTimeout:
            v_msg, v_key = "call did not return within %gs" % space.limit, None
            timeouts += 1
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join("%s:%s" % (os.path.basename(f.filename), f.name) for f in tb[-3:])
            v_msg, v_key = "unexpected %s: %s (%s)" % (type(e).__name__, str(e)[:300], where), None
        else:
            v_msg = None
        if v_msg is not None:
            res["evals"] += 1
            res["nviol"] += 1
            k = v_key or (space.key(case) if space.key else canon(case, 12))
            k = space.name + "|" + k
            if k not in keys and len(keys) < 4000:
                keys[k] = True
                res["viol"].append((i, k, v_msg, case if len(res["viol"]) < maxviol else None))
            if timeouts >= 3:
                res["cut"] = True
                break
            continue
        if isinstance(out, Outcome):
            res["evals"] += out.evals or 1
            res["states"] += out.states
            res["transitions"] += out.transitions
            res["traces"] += out.traces
            res["xout"] += out.outcomes
            out = out.value
        else:
            res["evals"] += 1
        if out is TRIVIAL:
            res["trivial"] += 1
        else:
            c = canon(out)
            if len(res["hashes"]) < 3000000:
                res["hashes"].add(_h(c))
            if len(res["samples"]) < 2 and shard == 0:
                res["samples"].append({"space": space.name, "case": _short(case), "outcome": c[:200]})
    return res


def _short(case):
    return canon(case, 6)[:300]


def _merge(a, b):
    for k in ("evals", "trivial", "nviol", "states", "transitions", "traces", "xout", "cases"):
        a[k] += b[k]
    a["hashes"] |= b["hashes"]
    a["viol"] += b["viol"]
    a["samples"] += b["samples"]
    a["cut"] = a["cut"] or b["cut"]


def _child(spaces, shard, n, deadline, path):
    code = 0
    try:
        out = {}
        for s in spaces:
            if s.serial and shard != s._home % n:
                continue
            if s.serial:
                out[s.name] = run_shard(s, 0, 1, deadline)
            else:
                out[s.name] = run_shard(s, shard, n, deadline)
        with open(path, "wb") as f:
            pickle.dump(out, f, protocol=4)
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def run_spaces(spaces, deadline, nworkers=None):
    n = nworkers or WORKERS
    for i, s in enumerate(spaces):
        s._home = i
    import tempfile
    import shutil
    tmp = tempfile.mkdtemp(prefix="mc-run-")
    try:
        pids = {}
        sys.stdout.flush()
        sys.stderr.flush()
        for k in range(n):
            p = os.path.join(tmp, "%d" % k)
            pid = os.fork()
            if pid == 0:
                _child(spaces, k, n, deadline, p)
            pids[pid] = (k, p)
        results = {}
        bad = []
        while pids:
            pid, st = os.wait()
            if pid not in pids:
                continue
            k, p = pids.pop(pid)
            if st != 0:
                bad.append((k, st))
                continue
            with open(p, "rb") as f:
                part = pickle.load(f)
            for name, r in part.items():
                if name in results:
                    _merge(results[name], r)
                else:
                    results[name] = r
        return results, bad
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# ------------------------------------------------------------------ comparisons
def close(a, b, rtol=1e-9, atol=0.0):
    if a == b:
        return True
    try:
        if math.isnan(a) and math.isnan(b):
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
    except TypeError:
        pass
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def same(a, b, rtol=1e-9, atol=0.0):
    """Structural closeness of nested results."""
    if isinstance(a, (str, bool, type(None))) or isinstance(b, (str, bool, type(None))):
        return a == b
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    la, lb = hasattr(a, "__len__"), hasattr(b, "__len__")
    if la or lb:
        return la and lb and len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    try:
        return bool(close(a, b, rtol, atol))
    except Exception:
        return a == b


def expect(got, want, rtol=1e-9, atol=0.0, what="", key=None):
    if not same(got, want, rtol, atol):
        raise Violation("%s: got %s, expected %s" % (what, canon(got, 15)[:400], canon(want, 15)[:400]), key)
    return got


def attempt(f, *a, **k):
    """(True, value) or (False, exception class name)."""
    try:
        return True, f(*a, **k)
    except (CaseTimeout, Violation):
        raise
    except Exception as e:
        return False, type(e).__name__


def ev(f):
    """f() or the exception's type name as a string outcome."""
    ok, v = attempt(f)
    return v if ok else "!" + v


# ------------------------------------------------------------------ grids
def logspace(a, b, n):
    la, lb = math.log(a), math.log(b)
    if n == 1:
        return [a]
    return [math.exp(la + (lb - la) * i / (n - 1)) for i in range(n)]


def linspace(a, b, n):
    if n == 1:
        return [a]
    return [a + (b - a) * i / (n - 1) for i in range(n)]


def around(*xs, eps=(1e-9, 1e-3)):
    out = []
    for x in xs:
        for e in reversed(eps):
            out.append(x * (1 - e) if x else -e)
        out.append(x)
        for e in eps:
            out.append(x * (1 + e) if x else e)
    return out


def uniq(xs):
    out = []
    seen = set()
    for x in xs:
        if x not in seen:
            seen.add(x)
            out.append(x)
    return out


def product_cases(*dims):
    import itertools
    return lambda: itertools.product(*dims)
