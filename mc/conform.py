"""Conformance of the formula modules to the reference model (mc/refmodel/rfluids).

The reference model is a transcription of the reviewed formulas that lives in /verif and
never reads /repo.  For each public function a finite lattice of calls is enumerated:
realistic base calls (mc/seeds.json), every discrete option combination on them, every
single and paired move of a numeric argument through a grid of factors, through every
numeric constant which the current source or the model compares something with (at, just
below, just above), and through zero.  Every call is replayed on the code in /repo and on
the model; values must agree.  Moves of an argument by 1e-12 on the model decide whether
a point is numerically ill-conditioned, in which case it proves nothing either way."""
from __future__ import annotations

import ast
import importlib
import itertools
import json
import linecache
import math
import os
import signal
import sys
import types

from .core import Space, Violation, TRIVIAL, CaseTimeout, canon, same, uniq
from .grid import _tree, _numbers, harvest, spread

HERE = os.path.dirname(os.path.abspath(__file__))
if os.path.join(HERE, "refmodel") not in sys.path:
    sys.path.insert(0, os.path.join(HERE, "refmodel"))

_seeds = None
_costs = None
FACT = (0.1, 0.3, 0.7, 0.93, 1.08, 1.45, 3.0, 10.0)
PAIR = (0.4, 0.9, 1.1, 2.5)


def seeds():
    global _seeds
    if _seeds is None:
        _seeds = json.load(open(os.path.join(HERE, "seeds.json")))
    return _seeds


def costs():
    global _costs
    if _costs is None:
        p = os.path.join(HERE, "costs.json")
        _costs = json.load(open(p)) if os.path.exists(p) else {}
    return _costs


def dec(v):
    if isinstance(v, dict):
        return tuple(dec(i) for i in v["t"])
    if isinstance(v, list):
        return [dec(i) for i in v]
    return v


def copyv(v):
    if isinstance(v, list):
        return [copyv(i) for i in v]
    return v


def cur(key):
    m, n = key.rsplit(".", 1)
    return getattr(importlib.import_module("fluids." + m), n, None)


def ref(key):
    m, n = key.rsplit(".", 1)
    return getattr(importlib.import_module("rfluids." + m), n)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def ref_harvest(f, depth=3):
    """harvest() for the reference model (its modules are named rfluids.*)."""
    out = []
    strs = set()
    seen = set()

    def visit(f, d):
        m = sys.modules.get(getattr(f, "__module__", None))
        name = getattr(f, "__name__", None)
        if m is None or name is None or not (m.__name__.startswith("rfluids") or m.__name__.startswith("fluids")):
            return
        if ".numerics" in m.__name__ or (m.__name__, name) in seen:
            return
        seen.add((m.__name__, name))
        node = _tree(m).get(name)
        if node is None:
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Compare):
                _numbers(n, m, out)
                if d == depth:
                    for c in ast.walk(n):
                        if isinstance(c, ast.Constant) and isinstance(c.value, str) and len(c.value) < 60:
                            strs.add(c.value)
                        elif isinstance(c, ast.Name):
                            v = getattr(m, c.id, None)
                            if isinstance(v, str):
                                strs.add(v)
                            elif isinstance(v, (list, tuple, set, frozenset, dict)) and len(v) < 60:
                                strs.update(i for i in v if isinstance(i, str))
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Name) and fn.id in ("min", "max", "isclose", "interp"):
                    for a in n.args:
                        _numbers(a, m, out)
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                v = getattr(m, n.id, None)
                if d == depth and isinstance(v, dict) and len(v) < 80:
                    strs.update(i for i in v if isinstance(i, str))
                if d > 0:
                    if isinstance(v, types.FunctionType):
                        visit(v, d - 1)
                    elif isinstance(v, dict) and len(v) < 80:
                        for w in v.values():
                            if callable(w):
                                visit(w, d - 1)
                            elif isinstance(w, (list, tuple)):
                                for u in w:
                                    if callable(u):
                                        visit(u, d - 1)
    visit(f, depth)
    return sorted({x for x in out if math.isfinite(x)}), sorted(strs)


def calls(key, cap):
    """Deterministic finite list of keyword dictionaries, simplest first, for one function."""
    base = [{k: dec(v) for k, v in s.items()} for s in seeds()[key]]
    f, r = cur(key), ref(key)
    ann = getattr(r, "__annotations__", {})
    for b in base:
        for k, v in b.items():
            # a whole number given for a continuous argument moves continuously
            if isinstance(v, int) and not isinstance(v, bool) and "float" in str(ann.get(k, "")) and "int" not in str(ann.get(k, "")):
                b[k] = float(v)
    consts, strs = ref_harvest(r)
    c2, s2 = ref_harvest(f) if f is not None else ([], [])
    consts = sorted(set(consts) | set(c2))
    strs = sorted(set(strs) | set(s2))
    names = list(base[0])
    vals = {n: uniq_any([s[n] for s in base if n in s]) for n in names}
    groups = []           # list of lists of dicts, in priority order; sampled deterministically if over cap
    groups.append(base)
    disc = {}
    for n in names:
        v = vals[n]
        d = []
        if any(isinstance(x, str) for x in v):
            d = uniq_any([x for x in v if x is None or isinstance(x, str)] + strs)
        elif any(isinstance(x, bool) for x in v):
            d = [True, False] + ([None] if None in v else [])
        if d:
            disc[n] = d
    g = []
    for s in base[:8]:
        for n, d in disc.items():
            for x in d:
                g.append(dict(s, **{n: x}))
    groups.append(g)
    g = []
    if len(disc) > 1:
        tot = math.prod(len(d) for d in disc.values())
        if tot <= 600:
            for s in base[:2]:
                for combo in itertools.product(*disc.values()):
                    g.append(dict(s, **dict(zip(disc, combo))))
    groups.append(g)
    # single numeric moves
    fac, con, zero, other, lists = [], [], [], [], []
    for bi, s in enumerate(base):
        for n in names:
            v = s.get(n)
            if isnum(v):
                isint = all(isinstance(x, int) or x is None for x in vals[n] if not isinstance(x, bool)) and isinstance(v, int)
                if isint:
                    for d in (-2, -1, 1, 2, 3):
                        fac.append(dict(s, **{n: v + d}))
                    if bi < 3:
                        for c in consts:
                            if c == int(c) and abs(c) < 1000:
                                con.append(dict(s, **{n: int(c)}))
                else:
                    for k in FACT:
                        fac.append(dict(s, **{n: v * k}))
                    if v:
                        a = abs(v)
                        for c in spread(consts, a * 1e-6, a * 1e6, rel=1e-6, cap=80):
                            con.append(dict(s, **{n: math.copysign(c, v)}))
                    zero.append(dict(s, **{n: 0.0}))
                    if v and bi < 2:
                        zero.append(dict(s, **{n: -v}))
                for x in vals[n]:
                    if x != v:
                        other.append(dict(s, **{n: x}))
            elif isinstance(v, list) and v:
                flat = all(isnum(x) for x in v)
                if flat:
                    for k in (0.5, 2.0):
                        lists.append(dict(s, **{n: [x * k for x in v]}))
                    for i in (0, len(v) // 2, len(v) - 1):
                        for k in (0.8, 1.1):
                            lists.append(dict(s, **{n: [x * k if j == i else x for j, x in enumerate(v)]}))
                    lists.append(dict(s, **{n: v[::-1]}))
                    if len(v) > 1:
                        lists.append(dict(s, **{n: v[:-1]}))
            else:
                for x in vals[n]:
                    if x != v:
                        other.append(dict(s, **{n: x}))
    groups += [fac, con, other, lists, zero]
    pair = []
    for s in base[:4]:
        ns = [n for n in names if isnum(s.get(n)) and s.get(n) and isinstance(s.get(n), float)]
        for a, b in itertools.combinations(ns, 2):
            for x in PAIR:
                for y in PAIR:
                    pair.append(dict(s, **{a: s[a] * x, b: s[b] * y}))
    groups.append(pair)
    dn = []
    for s in base[:3]:
        ns = [n for n in names if isnum(s.get(n)) and s.get(n)]
        for n, d in disc.items():
            for x in d:
                for m in ns:
                    for k in (0.2, 0.8, 1.3, 6.0):
                        if isinstance(s[m], float):
                            dn.append(dict(s, **{n: x, m: s[m] * k}))
                    if isinstance(s[m], float):
                        for c in spread(consts, abs(s[m]) * 1e-3, abs(s[m]) * 1e3, exact=False, rel=1e-6, cap=25):
                            dn.append(dict(s, **{n: x, m: math.copysign(c, s[m])}))
    groups.append(dn)
    # ratios and products of two arguments at the constants (derived quantities such as rc/D or Re)
    rat, wide = [], []
    for s in base[:3]:
        ns = [n for n in names if isinstance(s.get(n), float) and s.get(n)]
        for a, b in itertools.permutations(ns, 2):
            q = abs(s[a] / s[b])
            if 1e-4 < q < 1e4:
                for c in spread([c for c in consts if c > 0], q * 1e-2, q * 1e2, exact=False, rel=1e-4, cap=12):
                    rat.append(dict(s, **{a: math.copysign(c * abs(s[b]), s[a])}))
        for n in ns:
            for e in range(-18, 19):
                wide.append(dict(s, **{n: s[n] * 10.0 ** (e / 6.0)}))
    rat2 = []
    for s in base[:2]:
        ns = [n for n in names if isinstance(s.get(n), float) and s.get(n)]
        ints = [n for n in names if isinstance(s.get(n), int) and not isinstance(s.get(n), bool)]
        for a, b in itertools.permutations(ns, 2):
            q = abs(s[a] / s[b])
            if 1e-4 < q < 1e4:
                for c in spread([c for c in consts if c > 0], q * 1e-2, q * 1e2, exact=False, rel=1e-3, cap=4):
                    for o in ns + ints:
                        if o in (a, b):
                            continue
                        v = s[o]
                        pts = [v * 0.3, v * 3.0] + spread(consts, abs(v) * 0.1, abs(v) * 10.0, exact=False, rel=1e-3, cap=5)
                        for x in pts:
                            x = int(round(x)) if o in ints and v > 20 else x
                            rat2.append(dict(s, **{a: math.copysign(c * abs(s[b]), s[a]), o: x}))
    groups += [rat, wide, rat2]
    # two constants at once: corners where two thresholds meet
    cc = []
    for s in base[:2]:
        ns = [n for n in names if isinstance(s.get(n), float) and s.get(n)]
        pts = {n: spread(consts, abs(s[n]) * 1e-3, abs(s[n]) * 1e3, exact=False, rel=1e-6, cap=12) for n in ns}
        for a, b in itertools.combinations(ns, 2):
            for x in pts[a]:
                for y in pts[b]:
                    cc.append(dict(s, **{a: x, b: y}))
    groups.append(cc)
    seen = set()
    out = []
    left = cap
    # each group gets at least an equal share of what is left
    for i, g in enumerate(groups):
        u = []
        lim = max(60000, 30 * cap)
        if len(g) > lim:        # far more than can be kept: thin first
            st = len(g) / float(lim)
            g = [g[int(j * st)] for j in range(lim)]
        for c in g:
            k = repr(sorted(c.items()))
            if k not in seen:
                seen.add(k)
                u.append(c)
        share = max(left // 2, left // (len(groups) - i)) if i else len(u)
        if len(u) > share:
            st = len(u) / float(max(share, 1))
            u = [u[int(j * st)] for j in range(max(share, 0))]
        out += u
        left = max(left - len(u), 0)
    return out


def uniq_any(l):
    out = []
    for x in l:
        if not any(type(x) is type(y) and x == y for y in out):
            out.append(x)
    return out


SCAL = (int, float, complex, str, bool, type(None))


def plain(v, depth=0):
    """Comparable form of a result: numbers, lists, dictionaries of an object's data."""
    if isinstance(v, SCAL):
        return v
    t = type(v).__module__
    if t.startswith("numpy"):
        return plain(v.tolist(), depth)
    if isinstance(v, (list, tuple)):
        return [plain(i, depth + 1) for i in v]
    if isinstance(v, dict):
        return {str(k): plain(w, depth + 1) for k, w in v.items()}
    if t.startswith("fluids") or t.startswith("rfluids"):
        if depth > 2:
            return type(v).__name__
        d = {}
        names = list(getattr(v, "__dict__", {}))
        for c in type(v).__mro__:
            sl = c.__dict__.get("__slots__", ())
            names += [sl] if isinstance(sl, str) else list(sl)
        for n in names:
            if n.startswith("_"):
                continue
            try:
                w = getattr(v, n)
            except Exception:
                continue
            if callable(w):
                continue
            d[n] = plain(w, depth + 1)
        return d
    if callable(v):
        return "<callable>"
    return str(v)


def subset(got, want, rtol, atol):
    """same(), with an object allowed to carry extra attributes."""
    if isinstance(want, dict) and isinstance(got, dict):
        return all(k in got and subset(got[k], w, rtol, atol) for k, w in want.items())
    if isinstance(want, list) and isinstance(got, list) and len(got) == len(want):
        return all(subset(g, w, rtol, atol) for g, w in zip(got, want))
    if isinstance(want, float) and want != want:
        return True
    return same(got, want, rtol, atol)


def deliberate(e):
    """The exception was raised by a raise statement of the library, not by arithmetic."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    line = linecache.getline(tb.tb_frame.f_code.co_filename, tb.tb_lineno).strip()
    return line.startswith("raise") and "Unconverged" not in type(e).__name__ and type(e).__name__ not in ("SamePointError", "OscillationError")


def hasnan(v):
    if isinstance(v, float):
        return v != v or abs(v) == math.inf
    if isinstance(v, complex):
        return True
    if isinstance(v, list):
        return any(hasnan(i) for i in v)
    return False


def maxdiff(a, b):
    """Largest relative difference of the numbers of two results (None: shapes differ)."""
    if isnum(a) and isnum(b):
        if a == b:
            return 0.0
        if a != a or b != b:
            return math.inf
        return abs(a - b) / max(abs(a), abs(b), 1e-300)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return max([maxdiff(x, y) for x, y in zip(a, b)] or [0.0])
    if isinstance(a, dict) and isinstance(b, dict):
        return max([maxdiff(a[k], b[k]) for k in a if k in b] or [0.0])
    return 0.0 if a == b else math.inf


RTOL = 1e-7
OVR = {}          # key -> (rtol, atol)
SKIP = {"jet_pump.liquid_jet_pump",          # restarts from random guesses: checked by its residuals in C40
        "friction.nearest_material_roughness", "friction.material_roughness", "core.Engauge_2d_parser"}


def compare(key, kw):
    f, r = cur(key), ref(key)
    if f is None:
        raise Violation("fluids.%s no longer exists" % key)
    rtol, atol = OVR.get(key, (RTOL, 1e-300))
    rkw = {k: copyv(v) for k, v in kw.items()}
    try:
        signal.setitimer(signal.ITIMER_REAL, 2.0, 0.5)
        want = plain(r(**rkw))
        rexc = None
        signal.setitimer(signal.ITIMER_REAL, 20.0, 2.0)
    except CaseTimeout:
        signal.setitimer(signal.ITIMER_REAL, 20.0, 2.0)
        return TRIVIAL            # the model itself does not answer in two seconds
    except Exception as e:
        signal.setitimer(signal.ITIMER_REAL, 20.0, 2.0)
        want, rexc = None, e
        rej = deliberate(e)
    if rexc is None and hasnan(want):
        return TRIVIAL
    if rexc is not None and not rej:
        return TRIVIAL
    try:
        got = plain(f(**{k: copyv(v) for k, v in kw.items()}))
        exc = None
    except (CaseTimeout, Violation):
        raise
    except Exception as e:
        got, exc = None, e
    if rexc is not None:
        if exc is not None:
            return "!rejected"
        msg = "%s(%s): got %s, the model rejects the call (%s)" % (key, show(kw), canon(got, 12)[:200], str(rexc)[:80])
    elif exc is None:
        if subset(got, want, rtol, atol):
            return got
        msg = "%s(%s): got %s, model %s" % (key, show(kw), canon(got, 14)[:300], canon(want, 14)[:300])
    else:
        msg = "%s(%s): raised %s: %s, model %s" % (key, show(kw), type(exc).__name__, str(exc)[:120], canon(want, 12)[:200])
    # ill-conditioned point?
    dev = 0.0
    for n, v in kw.items():
        if isinstance(v, float) and v:
            for d in (-1e-12, 1e-12, -1e-11, 1e-11):
                k2 = {a: copyv(b) for a, b in kw.items()}
                k2[n] = v * (1 + d)
                try:
                    w2 = plain(r(**k2))
                except CaseTimeout:
                    raise
                except Exception as e:
                    if rexc is None:
                        return TRIVIAL
                    continue
                if rexc is not None:
                    return TRIVIAL
                if exc is None and subset(got, w2, max(rtol, 1e-7), atol):
                    return TRIVIAL
                if exc is not None:
                    continue
                dev = max(dev, maxdiff(want, w2))
    if exc is None and rexc is None and dev >= 0.1 * maxdiff(got, want):
        return TRIVIAL
    raise Violation(msg, key + " " + canon(kw, 12))


def show(kw):
    return ", ".join("%s=%r" % i for i in kw.items())[:400]


def public(key):
    m, n = key.rsplit(".", 1)
    return not n.startswith("_") and hasattr(importlib.import_module("rfluids." + m), n)


def conform_space(name, modules=(), only=None, skip=(), cap=None, tier="quick", limit=30.0):
    """One space over all public functions of the modules (or those in `only`)."""
    keys = [k for k in sorted(seeds()) if public(k) and k not in skip and k not in SKIP and
            (k.rsplit(".", 1)[0] in modules if only is None else k in only or k.rsplit(".", 1)[1] in only and k.rsplit(".", 1)[0] in modules)]
    n = cap or (5000 if tier == "quick" else 40000)
    budget = 8.0 if tier == "quick" else 80.0

    def cases():
        for k in keys:
            t = costs().get(k, 1e-5)
            for kw in calls(k, int(max(30, min(n, budget / t)))):
                yield k, kw

    return Space(name, cases, lambda c: compare(*c), key=lambda c: c[0] + " " + canon(c[1], 12), limit=limit,
                 rule="%s: %d functions x declared base calls x options x numeric moves, replayed on the reference model" % (name, len(keys)))
