"""C14: the vectorized interface equals elementwise scalar calls.

For every function of the vectorized module, every pattern of scalar and array arguments
from the set below is called and each element compared with the scalar function's result on
that element's arguments, including every rotation of the elements (the first element must
not decide how the others are represented)."""
import itertools
import math
import types

from ..conform import dec, seeds
from ..core import Outcome, Space, TRIVIAL, Violation, canon, need, same

RULE = ("Functions x (each argument alone as an array; all arguments as arrays; all but one; a 2-D broadcast of two arguments; "
        "lists and tuples instead of arrays; positional and keyword form; every rotation of the element order).")
ASSUMPTIONS = ["points where the scalar function raises are left out; there the vectorized call is only required to raise too",
               "complex results (a power of a negative number, outside the domain of the formula) and functions that return whole lists are left out",
               "arguments that are themselves lists (tables, spectra) have no elementwise meaning and are not varied"]
FAC = (0.5, 0.9, 1.0, 1.1, 2.0)
# ordinary functions of the interface that take or return whole sequences, or need no numbers
WHOLE = (list, set, dict)
SLOW = {"liquid_jet_pump"}       # inconsistent inputs take its solvers seconds


def exported():
    import fluids
    return {n: getattr(fluids, n) for n in dir(fluids) if isinstance(getattr(fluids, n), types.FunctionType)}


def scalar(f, k):
    try:
        return True, f(**k)
    except Exception as e:
        return False, type(e).__name__


def plainv(w):
    """a scalar result the elementwise interface can hold: numbers, text, tuples of them, objects"""
    return not isinstance(w, WHOLE + (complex,)) and not (isinstance(w, tuple) and any(isinstance(i, WHOLE + (complex,)) for i in w))


def numbers(k):
    return [a for a, v in k.items() if type(v) is float and math.isfinite(v)]


def elements(v):
    """the elements of a vectorized result, as a flat list of scalar results"""
    import numpy as np
    if isinstance(v, tuple):
        cols = [elements(i) for i in v]
        return [tuple(c[i] for c in cols) for i in range(len(cols[0]))]
    return np.asarray(v).ravel().tolist()


def equal(got, want):
    if isinstance(want, (list, tuple)) or isinstance(got, (list, tuple)):
        return same(list(got) if isinstance(got, tuple) else got, list(want) if isinstance(want, tuple) else want, 1e-13, 1e-300)
    if isinstance(want, (bool, str)) or want is None:
        return got == want
    if isinstance(want, (int, float)) and isinstance(got, (int, float)):
        return same(float(got), float(want), 1e-13, 1e-300)
    if isinstance(want, complex):
        return abs(got - want) <= 1e-13 * abs(want)
    return got == want or type(got) is type(want)


def spaces(tier):
    import numpy as np
    import fluids
    import fluids.vectorized as V
    funcs = exported()
    n = 3 if tier == "quick" else 12
    table = {}
    for key, ss in seeds().items():
        name = key.rsplit(".", 1)[1]
        if name in funcs and key.rsplit(".", 1)[0] in (funcs[name].__module__.replace("fluids.", "", 1), ):
            sets = [{a: dec(v) for a, v in s.items()} for s in ss]
            sets = [k for k in sets if not any(isinstance(v, (list, dict, tuple)) for v in k.values())]
            if sets:
                table[name] = sets

    def vec(name):
        v = getattr(V, name)
        need(v is not getattr(fluids, name), "fluids.vectorized.%s is not vectorized" % name, name)
        return v

    def run(name, k, arrs, label, shape=None):
        """call with the columns in arrs (name -> list of the element values) and compare each element"""
        m = len(next(iter(arrs.values())))
        rows, want = [], []
        for i in range(m):
            kk = dict(k)
            for a, col in arrs.items():
                kk[a] = col[i]
            ok, w = scalar(funcs[name], kk)
            if ok and plainv(w):
                rows.append(i)
                want.append(w)
        if not rows:
            return 0
        count = 0
        rot = range(len(rows)) if tier != "quick" else sorted({0, len(rows) // 2, len(rows) - 1})
        v = vec(name)
        for r in rot:
            order = rows[r:] + rows[:r]
            w = want[r:] + want[:r]
            kk = dict(k)
            for a, col in arrs.items():
                kk[a] = np.array([col[i] for i in order])
            try:
                got = v(**kk)
            except Exception as e:
                raise Violation("%s %s: raises %s: %s where the scalar calls return %s" % (name, label, type(e).__name__, str(e)[:200], canon(w, 12)[:200]), key=name)
            g = elements(got)
            if len(g) != len(w):
                raise Violation("%s %s: %d elements for %d points" % (name, label, len(g), len(w)), key=name)
            first = " (integer first)" if type(w[0]) is int and any(type(y) is float for y in w) else ""
            for i, (x, y) in enumerate(zip(g, w)):
                if not equal(x, y):
                    raise Violation("%s %s: element %d of the result for %s is %s, the scalar function gives %s" % (
                        name, label, i, {a: kk[a].tolist() for a in arrs}, canon(x, 15)[:200], canon(y, 15)[:200]), key=name + (first if first and x == int(y) else ""))
            count += len(w)
        return count

    def patterns(case):
        name, s = case
        k = table[name][s]
        nums = numbers(k)
        total = 0
        for a in nums:
            total += run(name, k, {a: [k[a] * t for t in FAC]}, "with %s as an array" % a)
        if len(nums) > 1:
            total += run(name, k, {a: [k[a] * t for t in FAC] for a in nums}, "with every argument as an array")
            total += run(name, k, {a: [k[a] * FAC[(i + 2 * j) % len(FAC)] for j in range(len(FAC))] for i, a in enumerate(nums)}, "with every argument as an array")
            for a in nums:
                if len(nums) > 2:
                    total += run(name, k, {b: [k[b] * FAC[(i + j) % 5] for j in range(5)] for i, b in enumerate(nums) if b != a}, "with every argument but %s as an array" % a)
        if not total:
            return TRIVIAL
        return Outcome(name, evals=total)

    def broadcast(case):
        name, s = case
        k = table[name][s]
        nums = numbers(k)
        total = 0
        v = vec(name)
        for a, b in itertools.permutations(nums, 2):
            ca, cb = [k[a] * t for t in (1.0, .9)], [k[b] * t for t in (1.0, 1.1, 1.25)]
            want, bad = [], False
            for x in ca:
                for y in cb:
                    kk = dict(k)
                    kk[a], kk[b] = x, y
                    ok, w = scalar(funcs[name], kk)
                    bad = bad or not ok or not plainv(w)
                    want.append(w)
            if bad:
                continue
            for form in ("column and row", "nested lists", "tuples"):
                kk = dict(k)
                if form == "column and row":
                    kk[a], kk[b] = np.array(ca)[:, None], np.array(cb)
                elif form == "nested lists":
                    kk[a], kk[b] = [[x] for x in ca], list(cb)
                else:
                    kk[a], kk[b] = tuple((x,) for x in ca), tuple(cb)
                got = v(**kk)
                first = got[0] if isinstance(got, tuple) else got
                need(np.shape(first) == (2, 3), "%s with %s (2x1) and %s (3): result has shape %s" % (name, a, b, np.shape(first)), name)
                g = elements(got)
                for x, y in zip(g, want):
                    if not equal(x, y):
                        raise Violation("%s with %s=%s and %s=%s (%s): element %s, the scalar function gives %s" % (name, a, ca, b, cb, form, canon(x, 15)[:200], canon(y, 15)[:200]), key=name)
                total += len(want)
            if tier == "quick":
                break
        if not total:
            return TRIVIAL
        return Outcome(name, evals=total)

    def across(name):
        """the published points of a function in one call (they differ in several arguments at once)"""
        total = 0
        groups = {}
        for k in table[name]:
            sig = tuple(sorted((a, repr(v) if not type(v) in (int, float) or isinstance(v, bool) else "#") for a, v in k.items()))
            groups.setdefault(sig, []).append(k)
        for ks in groups.values():
            if len(ks) < 2:
                continue
            cols = [a for a in ks[0] if type(ks[0][a]) in (int, float) and not isinstance(ks[0][a], bool) and len({k[a] for k in ks}) > 1]
            if cols:
                total += run(name, ks[0], {a: [k[a] for k in ks] for a in cols}, "with %s as arrays" % cols)
        if not total:
            return TRIVIAL
        return Outcome(name, evals=total)

    def scalars(case):
        """scalar arguments, by keyword and by position"""
        name, s = case
        k = table[name][s]
        ok, w = scalar(funcs[name], k)
        v = vec(name)
        if ok and not plainv(w):
            return TRIVIAL
        if not ok:
            try:
                v(**k)
            except Exception as e:
                return type(e).__name__
            raise Violation("%s(%s) returns where the scalar function raises %s" % (name, k, w), key=name)
        got = elements(v(**k))
        need(len(got) == 1 and equal(got[0], w), "%s(%s): %s, the scalar function gives %s" % (name, k, canon(got, 15), canon(w, 15)), name)
        code = funcs[name].__code__
        order = code.co_varnames[:code.co_argcount]
        lead = []
        for a in order:
            if a not in k:
                break
            lead.append(k[a])
        rest = {a: x for a, x in k.items() if a not in order[:len(lead)]}
        got = elements(v(*lead, **rest))
        need(len(got) == 1 and equal(got[0], w), "%s by position: %s, the scalar function gives %s" % (name, canon(got, 15), canon(w, 15)), name)
        return w if isinstance(w, (float, str, bool, int)) else name

    def names(n_):
        """what is not a function stays the same object; functions are wrapped; nothing is missing"""
        need(hasattr(V, n_), "fluids.%s is missing from fluids.vectorized" % n_, n_)
        need(n_ not in fluids.__all__ or n_ in V.__all__, "%s is not exported by fluids.vectorized" % n_, n_)
        a, b = getattr(fluids, n_), getattr(V, n_)
        if isinstance(a, types.FunctionType):
            need(isinstance(b, np.vectorize) and b.pyfunc is a, "fluids.vectorized.%s does not wrap the function of that name" % n_, n_)
            return "function"
        need(a is b, "fluids.vectorized.%s is another object" % n_, n_)
        return type(a).__name__

    BAD = {"__file__", "__name__", "__package__", "__cached__", "__builtins__", "__loader__", "__spec__", "__path__", "__doc__", "__all__",
           "vectorized"}   # the module itself, present once it has been imported
    points = [(name, i) for name in sorted(table) if name not in SLOW for i in range(min(n, len(table[name])))]
    use = [(name, i) for name in sorted(table) for i in range(min(n, len(table[name])))]
    return [
        Space("names", lambda: [x for x in dir(fluids) if x not in BAD], names, key=str),
        Space("scalar arguments", lambda: use, scalars, key=lambda c: "%s#%d" % c),
        Space("array patterns", lambda: points, patterns, key=lambda c: "%s#%d" % c, limit=60),
        Space("broadcasting", lambda: points, broadcast, key=lambda c: "%s#%d" % c, limit=60),
        Space("published points together", lambda: sorted(table), across, key=str, limit=60),
    ]
