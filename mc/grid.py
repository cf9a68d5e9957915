"""Lattice spaces: a function of the code under test against a reference model, on
every point of a finite argument lattice.

The lattice of an argument is the declared values plus *harvested* ones: every
numeric constant the function under test (and the functions of /repo it calls)
currently compares something with, exactly and just below / above.  Harvesting only
adds points; the verdict is always the value compared with the reference."""
from __future__ import annotations

import ast
import inspect
import itertools
import math
import sys
import textwrap

from .core import Space, Violation, TRIVIAL, CaseTimeout, canon, close, same, uniq


class Skip(Exception):
    """Raised by a reference model: the property says nothing about this input."""


class Rejects(Exception):
    """Raised by a reference model: the call must raise an exception."""


# --------------------------------------------------------------- harvesting
_trees = {}


def _tree(module):
    t = _trees.get(module.__name__)
    if t is None:
        try:
            src = inspect.getsource(module)
            tree = ast.parse(src)
        except Exception:
            tree = ast.parse("")
        funcs = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                funcs.setdefault(n.name, n)
            elif isinstance(n, ast.ClassDef):
                funcs.setdefault(n.name, n)
        t = _trees[module.__name__] = funcs
    return t


def _numbers(node, module, out):
    for n in ast.walk(node):
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            out.append(float(n.value))
        elif isinstance(n, ast.Name):
            v = getattr(module, n.id, None)
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                out.append(float(v))
            elif isinstance(v, (list, tuple)) and len(v) < 60 and all(isinstance(i, (int, float)) for i in v):
                out.extend(float(i) for i in v)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
            try:
                out.append(-float(n.operand.value))
            except Exception:
                pass


def harvest(*functions, depth=3):
    """Numeric constants compared with something in the current source of the given
    functions and of the repository functions they name."""
    out = []
    seen = set()

    def visit(f, d):
        m = sys.modules.get(getattr(f, "__module__", None))
        name = getattr(f, "__name__", None)
        if m is None or name is None or not m.__name__.startswith("fluids"):
            return
        k = (m.__name__, name)
        if k in seen:
            return
        seen.add(k)
        node = _tree(m).get(name)
        if node is None:
            return
        for n in ast.walk(node):
            if isinstance(n, ast.Compare):
                _numbers(n, m, out)
            elif isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Name) and fn.id in ("min", "max", "isclose", "abs"):
                    for a in n.args:
                        _numbers(a, m, out)
        if d > 0:
            for n in ast.walk(node):
                if isinstance(n, ast.Name):
                    v = getattr(m, n.id, None)
                    if callable(v):
                        visit(v, d - 1)
                    elif isinstance(v, dict) and len(v) < 80:
                        for w in v.values():
                            if callable(w):
                                visit(w, d - 1)
                            elif isinstance(w, (list, tuple)):
                                for u in w:
                                    if callable(u):
                                        visit(u, d - 1)
    for f in functions:
        visit(f, depth)
    return sorted({x for x in out if math.isfinite(x)})


def spread(consts, lo, hi, exact=True, rel=1e-6, cap=160):
    """Points at, just below and just above the constants inside [lo, hi], and one
    point inside each interval they delimit."""
    cs = sorted({c for c in consts if lo <= c <= hi})
    if len(cs) > cap:
        cs = cs[:: max(1, len(cs) // cap)]
    pts = []
    for c in cs:
        if exact:
            pts.append(c)
        for s in (-rel, rel):
            x = c * (1 + s) if c else s
            if lo <= x <= hi:
                pts.append(x)
    b = uniq([lo] + cs + [hi])
    for u, v in zip(b, b[1:]):
        pts.append(math.sqrt(u * v) if u > 0 else 0.5 * (u + v))
    return uniq(pts)


def corner(vals, n=3):
    vals = list(vals)
    if len(vals) <= n:
        return vals
    return uniq([vals[len(vals) // 2], vals[0], vals[-1]] + [vals[(i * len(vals)) // n] for i in range(n)])[:max(n, 1)]


def lattice(dims, extra=None, cap_pairs=6000, cap_single=60000, ncorner=3):
    """All points of the product of `dims` (list of value lists), then for each
    dimension its extra values against the corner values of the other dimensions, then
    pairs of extra values."""
    dims = [list(d) for d in dims]
    yield from itertools.product(*dims)
    if not extra:
        return
    seen_dims = [set(d) for d in dims]
    ex = [[v for v in (e or []) if v not in s] for e, s in zip(extra, seen_dims)]
    nc = ncorner
    while nc > 1:
        n = sum(len(ex[i]) * math.prod(min(nc, len(d)) for j, d in enumerate(dims) if j != i) for i in range(len(dims)))
        if n <= cap_single:
            break
        nc -= 1
    cs = [corner(d, nc) for d in dims]
    for i in range(len(dims)):
        if ex[i]:
            yield from itertools.product(*[ex[i] if j == i else cs[j] for j in range(len(dims))])
    c1 = [corner(d, 1) for d in dims]
    for i in range(len(dims)):
        for j in range(i + 1, len(dims)):
            if ex[i] and ex[j] and len(ex[i]) * len(ex[j]) <= cap_pairs:
                yield from itertools.product(*[ex[k] if k in (i, j) else c1[k] for k in range(len(dims))])


def _isnum(x):
    return isinstance(x, float)


def ref_compare(call, ref, args, rtol, atol, what):
    """call(*args) against ref(*args).  A disagreement that disappears when an argument
    moves by 1e-11 of itself is a rounding-level jump of a discontinuous function, not a
    violation."""
    try:
        want = ref(*args)
        rej = False
    except Skip:
        return TRIVIAL
    except Rejects:
        rej = True
        want = None
    except (OverflowError, ZeroDivisionError):
        return TRIVIAL
    try:
        got = call(*args)
        exc = None
    except (CaseTimeout, Violation):
        raise
    except Exception as e:
        exc = e
        got = None
    if rej:
        if exc is not None:
            return "!rejected"
        msg = "%s%s: expected an exception, got %s" % (what, fmt(args), canon(got, 12)[:300])
    elif exc is None:
        if want is TRIVIAL:
            return TRIVIAL
        if same(got, want, rtol, atol):
            return got
        msg = "%s%s: got %s, reference %s" % (what, fmt(args), canon(got, 14)[:400], canon(want, 14)[:400])
    else:
        msg = "%s%s: raised %s: %s, reference %s" % (what, fmt(args), type(exc).__name__, str(exc)[:200], canon(want, 12)[:300])
    # neighbourhood test
    for i, a in enumerate(args):
        if not _isnum(a) or a == 0.0:
            continue
        for d in (-1e-11, 1e-11):
            b = list(args)
            b[i] = a * (1 + d)
            try:
                w2 = ref(*b)
            except Skip:
                return TRIVIAL
            except Rejects:
                if exc is not None:
                    return TRIVIAL
                continue
            except Exception:
                continue
            if exc is None and same(got, w2, max(rtol, 1e-8), atol):
                return TRIVIAL
    raise Violation(msg)


def fmt(args):
    return "(" + ", ".join(repr(a) if not isinstance(a, float) else "%.17g" % a for a in args)[:500] + ")"


def ref_space(name, call, ref, dims, bounds=None, under=None, rtol=1e-9, atol=0.0, limit=20.0, hv=True, exact=True,
              cap_pairs=6000, extra_pts=None, rule=""):
    """dims: dict argument-name -> values (positional order of `call` and `ref`).
    bounds: dict argument-name -> (lo, hi) for harvested values (default: span of the
    numeric values).  under: functions whose comparisons are harvested."""
    names = list(dims)
    lists = [list(dims[n]) for n in names]

    def cases():
        ex = None
        if hv:
            consts = harvest(*(under or [call]))
            ex = []
            for n, l in zip(names, lists):
                nums = [v for v in l if isinstance(v, (int, float)) and not isinstance(v, bool)]
                if bounds is not None and n in bounds:
                    b = bounds[n]
                elif len(nums) >= 2:
                    b = (min(nums), max(nums))
                else:
                    b = None
                e = spread(consts, float(b[0]), float(b[1]), exact) if b else []
                if extra_pts and n in extra_pts:
                    e = uniq(list(extra_pts[n]) + e)
                ex.append(e)
        return lattice(lists, ex, cap_pairs=cap_pairs)

    def run(case):
        return ref_compare(call, ref, case, rtol, atol, name)

    return Space(name, cases, run, key=lambda c: fmt(c), limit=limit,
                 rule=rule or ("%s: " % name + ", ".join("%s[%d]" % (n, len(l)) for n, l in zip(names, lists))))


def inv_space(name, fn, dims, bounds=None, under=(), limit=20.0, exact=True, cap_pairs=6000, rule="", near=False):
    """A lattice space whose case function states an invariant itself.  With near=True a
    violation that disappears when every float argument moves by 1e-11 is dropped
    (rounding-level jump at a threshold)."""
    names = list(dims)
    lists = [list(dims[n]) for n in names]

    def cases():
        ex = None
        if under:
            consts = harvest(*under)
            ex = []
            for n, l in zip(names, lists):
                nums = [v for v in l if isinstance(v, (int, float)) and not isinstance(v, bool)]
                if bounds is not None and n in bounds:
                    b = bounds[n]
                elif len(nums) >= 2:
                    b = (min(nums), max(nums))
                else:
                    b = None
                ex.append(spread(consts, float(b[0]), float(b[1]), exact) if b else [])
        return lattice(lists, ex, cap_pairs=cap_pairs)

    def run(case):
        try:
            return fn(*case)
        except Violation:
            if not near:
                raise
            for i, a in enumerate(case):
                if _isnum(a) and a != 0.0:
                    for d in (-1e-11, 1e-11):
                        b = list(case)
                        b[i] = a * (1 + d)
                        try:
                            fn(*b)
                        except Exception:
                            continue
                        return TRIVIAL
            raise

    return Space(name, cases, run, key=lambda c: fmt(c), limit=limit,
                 rule=rule or ("%s: " % name + ", ".join("%s[%d]" % (n, len(l)) for n, l in zip(names, lists))))
