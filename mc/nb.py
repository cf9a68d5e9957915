"""Calling the compiled interface (fluids.numba) next to the interpreted one."""
import math
import os

os.environ.setdefault("NUMBA_FUNCTION_CACHE_SIZE", "0")       # no compiled code is kept between runs

from . import conform
from .conform import copyv, hasnan, plain

_mods = {}
# solved or integrated numerically, and by another routine when compiled
LOOSE = {k: 1e-6 for k in """geometry.SA_partial_horiz_guppy_head geometry.SA_partial_horiz_spherical_head geometry.SA_partial_horiz_ellipsoidal_head geometry.SA_from_h geometry.V_horiz_guppy
geometry.V_tank geometry.TANK geometry.V_horiz_spherical geometry.V_horiz_torispherical geometry.V_from_h flow_meter.differential_pressure_meter_solver""".split()}
# nearly cancelling integrands: the two quadratures differ by more where the tank is slender or the head nearly flat
LOOSE.update({"geometry.SA_partial_horiz_spherical_head": 1e-4, "geometry.V_horiz_torispherical": 1e-4})


def module(vec=False):
    if vec not in _mods:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy
            numpy.seterr(all="ignore")
            import fluids.numba as m
            if vec:
                import fluids.numba_vectorized as m
        _mods[vec] = m
    return _mods[vec]


def compiled(key, vec=False):
    return getattr(module(vec), key.split(".")[-1], None)


def args(kw):
    import numpy as np
    out = {}
    for k, v in kw.items():
        if isinstance(v, list):
            v = np.array(v) if all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v) else v
        out[k] = v
    return out


def pattern(kw):
    return ",".join("%s:%s" % (k, type(v).__name__) for k, v in sorted(kw.items()))


def norm(v):
    if isinstance(v, tuple):
        return [norm(i) for i in v]
    if hasattr(v, "items") and not isinstance(v, dict):      # a numba typed dictionary
        v = dict(v.items())
    if isinstance(v, dict):
        return {str(k): norm(x) for k, x in v.items()}
    if "jitclass" in type(v).__module__:
        return {k: norm(getattr(v, k)) for k in fields(v)}
    v = plain(v)
    if isinstance(v, (list, tuple)):
        return [norm(i) for i in v]
    return v


def fields(v):
    return sorted(k for k in type(v)._numba_type_.struct)


def run(f, kw):
    try:
        w = norm(f(**{k: copyv(v) for k, v in kw.items()}))
    except Exception as e:
        return None, type(e).__name__
    if hasnan(w):
        return None, "nan"
    return w, None


def agree(g, w, rtol=1e-9, tol=None):
    """tol: the result's own uncertainty, of the shape of w"""
    if isinstance(w, list):
        return isinstance(g, list) and len(g) == len(w) and all(agree(a, b, rtol, tol[i] if tol is not None else None) for i, (a, b) in enumerate(zip(g, w)))
    if isinstance(w, dict):
        # what is left of the difference of large values has their rounding
        m = max([abs(x) for x in w.values() if isinstance(x, float) and abs(x) < math.inf] + [0.0])
        return isinstance(g, dict) and all(isinstance(w[k], float) and isinstance(g[k], float) and abs(g[k] - w[k]) <= 1e-12 * m or agree(g[k], w[k], rtol, tol[k] if tol is not None else None) for k in g if k in w)
    if w is None or isinstance(w, (str, bool)):
        return g == w or tol == math.inf
    at = tol or 0.0
    if isinstance(w, (int, float)) and isinstance(g, (int, float)):
        return g == w or at == math.inf or math.isclose(g, w, rel_tol=rtol, abs_tol=at)
    if isinstance(w, complex):
        return abs(g - w) <= rtol * abs(w) + at
    return g == w


def spread(ws):
    """how far results of nearly the same call lie apart: inf where they differ in kind"""
    w = ws[0]
    if isinstance(w, list):
        if not all(isinstance(x, list) and len(x) == len(w) for x in ws):
            return None
        out = [spread([x[i] for x in ws]) for i in range(len(w))]
        return None if any(o is None for o in out) else out
    if isinstance(w, dict):
        if not all(isinstance(x, dict) and set(x) == set(w) for x in ws):
            return None
        out = {k: spread([x[k] for x in ws]) for k in w}
        return None if any(o is None for o in out.values()) else out
    if isinstance(w, (int, float, complex)) and not isinstance(w, bool):
        return 30.0 * max(abs(x - w) for x in ws) if all(isinstance(x, (int, float, complex)) for x in ws) else math.inf
    return 0.0 if all(x == w for x in ws) else math.inf


PHYS = {"d_characteristic", "D", "D1", "D2", "Re", "fd", "L", "rho", "mu", "d", "P", "P1", "P2", "m"}


def sane(kw):
    """no negative diameters: what comes of them depends on where a solver stops"""
    return not any(k in PHYS and isinstance(v, (int, float)) and v <= 0 for k, v in kw.items())


def check(key, kw):
    """None when the compiled function agrees or the interpreted one has no finite answer, otherwise what it answers."""
    f, g, rtol = conform.cur(key), compiled(key), LOOSE.get(key, 1e-9)
    w, e = run(f, kw)
    if e:
        return None, False
    try:
        v = norm(g(**args(kw)))
    except Exception as x:
        v = "%s: %s" % (type(x).__name__, str(x).replace("\n", " ")[:150])
        if w == v:
            return None, True
    if not isinstance(v, str) and agree(v, w, rtol):
        return None, True
    if isinstance(w, str) and v == w:
        return None, True
    # rounding: what do interpreted results of inputs equal to 1e-13 look like?
    near = [w]
    for k, x in kw.items():
        for y in ((lambda d: x * (1 + d)), ) if isinstance(x, float) or (isinstance(x, int) and abs(x) > 10 ** 6) else ((lambda d: [i * (1 + d) if isinstance(i, float) else i for i in x]),) if isinstance(x, list) else ():
            for d in (1e-13, -1e-13):
                r, e = run(f, dict(kw, **{k: y(d)}))
                if e:
                    return None, False
                near.append(r)
    t = spread(near)
    if t is None or (not isinstance(v, str) or isinstance(w, str)) and agree(v, w, rtol, t):
        return None, False
    return "%s, interpreted %s" % (str(v)[:160], str(w)[:160]), True


def positional(key, kw):
    """the call as a list of numbers in signature order with defaults filled in, or None"""
    import inspect
    out = []
    for n, p in inspect.signature(conform.cur(key)).parameters.items():
        v = kw.get(n, p.default)
        if not isinstance(v, (int, float)):
            return None
        out.append(v if isinstance(v, bool) else float(v) if isinstance(v, float) or "int" not in str(p.annotation) else v)
    return out


def check_vec(key, kw, which):
    """One call of numba_vectorized with arrays in place of the arguments numbered in `which` (0: all)."""
    import numpy as np
    f, g = conform.cur(key), compiled(key, True)
    base = positional(key, kw)
    if base is None or any(i >= len(base) or not isinstance(base[i], float) for i in which):
        return None, False
    rows = []
    for k in (1.0, 0.97, 1.04):
        rows.append([v * k if isinstance(v, float) and (not which or i in which) else v for i, v in enumerate(base)])
    want = []
    import inspect
    names = list(inspect.signature(f).parameters)
    for r in rows:
        w, e = run(f, dict(zip(names, r)))
        if e or isinstance(w, (list, dict, str)) or w is None:
            return None, False
        want.append(w)
    a = [np.array([r[i] for r in rows]) if not which or i in which else base[i] for i in range(len(base))]
    try:
        v = [norm(x) for x in np.asarray(g(*a)).tolist()]
    except Exception as x:
        return "%s: %s" % (type(x).__name__, str(x).replace("\n", " ")[:150]), True
    rtol = LOOSE.get(key, 1e-9)
    for r, x, w in zip(rows, v, want):
        if agree(x, w, rtol):
            continue
        near = [w]
        for i, y in enumerate(r):
            if isinstance(y, float):
                for d in (1e-13, -1e-13):
                    q, e = run(f, dict(zip(names, r[:i] + [y * (1 + d)] + r[i + 1:])))
                    if e:
                        return None, False
                    near.append(q)
        t = spread(near)
        if t is None or agree(x, w, rtol, t):
            continue
        return "%r%s: %s, interpreted %s" % (key, tuple(r), x, w), True
    return None, True
