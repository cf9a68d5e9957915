"""C18: correlations are dimensionally consistent.

A change of base units multiplies the numerical value of every quantity by a known power of the
scaling factor.  For each function of the table in mc/dims.json, each lattice call and each change
of base units under which the correlation is homogeneous, the value at the rescaled inputs must be
the rescaled value.  All factors are powers of two, so the rescaling itself is exact."""
import math
import signal

from .. import conform, dims
from ..conform import copyv, cur, plain
from ..core import CaseTimeout, Outcome, Space, TRIVIAL, Violation

RULE = ("Every call of the lattice (harvested calls, single moves by factors, every constant the source compares something with, options, pairs) x every change of base "
        "units in mc/dims.json for that function: length, mass, time, temperature and amount alone, both ways, and the combinations that leave standard gravity, the gas constant, "
        "a pressure or a density unchanged.")
ASSUMPTIONS = ["which correlations are homogeneous under which changes is a reviewed table: those with constants that carry units (rating tables, empirical fits in fixed units) are "
               "only rescaled in the ways that leave those constants unchanged, or not at all",
               "a difference that also appears when an input moves by 1e-9 of its value is a branch change, not a dimensional error"]
RTOL = 1e-8
# integrated with an absolute error limit
LOOSE = {"geometry.SA_partial_horiz_ellipsoidal_head": 1e-4, "geometry.SA_partial_horiz_guppy_head": 1e-4, "geometry.SA_partial_horiz_spherical_head": 1e-4, "geometry.SA_partial_horiz_torispherical_head": 1e-4,
         "geometry.V_horiz_torispherical": 1e-4, "geometry.V_horiz_spherical": 1e-4, "geometry.V_from_h": 1e-4, "geometry.SA_from_h": 1e-4, "drag.integrate_drag_sphere": 1e-5}

# solved from a fixed starting point: at extreme inputs the solver fails in one set of units and not in the other
SOLVED = {"packed_tower.Stichlmair_flood"}


def lattice(key, n):
    return conform.calls(key, n)


def bound(f, kw, units):
    """the call with its defaults spelled out where they carry units"""
    import inspect
    out = dict(kw)
    for n, p in inspect.signature(f).parameters.items():
        if n not in out and p.default is not p.empty and isinstance(p.default, (int, float)) and not isinstance(p.default, bool) and any(dims.dims(units.get(n, "-"))):
            out[n] = p.default
    return out


def run(f, kw):
    """result, or the class of outcome"""
    try:
        w = f(**{k: copyv(v) for k, v in kw.items()})
    except CaseTimeout:
        raise
    except Exception as e:
        return None, type(e).__name__
    t = tuple(plain(i) for i in w) if isinstance(w, tuple) else plain(w)
    if conform.hasnan(list(t) if isinstance(t, tuple) else t):
        return None, "nan"
    return t, None


def eq(g, w, rtol):
    if isinstance(w, (list, tuple)):
        return isinstance(g, (list, tuple)) and len(g) == len(w) and all(eq(a, b, rtol) for a, b in zip(g, w))
    if isinstance(w, dict):
        return isinstance(g, dict) and all(k in g and eq(g[k], w[k], rtol) for k in w)
    if w is None or isinstance(w, (str, bool)):
        return g == w
    if isinstance(g, (int, float)):
        return math.isclose(g, w, rel_tol=rtol, abs_tol=1e-290)
    return False


def check(key, e, gen, kw):
    """True: scaled as it should; None: says nothing; a string: what differs"""
    import inspect
    f = cur(key)
    sig = list(inspect.signature(f).parameters)
    kw = bound(f, kw, e["args"])
    rets = dims.result_units(e, kw, sig)
    if rets is None:
        return None
    if not dims.touches(gen, [e["args"].get(a, "-") for a, v in kw.items() if v is not None] + [x for _, x in rets]):
        return None
    w, err = run(f, kw)
    if err:
        return None
    try:
        w2 = dims.scale_result(w, rets, gen)
    except (IndexError, KeyError):
        return None
    kw2 = {a: dims.scale(v, e["args"].get(a, "-"), gen) for a, v in kw.items()}
    g, err = run(f, kw2)
    if err == "nan" or (err and key in SOLVED):
        return None
    if err is None and eq(g, w2, LOOSE.get(key, RTOL)):
        return True
    # conditioning: does the result jump when an input moves a little?
    for a, v in kw.items():
        if isinstance(v, float):
            for d in (1e-9, -1e-9):
                p, e1 = run(f, dict(kw, **{a: v * (1 + d)}))
                if e1 or not eq(p, w, 1e-6):
                    return None
                p, e1 = run(f, dict(kw2, **{a: kw2[a] * (1 + d)}))
                if (e1 is None) != (err is None) or (e1 is None and not eq(p, g, 1e-6)):
                    return None
    return "%s, expected %s" % (err or str(g)[:80], str(w2)[:80])


def spaces(tier):
    tab = dims.table()
    n = 60 if tier == "quick" else 600
    # one case per function: building the lattice of a function with many arguments is the slow part, so the longest start first
    cases = sorted((k for k in tab if tab[k].get("gens")), key=lambda k: (-len(tab[k]["args"]), k))

    def fn(key):
        e = tab[key]
        if cur(key) is None:
            raise Violation("fluids.%s no longer exists" % key, key=key)
        ok, seen = 0, set()
        for kw in lattice(key, n):
            hit = 0
            for gen in e["gens"]:
                r = check(key, e, gen, kw)
                if r is None:
                    continue
                if r is not True:
                    raise Violation("%s(%s) does not scale under the change of base units %s (powers of two %s): %s" % (
                        key, ", ".join("%s=%r" % i for i in kw.items()), gen, dims.GENS[gen], r), key=key)
                hit += 1
            ok += hit
            if hit:
                seen.add(repr(sorted(kw.items())))
        return Outcome(ok, evals=ok, outcomes=len(seen)) if ok else TRIVIAL
    return [Space("rescaling", lambda: cases, fn, limit=600.0), sp_objects()]


def sp_objects():
    """every length given to a geometry object and every attribute and method result"""
    from .c13 import CLASSES
    geo = [c for c in CLASSES if not c[0].startswith("ATMOSPHERE")]
    E = {"m": 1, "m^2": 2, "m^3": 3, "1/m": -1}

    def cases():
        return [(i, p) for i in range(len(geo)) for p in (-4, -1, 1, 4)]

    def fn(case):
        import fluids
        i, p = case
        name, kw, P, A, meths = geo[i]

        def sc(v, u, a=""):
            return dims.times(v, 2.0 ** (p * E.get(u, 0)))
        kw2 = {a: sc(v, P.get(a, "-")) for a, v in kw.items()}
        if name == "PSDRosinRammler":
            kw2["k"] = kw["k"] * 2.0 ** (-p * kw["m"])
        a, b = getattr(fluids, name)(**kw), getattr(fluids, name)(**kw2)
        n = 0

        def same(g, w, what):
            g = g.tolist() if hasattr(g, "tolist") else g
            w = w.tolist() if hasattr(w, "tolist") else w
            g = list(g) if isinstance(g, (list, tuple)) else g
            w = list(w) if isinstance(w, (list, tuple)) else w
            if not eq(g, w, 1e-5):
                raise Violation("%s(%s): %s = %r after lengths are scaled by 2**%d, expected %r" % (name, ", ".join("%s=%r" % t for t in kw.items()), what, g, p, w), key="%s.%s" % (name, what.split("(")[0]))
        for at, u in A.items():
            if name == "PSDRosinRammler" and at == "k":
                continue
            w = getattr(a, at, None)
            if w is None or isinstance(w, str) or callable(w):
                continue
            same(getattr(b, at), sc(w.tolist() if hasattr(w, "tolist") else w, u), at)
            n += 1
        for m, args, u in meths:
            if m == "ds_discrete" and kw.get("d_max") is None and p > 0:
                continue            # bounded by a fixed largest diameter
            w = getattr(a, m)(*[v for _, v, _ in args]) if m != "ds_discrete" else getattr(a, m)(**{x: v for x, v, _ in args})
            g = getattr(b, m)(*[sc(v, x) for _, v, x in args]) if m != "ds_discrete" else getattr(b, m)(**{x: v for x, v, _ in args})
            same(g, sc(w.tolist() if hasattr(w, "tolist") else w, u), m + "()")
            n += 1
        return Outcome("ok", evals=n)
    return Space("objects", cases, fn, limit=600.0)
