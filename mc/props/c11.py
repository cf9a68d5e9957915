"""C11: calls are history independent and leave their arguments alone.

The state a process carries between calls is the digest of everything reachable from the
library's modules (globals, defaults, closures, class and function attributes, caches) plus
the interpreter settings a call could touch.  Every call of the case set is run in its own
forked process for its reference result; the calls that change the state are found; the
state graph they span is explored to the stated depth, running every other call in every
state reached; and, independently of the digests, every ordered pair of calls is run back to
back, every call is repeated with one argument altered, every object pair is interleaved,
every call is repeated after a failing call, and every argument and result is scribbled on."""
import copy
import gc
import importlib
import itertools
import math
import time

from .. import cases as CS
from .. import hist
from ..core import Outcome, Space, TRIVIAL, Violation, canon, same

LEVEL = "model_checking"
WORKERS = 8
RULE = ("Each history (state-changing calls up to the stated depth then every call; every ordered pair; every "
        "one-argument alteration; every interleaving of two objects) is run once in a forked process and each "
        "result is compared with the same call in a fresh process.")
ASSUMPTIONS = [
    "library submodules and the scipy submodules it imports lazily are imported before the fresh state is taken",
    "what a call leaves behind is visible from library module globals, functions, classes, or interpreter settings (the ordered-pair space does not rely on this)",
]

PRE = ["scipy.special", "scipy.interpolate", "scipy.integrate", "scipy.optimize", "scipy.linalg", "scipy.fft",
       "scipy.spatial", "numpy.polynomial", "fluids.nrlmsise00", "fluids.atmosphere", "fluids.optional.spa",
       "fluids.optional.irradiance", "fluids.optional.pychebfun", "fluids.design_climate", "fluids.numerics.arrays"]
TOL = 1e-11


def load():
    import fluids  # noqa: F401
    for m in PRE:
        try:
            importlib.import_module(m)
        except ImportError:
            pass


def climate(F):
    import fluids.design_climate as d
    return [repr(d.get_closest_station(51.02, -114.05, 20150000)), d.get_station_count()]


def climate2(F):
    import fluids.design_climate as d
    return [repr(d.get_closest_station(35., 139.5, 0)), d.get_station_count()]


def extra():
    out = []
    for name, fn in (("closest station A", climate), ("closest station B", climate2)):
        def make(fn=fn):
            return fn, (importlib.import_module("fluids"),), {}
        out.append(("object." + name, make))
    return out


def run(c):
    """plain result of a case, or the name of what it raised"""
    f, a, k = c[1]()
    try:
        return hist.plain(f(*a, **k))
    except Exception as e:
        return "!" + type(e).__name__


def agree(got, want):
    return got == want or same(got, want, TOL, 1e-300)


def check(got, want, label, key):
    if not agree(got, want):
        raise Violation("%s: %s, in a fresh process %s" % (label, canon(got, 15)[:300], canon(want, 15)[:300]), key=key)


# ------------------------------------------------------------ one-argument alterations
def alterations(c):
    """[(argument name, make)] of the case with one argument altered"""
    f, a, k = c[1]()
    if a:
        return []
    out = []
    for name, v in k.items():
        if isinstance(v, bool):
            w = not v
        elif isinstance(v, int):
            continue
        elif isinstance(v, float):
            w = v * 1.0625 if v and math.isfinite(v) else None
        elif isinstance(v, list) and v and all(isinstance(i, float) for i in v):
            w = v[:-1] + [v[-1] * 1.0625]
        else:
            continue
        if w is None:
            continue

        def make(c=c, name=name, w=w):
            f, a, k = c[1]()
            k = dict(k)
            k[name] = copy.deepcopy(w)
            return f, a, k
        out.append((name, make))
    return out


# ------------------------------------------------------------ pairs of objects
def tank(o):
    return [o.V_total, o.h_max, o.V_from_h(.4 * o.h_max), o.h_from_V(.3 * o.V_total), o.SA_from_h(.4 * o.h_max), o.A, o.L_over_D, o.sideA, o.sideB]


def psd(p):
    return [p.pdf(2e-4), p.cdf(2e-4), p.dn(.5), p.mean_size(3, 2), p.vssa, p.delta_cdf(1e-4, 3e-4)]


def psdd(p):
    return [p.mean_size(3, 2), p.mean_size_ISO(1, 2), p.fractions, p.vssa, p.dn(.4), p.cdf(2e-5), p.ds, p.number_fractions, p.area_fractions, p.length_fractions]


def cheb(o):
    return [o(.3), o.domain().tolist() if hasattr(o, "domain") else 0, o.coefficients().tolist(), o.roots().tolist()]


OBJECTS = {
    "TANK": [(tank, "TANK", dict(D=1.2, L=4., horizontal=True)),
             (tank, "TANK", dict(D=1.5, L=3., horizontal=False, sideA="conical", sideB="conical", sideA_a=.3, sideB_a=.3)),
             (tank, "TANK", dict(D=1.2, L=4., horizontal=True, sideA="torispherical", sideB="torispherical", sideA_f=1., sideA_k=.06, sideB_f=1., sideB_k=.06)),
             (tank, "TANK", dict(V=9., L_over_D=3., horizontal=False, sideA="ellipsoidal", sideB="ellipsoidal", sideA_a=.2, sideB_a=.2))],
    "PSDLognormal": [(psd, "PSDLognormal", dict(s=.5, d_characteristic=2e-4)), (psd, "PSDLognormal", dict(s=.7, d_characteristic=2e-4)), (psd, "PSDLognormal", dict(s=.5, d_characteristic=3e-4, order=1))],
    "PSDGatesGaudinSchuhman": [(psd, "PSDGatesGaudinSchuhman", dict(d_characteristic=1e-3, m=2.3)), (psd, "PSDGatesGaudinSchuhman", dict(d_characteristic=1e-3, m=1.7))],
    "PSDRosinRammler": [(psd, "PSDRosinRammler", dict(k=200, m=.8)), (psd, "PSDRosinRammler", dict(k=300, m=.8))],
    "ParticleSizeDistribution": [(psdd, "ParticleSizeDistribution", dict(ds=[1e-5, 2e-5, 4e-5, 1e-4], fractions=[.2, .3, .5], order=3)),
                                 (psdd, "ParticleSizeDistribution", dict(ds=[1e-5, 2e-5, 4e-5, 1e-4], fractions=[4, 9, 2], order=0)),
                                 (psdd, "ParticleSizeDistribution", dict(ds=[1e-5, 2e-5, 4e-5, 1e-4], fractions=[0.0, .3, .6, 1.], cdf=True, order=2))],
    "HelicalCoil": [(CS.attrs, "HelicalCoil", dict(Do=30, H=20, pitch=5, Dt=2, Di=1.8)), (CS.attrs, "HelicalCoil", dict(Do=20, H=20, pitch=5, Dt=2))],
    "PlateExchanger": [(CS.attrs, "PlateExchanger", dict(amplitude=5e-4, wavelength=3.7e-3, length=1.2, width=.3, d_port=.05, plates=51)),
                       (CS.attrs, "PlateExchanger", dict(amplitude=5e-4, wavelength=3.7e-3, chevron_angle=30., length=1.2, width=.3, d_port=.05, plates=21))],
    "HyperbolicCoolingTower": [(CS.attrs, "HyperbolicCoolingTower", dict(D_base=89.0, H_outlet=150., D_inlet=80., H_inlet=6., D_outlet=55., D_throat=50., H_throat=120.)),
                               (CS.attrs, "HyperbolicCoolingTower", dict(D_base=89.0, H_outlet=200., D_inlet=80., H_inlet=6., D_outlet=55., D_throat=50., H_throat=120.))],
    "ATMOSPHERE_1976": [(CS.attrs, "ATMOSPHERE_1976", dict(Z=5000.)), (CS.attrs, "ATMOSPHERE_1976", dict(Z=5000., dT=3.)), (CS.attrs, "ATMOSPHERE_1976", dict(Z=15000.))],
    "ATMOSPHERE_NRLMSISE00": [(CS.attrs, "ATMOSPHERE_NRLMSISE00", dict(Z=1e3, latitude=45, longitude=45, day=150)),
                              (CS.attrs, "ATMOSPHERE_NRLMSISE00", dict(Z=2e5, latitude=45, longitude=45, day=150, f107=100)),
                              (CS.attrs, "ATMOSPHERE_NRLMSISE00", dict(Z=1e3, latitude=-35, longitude=45, day=10, geomagnetic_disturbance_indices=[3., 4., 5., 6., 7., 8., 9.]))],
}


def build(o):
    import fluids
    return getattr(fluids, o[1])(**copy.deepcopy(o[2]))


def objpair(case):
    """two (or three) objects alive at once, read in every order, twice"""
    cls, order, reads = case
    specs = OBJECTS[cls]

    def child():
        objs = {i: build(specs[i]) for i in order}
        return [(i, hist.plain(specs[i][0](objs[i]))) for i in reads]

    def fresh(i):
        return hist.forked(lambda: hist.plain(specs[i][0](build(specs[i]))))
    got = hist.forked(child)
    want = {i: fresh(i) for i in set(reads)}
    for i, g in got:
        check(g, want[i], "%s %s with %s also alive, reads %s" % (cls, specs[i][2], [specs[j][2] for j in order if j != i], reads), "%s %d" % (cls, i))
    return Outcome(cls, traces=1, transitions=len(order) + len(reads), evals=len(reads))


# ---------------------------------------------------------------- scribbling
def scribble(v, d=0):
    """overwrite everything mutable in a result"""
    if d > 5:
        return
    if isinstance(v, list):
        for i in v:
            scribble(i, d + 1)
        v.append(-12345.678)
        v.reverse()
    elif isinstance(v, dict):
        for i in list(v.values()):
            scribble(i, d + 1)
        v["scribbled"] = -12345.678
    elif isinstance(v, set):
        v.add("scribbled")
    elif isinstance(v, tuple):
        for i in v:
            scribble(i, d + 1)
    elif type(v).__module__ == "numpy" and hasattr(v, "fill"):
        if getattr(v, "dtype", None) is not None and v.dtype.kind in "fc" and v.flags.writeable:
            v.fill(-12345.678)


def arrays(v):
    """the same argument with lists of numbers as numpy arrays"""
    import numpy as np
    if isinstance(v, list) and v:
        try:
            a = np.array(v, dtype=float)
        except (ValueError, TypeError):
            return v, False
        return a, True
    return v, False


def spaces(tier):
    load()
    n = 2 if tier == "quick" else 4
    depth = 2 if tier == "quick" else 3
    cs = CS.formula_cases(n) + CS.numeric_cases() + CS.object_cases() + extra()
    N = len(cs)
    gc.collect()
    gc.freeze()
    s0 = hist.state()
    if hist.changed(s0, hist.state()):
        raise RuntimeError("the state digest is not stable")

    def fresh(i):
        def child():
            v = run(cs[i])
            t = time.perf_counter()
            run(cs[i])
            return v, time.perf_counter() - t
        return hist.forked(child)
    ref = hist.parallel(fresh, range(N))
    want = [r[0] for r in ref]
    cost = [r[1] for r in ref]

    # which calls change the state: groups, split where the group did
    stride = max(1, N // 24)
    groups = [list(range(k, N, stride)) for k in range(stride)]

    def group(g):
        def child():
            for i in g:
                run(cs[i])
            return hist.changed(s0, hist.state())
        return hist.forked(child)

    def split(g):
        ch = group(g)
        if not ch:
            return []
        if len(g) == 1:
            return [(g[0], ch)]
        h = len(g) // 2
        out = split(g[:h]) + split(g[h:])
        return out
    changers = sorted(x for g in hist.parallel(split, groups) for x in g)
    chset = {i for i, _ in changers}

    # one digest per changer; those that reach the same state are explored once
    def after(i):
        def child():
            run(cs[i])
            return hist.digest(hist.state())
        return hist.forked(child)
    dig = dict(zip([i for i, _ in changers], hist.parallel(after, [i for i, _ in changers]))) if changers else {}
    reps = {}
    for i, d in dig.items():
        reps.setdefault(d, i)
    reps = sorted(reps.values(), key=lambda i: cost[i])
    seqs = [()]
    cap = 60 if tier == "quick" else 400
    for L in range(1, depth + 1):
        new = list(itertools.product(reps, repeat=L))
        if len(seqs) + len(new) > cap:
            # all of the lower depth, plus this depth over the cheapest representatives
            m = 2
            while (m + 1) ** L + len(seqs) <= cap and m < len(reps):
                m += 1
            new = list(itertools.product(reps[:m], repeat=L)) if L > 1 else new[:cap * 3]
        seqs += new
    still = [i for i in range(N) if i not in chset]

    def explore(seq):
        """every call in the state reached by this history of state-changing calls"""
        def child():
            for i in seq:
                check(run(cs[i]), want[i], "%s within history %s" % (cs[i][0], [cs[j][0] for j in seq]), cs[i][0])
            before = hist.state()
            for i in still:
                g = run(cs[i])
                if not agree(g, want[i]):
                    return ("V", "%s after history %s: %s, in a fresh process %s" % (cs[i][0], [cs[j][0] for j in seq], canon(g, 15)[:300], canon(want[i], 15)[:300]), cs[i][0])
            mid = hist.digest(before)
            return ("ok", mid, hist.changed(before, hist.state()))
        try:
            r = hist.forked(child)
        except hist.ChildFailed as e:
            raise Violation("history %s: %s" % ([cs[j][0] for j in seq], e), key=cs[seq[-1]][0] if seq else "start")
        if r[0] == "V":
            raise Violation(r[1], key=r[2])
        # the state-changing calls themselves, each from this state
        for i in sorted(chset, key=lambda i: cost[i])[:30]:
            g = hist.forked(lambda: run(cs[i]))
            check(g, want[i], "%s after history %s" % (cs[i][0], [cs[j][0] for j in seq]), cs[i][0])
        return Outcome(r[1], states=1, transitions=len(still) + len(chset), traces=len(still) + len(chset), evals=len(still) + len(chset))

    cheap = [i for i in still if cost[i] < 2e-4]

    def pairs(i):
        """c_i immediately before every other call"""
        def child():
            for j in cheap:
                run(cs[i])
                g = run(cs[j])
                if not agree(g, want[j]):
                    return "%s right after %s: %s, in a fresh process %s" % (cs[j][0], cs[i][0], canon(g, 15)[:300], canon(want[j], 15)[:300]), cs[j][0]
            g = run(cs[i])
            if not agree(g, want[i]):
                return "%s after all others: %s, in a fresh process %s" % (cs[i][0], canon(g, 15)[:300], canon(want[i], 15)[:300]), cs[i][0]
        r = hist.forked(child)
        if r:
            raise Violation(r[0], key=r[1])
        return Outcome(cs[i][0], transitions=2 * len(cheap), traces=len(cheap), evals=len(cheap))

    def altered(i):
        """the call, then the call with one argument altered (and back): each as in a fresh process"""
        alts = alterations(cs[i])
        if not alts:
            return TRIVIAL
        w = [hist.forked(lambda: run((0, m))) for _, m in alts]

        def child():
            for (name, m), x in zip(alts, w):
                run(cs[i])
                g = run((0, m))
                if not agree(g, x):
                    return "%s with %s altered, after the unaltered call: %s, in a fresh process %s" % (cs[i][0], name, canon(g, 15)[:300], canon(x, 15)[:300])
                g = run(cs[i])
                if not agree(g, want[i]):
                    return "%s after the call with %s altered: %s, in a fresh process %s" % (cs[i][0], name, canon(g, 15)[:300], canon(want[i], 15)[:300])
        r = hist.forked(child)
        if r:
            raise Violation(r, key=cs[i][0])
        return Outcome(cs[i][0], traces=2 * len(alts), transitions=3 * len(alts), evals=2 * len(alts))

    def untouched(case):
        i, how = case
        name = cs[i][0].split("#")[0].split(".")[-1]
        f, a, k = cs[i][1]()
        if name in CS.INPLACE:
            return TRIVIAL
        if how == "arrays":
            conv = [arrays(v) for v in a]
            kconv = {q: arrays(v) for q, v in k.items()}
            if not any(c[1] for c in conv) and not any(c[1] for c in kconv.values()):
                return TRIVIAL
            a = [c[0] for c in conv]
            k = {q: c[0] for q, c in kconv.items()}
        elif not any(isinstance(v, (list, dict, set)) for v in list(a) + list(k.values())):
            return TRIVIAL

        def child():
            before = hist.plain([list(a), k])
            try:
                r = f(*a, **k)
            except Exception:
                r = None
            now = hist.plain([list(a), k])
            if now != before and not same(now, before, 0.0):
                return "%s changed its arguments from %s to %s" % (cs[i][0], canon(before, 15)[:300], canon(now, 15)[:300])
        r = hist.forked(child)
        if r:
            raise Violation(r, key=cs[i][0].split("#")[0])
        return how

    def scribbled(i):
        """the caller overwrites what it got back, then calls again"""
        f, a, k = cs[i][1]()

        def child():
            try:
                v = f(*a, **k)
            except Exception:
                return None
            if not isinstance(v, (list, dict, set, tuple)) and type(v).__module__ != "numpy":
                return None
            scribble(v)
            g = run(cs[i])
            return "ok" if agree(g, want[i]) else "%s after the caller changed the returned object: %s, in a fresh process %s" % (cs[i][0], canon(g, 15)[:300], canon(want[i], 15)[:300])
        r = hist.forked(child)
        if r is None:
            return TRIVIAL
        if r != "ok":
            raise Violation(r, key=cs[i][0].split("#")[0])
        return r

    def failed(i):
        """after calls that fail (one argument unusable), the call as in a fresh process"""
        f, a, k = cs[i][1]()
        if not k:
            return TRIVIAL

        def child():
            m = 0
            for name in k:
                for bad in ("no such thing", None, float("nan")):
                    f, a, kk = cs[i][1]()
                    kk = dict(kk)
                    kk[name] = bad
                    try:
                        f(*a, **kk)
                    except Exception:
                        m += 1
            if not m:
                return None
            g = run(cs[i])
            return "ok" if agree(g, want[i]) else "%s after failed calls: %s, in a fresh process %s" % (cs[i][0], canon(g, 15)[:300], canon(want[i], 15)[:300])
        r = hist.forked(child)
        if r is None:
            return TRIVIAL
        if r != "ok":
            raise Violation(r, key=cs[i][0])
        return r

    def ocases():
        for cls, sp in OBJECTS.items():
            for a, b in itertools.permutations(range(len(sp)), 2):
                for reads in ((a, b, a, b), (b, a, b, a)):
                    yield cls, (a, b), reads
            if tier != "quick" and len(sp) >= 3:
                for o in itertools.permutations(range(len(sp)), 3):
                    yield cls, o, o + o

    def nm(i):
        return cs[i if isinstance(i, int) else i[0]][0]
    return [
        Space("states", lambda: seqs, explore, key=lambda s: " / ".join(cs[j][0] for j in s) or "start", limit=300),
        Space("ordered pairs", lambda: cheap, pairs, key=nm, limit=120),
        Space("one argument altered", lambda: range(N), altered, key=nm, limit=120),
        Space("objects alive together", ocases, objpair, limit=60),
        Space("arguments untouched", lambda: [(i, h) for i in range(N) for h in ("lists", "arrays")], untouched, key=nm, limit=60),
        Space("results are the caller's", lambda: range(N), scribbled, key=nm, limit=60),
        Space("after failed calls", lambda: [i for i in range(N) if cost[i] < 5e-3], failed, key=nm, limit=60),
    ]
