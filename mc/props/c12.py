"""C12: concurrent calls do not disturb each other.

Real threads under a controlled scheduler: every schedule with a bounded number of preemptions,
placed at source lines of the library, of two or three threads making the calls that build
shared tables, caches or lists on first use, each in a fresh process; and, for every function
of the case set, every schedule in which a second call of the same function (other arguments)
runs to completion in another thread while the first is suspended at a source line."""
import builtins
import importlib
import io
import itertools
import os
import shutil
import sys
import threading

from .. import cases as CS
from .. import hist, sched
from ..core import Outcome, Space, TRIVIAL, Violation, canon, same
from . import c35
from .c11 import PRE, load

LEVEL = "model_checking"
RULE = ("Schedules of 2-3 threads with at most the stated number of preemptions, each at one of the first executions of a source line, "
        "for every pair of lazily initialising calls; and, for every function of the case set, one suspension at each line (first "
        "executions) during which a second call runs.")
ASSUMPTIONS = ["scheduling points are the starts of source lines of the library; interleavings inside one line and inside scipy or numpy are not explored",
               "scipy and numpy submodules that the library imports lazily are imported beforehand (their import locks are the interpreter's business)",
               "the calls share no mutable argument, except the object harnesses, whose threads only query the object"]
TOL = 1e-11


def agree(got, want):
    return got == want or same(got, want, TOL, 1e-300)


# ------------------------------------------------------------------ harnesses
class Harness:
    """names: one per thread; make() -> (functions, final) in a fresh process"""

    def __init__(self, label, names, setup, calls, final=None, ok=None):
        self.label, self.names, self.setup, self.calls, self.final, self.ok = label, names, setup, calls, final, ok

    def __call__(self):
        env = self.setup() if self.setup else None
        fns = [lambda c=c: c(env) for c in self.calls]
        return fns, (lambda: self.final(env)) if self.final else None


def stations(path):
    def setup():
        c35.redirect(path)
        return importlib.import_module("fluids.design_climate")
    return setup


class Nets:
    """a network per thread"""

    def __init__(self, modes, payload):
        self.local = threading.local()
        self.modes, self.payload = modes, payload

    def open(self, *a, **k):
        return c35.Net(self.payload, self.local.mode).open(*a, **k)


def download(modes, before, text):
    import urllib.request
    pl = c35.payload(text)

    def setup():
        root = c35.fresh("s%d" % os.getpid())
        if before == "marker":
            c35.fetch(root, c35.Net(pl, "down"))
        elif before == "cached":
            c35.fetch(root, c35.Net(pl, "ok"))
        nets = Nets(modes, pl)
        urllib.request.install_opener(nets)
        return root, nets

    def call(mode):
        def f(env):
            import fluids.design_climate as d
            root, nets = env
            nets.local.mode = mode
            return d.get_station_year_text(*c35.ID, data_dir_override=root)
        return f

    def final(env):
        root = env[0]
        v = c35.fetch(root, c35.Net(pl, "ok"))
        w = c35.fetch(root, c35.Net(pl, "down"))
        left = sorted(f for _, _, fs in os.walk(root) for f in fs)
        shutil.rmtree(root, ignore_errors=True)
        return v, w, len(left)

    def ok(i, r, alone):
        if modes[i] == "ok":
            return r == text
        return r == text or (isinstance(r, str) and r.startswith("!"))
    return Harness("download %s, %s" % ("+".join(modes), before), list(modes), setup, [call(m) for m in modes], final, ok)


def tanks():
    F = importlib.import_module("fluids")
    return F.TANK(D=1.2, L=4., horizontal=True, sideA="conical", sideB="conical", sideA_a=.3, sideB_a=.3)


def psd():
    F = importlib.import_module("fluids")
    return F.particle_size_distribution.ParticleSizeDistribution(ds=[1e-5, 2e-5, 4e-5, 1e-4], fractions=[.2, .3, .5], order=3)


def harnesses(small, tier):
    out = []
    G = c35.GETTERS
    pairs = [(a, b) for i, a in enumerate(G) for b in G[i:]]
    for a, b in pairs:
        out.append((Harness("stations %s+%s" % (a, b), [a, b], stations(small), [lambda d, g=g: c35.getter(d, g) for g in (a, b)]), 2 if tier != "quick" else 1))
    three = ("get_closest_station", "get_station_count", "get_kd_tree")
    out.append((Harness("stations, three threads", list(three), stations(small), [lambda d, g=g: c35.getter(d, g) for g in three]), 2 if tier != "quick" else 1))
    for modes in (("ok", "ok"), ("ok", "down"), ("down", "down"), ("ok", "ok", "down")):
        for before in ("nothing", "marker", "cached"):
            out.append((download(modes, before, c35.TEXT), (2 if len(modes) == 2 else 1) + (tier != "quick")))

    def rough(q, clean):
        return lambda F: F.nearest_material_roughness(q, clean=clean)
    out.append((Harness("roughness lookup", ["a", "b"], lambda: importlib.import_module("fluids"), [rough("condensate pipes", False), rough("Brass", True)]), 2))
    out.append((Harness("TANK table", ["a", "b"], tanks, [lambda t: t.h_from_V(.4 * t.V_total, "spline"), lambda t: t.h_from_V(.7 * t.V_total, "spline")]), 1))
    out.append((Harness("TANK expansion", ["a", "b"], tanks, [lambda t: t.h_from_V(.4 * t.V_total, "chebyshev"), lambda t: t.V_from_h(.7 * t.h_max, "chebyshev")]), 0 if tier == "quick" else 1))
    out.append((Harness("PSD interpolation", ["a", "b"], psd, [lambda p: [p.pdf(3e-5), p.cdf(2.5e-5)], lambda p: [p.dn(.5), p.cdf(6e-5)]]), 1))

    def units():
        return importlib.import_module("fluids.units")
    out.append((Harness("units", ["a", "b"], units, [
        lambda u: str(u.Reynolds(V=3.5 * u.u.m / u.u.s, D=2 * u.u.m, rho=997.1 * u.u.kg / u.u.m ** 3, mu=1e-3 * u.u.Pa * u.u.s)),
        lambda u: str(u.friction_factor(Re=1e5 * u.u.dimensionless, eD=1e-4 * u.u.dimensionless))]), 1))
    return out


class Judge:
    def __init__(self, h, alone, fin):
        self.h, self.alone, self.fin = h, alone, fin

    def __call__(self, res, fin, label):
        for i, (r, w) in enumerate(zip(res, self.alone)):
            good = self.h.ok(i, r, w) if self.h.ok else agree(r, w)
            if not good:
                raise Violation("%s: %s: thread %d (%s) gets %s, alone it gets %s" % (self.h.label, label, i, self.h.names[i], canon(r)[:160], canon(w)[:160]), key=self.h.label)
        if self.fin is not None and not agree(hist.plain(fin), hist.plain(self.fin)):
            raise Violation("%s: %s: afterwards %s, after one thread %s" % (self.h.label, label, canon(fin)[:160], canon(self.fin)[:160]), key=self.h.label + " afterwards")

    def deadlock(self, label):
        raise Violation("%s: %s: the threads do not finish" % (self.h.label, label), key=self.h.label + " deadlock")


# ------------------------------------------------------------------ reentrancy
def suspended(fa, fb, visits, most):
    """[(line, result a, result b)] of every run in which b runs in a second thread while a is suspended"""
    lines = []
    counts = {}

    def count(frame, event, arg):
        if event == "line":
            k = (frame.f_code.co_filename, frame.f_lineno)
            counts[k] = counts.get(k, 0) + 1
            lines.append((k, counts[k]))
            if len(lines) > 200000:
                sys.settrace(None)
                return None
        return count

    def entry(local):
        return lambda frame, event, arg: local if (frame.f_globals.get("__name__") or "").startswith("fluids") else None
    sys.settrace(entry(count))
    try:
        fa()
    except Exception:
        pass
    sys.settrace(None)
    picks = [i for i, (k, v) in enumerate(lines) if v <= visits][:most]
    out = []
    for target in picks:
        pos = [-1]
        box = []

        def at(frame, event, arg):
            if event == "line":
                pos[0] += 1
                if pos[0] == target:
                    t = threading.Thread(target=lambda: box.append(fb()), daemon=True)
                    t.start()
                    t.join(5.0)         # a lock held by the suspended call: let it go on
                    box.append(t) if t.is_alive() else None
                    sys.settrace(None)
                    frame.f_trace = None
                    return None
            return at
        sys.settrace(entry(at))
        ra = fa()
        sys.settrace(None)
        for t in box:
            if isinstance(t, threading.Thread):
                t.join()
        rb = [b for b in box if not isinstance(b, threading.Thread)]
        if rb:
            out.append((lines[target], ra, rb[0]))
    return out, len(lines)


def spaces(tier):
    import scipy.spatial  # noqa: F401
    import fluids  # noqa: F401
    load()
    for m in ("fluids.units", "fluids.vectorized"):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
    shutil.rmtree(c35.SCRATCH, ignore_errors=True)
    os.makedirs(c35.SCRATCH)
    _, lines = c35.small_file()
    small = os.path.join(c35.SCRATCH, "two.tsv")
    with open(small, "w") as f:
        f.writelines(lines[-3:])
    deep = tier == "thorough"
    hs = {h.label: (h, b) for h, b in harnesses(small, tier)}

    def alone(h, i):
        def run():
            fns, fin = h()
            return sched.Run([fns[i]]).go().result[0], (fin() if fin else None)
        return hist.forked(run)

    def explore(label):
        h, bound = hs[label]
        refs = [alone(h, i) for i in range(len(h.names))]
        j = Judge(h, [r[0] for r in refs], refs[0][1])
        n, steps, states = sched.explore(h, bound, 2 if deep else 1, j)
        return Outcome((label, n), states=states, transitions=steps, traces=n, evals=n)

    # a second call of the same function with other arguments
    from .c11 import alterations
    cases = CS.formula_cases(4 if deep else 2) + CS.numeric_cases() + CS.object_cases()
    cases = [c for c in cases if c[0].rsplit("#")[0] not in CS.SLOW]
    groups = {}
    for c in cases:
        groups.setdefault(c[0].split("#")[0], []).append(c)

    def call(make):
        def f():
            try:
                g, a, k = make()
                return hist.plain(g(*a, **k))
            except Exception as e:
                return "!" + type(e).__name__
        return f

    def reenter(name):
        ms = [(c[0], c[1]) for c in groups[name]]
        others = list(ms)
        try:
            others += [(c[0] + " with another " + a, m) for c in groups[name][:1] for a, m in alterations(c)][:8 if deep else 3]
        except Exception:
            pass
        n = total = 0
        for la, ma in ms[:4 if deep else 2]:
            fa = call(ma)
            wa = fa()
            todo = [o for o in others if o[0] != la] or others
            for lb, mb in todo[:8 if deep else 3]:
                fb = call(mb)
                wb = fb()
                runs, L = suspended(fa, fb, 3 if deep else 1, 3000 if deep else 400)
                for (where, v), ra, rb in runs:
                    at = "%s:%d" % (where[0].rsplit("/", 1)[-1], where[1])
                    if not agree(ra, wa):
                        raise Violation("%s, suspended at %s while %s ran in another thread, gives %s; alone %s" % (la, at, lb, canon(ra, 15)[:200], canon(wa, 15)[:200]), key=name)
                    if not agree(rb, wb):
                        raise Violation("%s, run while %s was suspended at %s, gives %s; alone %s" % (lb, la, at, canon(rb, 15)[:200], canon(wb, 15)[:200]), key=name)
                n += len(runs)
                total += L
        if not n:
            return TRIVIAL
        return Outcome((name, n), states=n, transitions=2 * n, traces=n, evals=n)

    return [
        Space("schedules", lambda: sorted(hs, key=lambda x: ("download" in x, x)), explore, key=str, limit=3000),
        Space("suspended calls", lambda: sorted(groups), reenter, key=str, limit=120),
    ]
