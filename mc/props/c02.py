"""C02: open scalar solvers (secant, newton, halley, one_sided_secant) under a monitor."""
import itertools
import math

from ..core import Space, Violation, Outcome, need, expect, attempt, close, TRIVIAL
import fluids.numerics as fn

RULE = ("every (function, start, option) combination of the declared families, with every evaluation monitored; every sequence of "
        "function answers up to the depth bound; non-trivial when a value is returned")
ASSUMPTIONS = ["The residual of an approximate answer that the caller did not ask to be evaluated (require_eval off) is judged at the last evaluated points."]

CONV = (fn.UnconvergedError, fn.SamePointError) if hasattr(fn, "SamePointError") else (fn.UnconvergedError,)

e = math.exp
# name: f, f', f'', roots, starts from which the plain iterations converge, domain
FUN = {
    "linear": (lambda x: 3.0 * x - 7.5, lambda x: 3.0, lambda x: 0.0, [2.5], [-40.0, 0.0, 2.5, 3.0, 1e4]),
    "down": (lambda x: 1.0 - 0.25 * x, lambda x: -0.25, lambda x: 0.0, [4.0], [-3.0, 0.0, 3.9, 50.0]),
    "square": (lambda x: x * x - 2.0, lambda x: 2 * x, lambda x: 2.0, [2 ** 0.5, -2 ** 0.5], [1.0, 3.0, 30.0, -2.0]),
    "negsq": (lambda x: 9.0 - x * x, lambda x: -2 * x, lambda x: -2.0, [3.0, -3.0], [2.0, 8.0, -2.5]),
    "cubic": (lambda x: (x - 1.5) * (x * x + x + 1), lambda x: (x * x + x + 1) + (x - 1.5) * (2 * x + 1),
              lambda x: 2 * (2 * x + 1) + 2 * (x - 1.5), [1.5], [1.2, 1.5, 2.0, 7.0]),
    "exp": (lambda x: e(x) - 5.0, e, e, [math.log(5.0)], [1.0, 2.0, 3.0]),
    "expdown": (lambda x: e(-0.1 * x) - 0.3, lambda x: -0.1 * e(-0.1 * x), lambda x: 0.01 * e(-0.1 * x), [-10 * math.log(0.3)], [5.0, 11.0, 14.0]),
    "log": (lambda x: math.log(x) - 1.0, lambda x: 1 / x, lambda x: -1 / (x * x), [math.e], [1.0, 2.0, 3.0]),
    "small": (lambda x: 1e-8 * (x - 3e5), lambda x: 1e-8, lambda x: 0.0, [3e5], [1e5, 2.9e5, 1e6]),
    "recip": (lambda x: 1.0 / x - 4.0, lambda x: -1 / (x * x), lambda x: 2 / x ** 3, [0.25], [0.2, 0.3]),
}
OTHER = {
    "noroot": (lambda x: x * x + 1.0, lambda x: 2 * x, lambda x: 2.0, [], [0.5, 3.0]),
    "const": (lambda x: 2.0, lambda x: 0.0, lambda x: 0.0, [], [0.0, 3.0]),
    "triple": (lambda x: (x - 2.0) ** 3, lambda x: 3 * (x - 2.0) ** 2, lambda x: 6 * (x - 2.0), [2.0], [1.0, 5.0]),
    "atan": (lambda x: math.atan(x - 1.0), lambda x: 1 / (1 + (x - 1.0) ** 2), lambda x: -2 * (x - 1) / (1 + (x - 1.0) ** 2) ** 2, [1.0], [0.5, 4.0]),
    "nan": (lambda x: x ** 0.5 - 1.0 if x >= 0 else float("nan"), lambda x: 0.5 * x ** -0.5 if x > 0 else float("nan"), lambda x: -0.25 * x ** -1.5 if x > 0 else float("nan"), [1.0], [0.5, 9.0]),
}
ALL = dict(FUN)
ALL.update(OTHER)


class Mon:
    """Monitored function."""

    def __init__(self, f, lo=None, hi=None, sign=1.0, free=()):
        self.f, self.lo, self.hi, self.sign, self.free = f, lo, hi, sign, free
        self.log = []

    def __call__(self, x, *args, **kw):
        if (self.lo is not None and x < self.lo or self.hi is not None and x > self.hi) and x not in self.free:
            raise Violation("function evaluated at %r outside [%r, %r]" % (x, self.lo, self.hi))
        y = self.f(x, *args, **kw) * self.sign
        self.log.append((x, y))
        return y


def zero_seen(log, x, what):
    """An exact root met is returned at once."""
    for i, (p, y) in enumerate(log):
        if y == 0.0:
            need(i == len(log) - 1 and x == p, "%s: met the exact root %r at evaluation %d of %d, returned %r" % (what, p, i + 1, len(log), x))
            return True
    return False


def root_ok(name, x, opt, what):
    """Functions without a root have no answer; an iterate held at a limit (which makes no step any more) is not judged."""
    if x in (opt.get("low"), opt.get("high")) or (opt.get("xtol", 1.48e-8) or 1) > 1e-7 or opt.get("ytol"):
        return
    if name in ("const", "noroot"):
        raise Violation("%s: returned %r, there is no root" % (what, x))


def limits_ok(x, opt, what):
    lo, hi = opt.get("low"), opt.get("high")
    need(x == x and abs(x) != math.inf, "%s: returned %r" % (what, x))
    need((lo is None or x >= lo) and (hi is None or x <= hi), "%s: returned %r outside the limits" % (what, x))


# ------------------------------------------------------------------- secant
def secant_criterion(log, x, opt, what):
    xtol, ytol = opt.get("xtol", 1.48e-8), opt.get("ytol")
    rx = opt.get("require_xtol", True)
    # points judged: the last two distinct evaluations (the first alone when it already meets ytol)
    if ytol is not None and not rx and any(abs(y) < ytol and x == p for p, y in log[:2]):
        return
    need(len(log) >= 2, "%s: returned %r after %d evaluations" % (what, x, len(log)))
    (p0, q0), (p1, q1) = log[-2], log[-1]
    xok = xtol is None or abs(p0 - p1) <= abs(xtol * p0) * (1 + 1e-9)
    yok = ytol is None or abs(q1) < ytol
    if ytol is not None and xtol is not None and not rx:
        xok = True
    need(xok and yok, "%s: returned %r with step %g and residual %g at the last evaluation" % (what, x, abs(p0 - p1), abs(q1)))
    if opt.get("require_eval") and q0 != q1:
        need(x == p1, "%s: require_eval, returned %r, last evaluated %r" % (what, x, p1))


def run_secant(f, x0, opt, what, sign=1.0, args=(), kwargs={}):
    lims = (x0, opt.get("x1")) if opt.get("x1") is not None else (x0,)
    inside = all((opt.get("low") is None or p >= opt["low"]) and (opt.get("high") is None or p <= opt["high"]) for p in lims)
    g = Mon(f, opt.get("low") if inside else None, opt.get("high") if inside else None, sign, free=lims)
    maxiter = opt.get("maxiter", 100)
    try:
        x = fn.secant(g, x0, args=args, kwargs=kwargs, **opt)
    except Violation as v:
        raise Violation("%s: %s" % (what, v.msg))
    except CONV as ex:
        if type(ex) is fn.UnconvergedError and "Bad function" not in str(ex):
            need(len(g.log) >= 2 + maxiter, "%s: gave up after %d evaluations, %d iterations allowed" % (what, len(g.log), maxiter))
        need(not any(y == 0.0 for _, y in g.log), "%s: raised %s although it met an exact root" % (what, ex))
        return None, g
    return x, g


OPT = [
    {}, {"xtol": 1e-12}, {"xtol": 1e-3}, {"xtol": 1e-12, "maxiter": 5}, {"maxiter": 1},
    {"ytol": 1e-9}, {"ytol": 1e-9, "xtol": None}, {"ytol": 1e-4, "xtol": None}, {"ytol": 1e-6, "require_xtol": False}, {"ytol": 1e-13, "require_xtol": False},
    {"ytol": 1e-2, "xtol": 1e-9}, {"ytol": 1e-15, "xtol": 1e-2},
    {"require_eval": True}, {"require_eval": True, "ytol": 1e-7}, {"require_eval": True, "ytol": 1e-7, "xtol": None},
    {"require_eval": True, "ytol": 1e-3, "require_xtol": False}, {"damping": 0.5, "maxiter": 400}, {"damping": 0.9, "ytol": 1e-9},
    {"bisection": True}, {"bisection": True, "xtol": 1e-12}, {"bisection": True, "ytol": 1e-9}, {"additional_guesses": True},
    {"additional_guesses": True, "bisection": True},
]


def with_limits(opts, roots, x0):
    for o in opts:
        yield o
    r = roots[0] if roots else 1.0
    w = abs(r) + 1.0
    lim = [{"low": r - 0.5 * w}, {"high": r + 0.5 * w}, {"low": r - 0.2 * w, "high": r + 0.3 * w}, {"low": r}, {"high": r},
           {"low": r + 0.1 * w}, {"high": r - 0.1 * w}, {"low": r + 0.1 * w, "high": r + 2 * w}]
    for l in lim:
        for o in opts:
            if "maxiter" not in o:
                d = dict(o)
                d.update(l)
                yield d


def sec_cases(big):
    def gen():
        for name in ALL:
            roots, starts = ALL[name][3], ALL[name][4]
            for x0 in starts:
                for opt in with_limits(OPT, roots, x0):
                    if name in ("log", "nan") and opt.get("low", -1) < 0:
                        opt = dict(opt, low=1e-3)
                    for x1 in (None, x0 + 0.3, x0):
                        if x1 is not None and not big and len(opt) > 2:
                            continue
                        yield name, x0, x1, tuple(sorted(opt.items(), key=str))
    return gen


def do_secant(case):
    name, x0, x1, opt = case
    opt = dict(opt)
    if x1 is not None:
        opt["x1"] = x1
    lo, hi = opt.get("low", -math.inf), opt.get("high", math.inf)
    f, _, _, roots, _ = ALL[name]
    what = "secant(%s, %r, %s)" % (name, x0, opt)
    inside = lo <= x0 <= hi and (x1 is None or lo <= x1 <= hi)
    try:
        x, g = run_secant(f, x0, opt, what)
    except (ValueError, ZeroDivisionError, OverflowError):
        return "!domain"
    # the same problem with the sign reversed takes the same path
    xn, gn = run_secant(f, x0, opt, what, sign=-1.0)
    need((x is None and xn is None) or x == xn or opt.get("bisection"), "%s: %r, but %r for -f" % (what, x, xn))
    plain = set(opt) <= {"low", "high", "ytol", "xtol", "require_eval", "require_xtol", "x1", "bisection", "damping"} and opt.get("x1") != x0 \
        and opt.get("damping", 1.0) >= 0.9 and opt.get("ytol", 1) >= 1e-10
    reachable = roots and lo <= roots[0] <= hi and inside
    if x is None:
        if name in FUN and plain and reachable and set(opt) <= {"xtol", "ytol", "require_eval", "require_xtol", "x1", "damping"} \
                and not (name == "small" and False) and x1 is None:
            raise Violation("%s: failed to converge" % what)
        return "!"
    if inside and opt.get("x1") != x0:
        root_ok(name, x, opt, what)
    if inside:
        limits_ok(x, opt, what)
    if not opt.get("additional_guesses"):
        if not zero_seen(g.log, x, what):
            secant_criterion(g.log, x, opt, what)
    if name in FUN and opt.get("xtol", 1.48e-8) is not None and opt.get("xtol", 1.48e-8) < 1e-7 and opt.get("require_xtol", True) \
            and opt.get("damping", 1.0) == 1.0 and x1 is None and inside and not any(x == b for b in (lo, hi)):
        need(any(close(x, r, 1e-6, 1e-9) for r in roots), "%s: %r, roots %r" % (what, x, roots))
    return x


# adversarial answers: a script of values, then a line through the root 0.7 of slope +-1
def adv_cases(big):
    alpha = (-1.0, -1e-12, 0.0, 1e-12, 1.0, 2.0)
    opts = [{}, {"ytol": 1e-9}, {"ytol": 1e-9, "require_xtol": False}, {"xtol": None, "ytol": 1e-9, "require_eval": True}, {"low": 0.0, "high": 3.0},
            {"low": 0.0, "high": 3.0, "bisection": True}, {"xtol": 1e-2, "maxiter": 3}]

    def gen():
        for k, o in enumerate(opts):
            for x0 in (1.0, 0.0, 3.0):
                for first in itertools.product(alpha, repeat=2):
                    for slope in (1.0, -3.0):
                        yield k, tuple(sorted(o.items(), key=str)), x0, first, slope, alpha, 4 if big else 3
    return gen


def do_adv(case):
    k, opt, x0, first, slope, alpha, depth = case
    opt = dict(opt)
    calls = traces = 0
    states = set()
    outs = set()
    for rest in itertools.product(alpha, repeat=depth):
        script = first + rest
        known = {}

        def f(x):
            if x in known:
                return known[x]
            y = script[len(known)] if len(known) < len(script) else slope * (x - 0.7)
            known[x] = y
            return y
        what = "secant(answers %r then %g*(x-0.7), %r, %s)" % (script, slope, x0, opt)
        x, g = run_secant(f, x0, opt, what)
        calls += len(g.log)
        traces += 1
        n = min(len(g.log), len(script))
        for i in range(n):
            states.add(script[:i + 1])
        if x is None:
            outs.add(None)
            continue
        limits_ok(x, opt, what)
        if not zero_seen(g.log, x, what):
            secant_criterion(g.log, x, opt, what)
        outs.add(round(x, 9))
    return Outcome((k, x0, first, slope, len(outs), str(sorted(outs, key=str)[:4])), states=len(states), transitions=calls, traces=traces, evals=traces,
                   outcomes=len(outs))


# ------------------------------------------------------------------- newton / halley
NOPT = [
    {}, {"xtol": 1e-12}, {"xtol": 1e-3}, {"xtol": 1e-12, "maxiter": 6}, {"maxiter": 1}, {"ytol": 1e-9}, {"ytol": 1e-9, "xtol": None},
    {"ytol": 1e-4, "xtol": None}, {"ytol": 1e-6, "require_xtol": False}, {"ytol": 1e-2, "xtol": 1e-9}, {"ytol": 1e-14, "xtol": 1e-2},
    {"require_eval": True}, {"require_eval": True, "ytol": 1e-7}, {"require_eval": True, "ytol": 1e-7, "xtol": None}, {"damping": 0.5, "maxiter": 400},
    {"bisection": True}, {"bisection": True, "ytol": 1e-9}, {"additional_guesses": True}, {"damping": 0.9, "ytol": 1e-9},
]


def newt_cases(big):
    def gen():
        for name in ALL:
            roots, starts = ALL[name][3], ALL[name][4]
            for x0 in starts:
                for opt in with_limits(NOPT, roots, x0):
                    if name in ("log", "nan") and opt.get("low", -1) < 0:
                        opt = dict(opt, low=1e-3)
                    for curv in (False, True):
                        yield name, x0, curv, tuple(sorted(opt.items(), key=str))
    return gen


def run_newton(name, x0, opt, form, what, sign=1.0):
    f, d, d2, _, _ = ALL[name]
    inside = opt.get("low", -math.inf) <= x0 <= opt.get("high", math.inf)
    g = Mon(f, opt.get("low") if inside else None, opt.get("high") if inside else None, sign)
    s = sign
    maxiter = opt.get("maxiter", 100)
    kw = dict(opt)
    if form == "d":
        func, kw["fprime"] = g, lambda x: s * d(x)
    elif form == "D":
        func, kw["fprime"] = (lambda x: (g(x), s * d(x))), True
    elif form == "d2":
        func, kw["fprime"], kw["fprime2"] = g, lambda x: s * d(x), lambda x: s * d2(x)
    else:
        func, kw["fprime"], kw["fprime2"] = (lambda x: (g(x), s * d(x), s * d2(x))), True, True
    try:
        x = fn.newton(func, x0, **kw)
    except Violation as v:
        raise Violation("%s: %s" % (what, v.msg))
    except CONV as ex:
        need(not any(y == 0.0 for _, y in g.log), "%s: raised %s although it met an exact root" % (what, ex))
        return None, g
    return x, g


def newton_criterion(log, x, opt, what):
    xtol, ytol = opt.get("xtol", 1.48e-8), opt.get("ytol")
    rx = opt.get("require_xtol", True)
    p0, q = log[-1]
    if ytol is not None:
        need(abs(q) <= ytol, "%s: returned %r with residual %g at the last evaluation %r" % (what, x, abs(q), p0))
    if xtol is not None and (ytol is None or rx):
        if opt.get("require_eval"):
            return
        if ytol is not None and x == p0:
            return            # stalled or at a bound with the residual met
        need(abs(x - p0) <= abs(xtol * x) * (1 + 1e-9), "%s: returned %r, last step %g" % (what, x, abs(x - p0)))


def do_newton(case):
    name, x0, curv, opt = case
    opt = dict(opt)
    f, d, d2, roots, _ = ALL[name]
    lo, hi = opt.get("low", -math.inf), opt.get("high", math.inf)
    forms = ("d2", "D2") if curv else ("d", "D")
    what = "newton(%s, %r, %s%s)" % (name, x0, opt, ", fprime2" if curv else "")
    try:
        x, g = run_newton(name, x0, opt, forms[0], what)
    except (ValueError, ZeroDivisionError, OverflowError, TypeError) as ex:
        if isinstance(ex, TypeError) and name != "nan":
            raise
        return "!domain"
    y, h = run_newton(name, x0, opt, forms[1], what)
    need(x == y and g.log == h.log, "%s: separate and combined derivative functions differ: %r, %r" % (what, x, y))
    y, h = run_newton(name, x0, opt, forms[0], what, sign=-1.0)
    need(x == y, "%s: %r, but %r for -f" % (what, x, y))
    inside = lo <= x0 <= hi
    if x is None:
        if name in FUN and roots and inside and not set(opt) & {"low", "high", "maxiter", "additional_guesses", "bisection"} and opt.get("ytol", 1) >= 1e-10 \
                and opt.get("damping", 1.0) >= 0.9:
            raise Violation("%s: failed to converge" % what)
        return "!"
    if inside and opt.get("x1") != x0:
        root_ok(name, x, opt, what)
    if inside:
        limits_ok(x, opt, what)
    if not opt.get("additional_guesses"):
        if not zero_seen(g.log, x, what):
            newton_criterion(g.log, x, opt, what)
    # every accepted iterate is a whole step of the family: the second one is the published one
    if inside and len(g.log) > 1 and g.log[0][1] != 0 and d(x0) != 0 and not set(opt) & {"damping", "low", "high", "bisection", "additional_guesses"}:
        st = f(x0) / d(x0)
        if curv:
            hs = st / (1 - 0.5 * st * d2(x0) / d(x0))
            st = hs if hs * st > 0 else st
        need(close(g.log[1][0], x0 - st, 1e-12, 1e-13), "%s: first step to %r, expected %r" % (what, g.log[1][0], x0 - st))
    if name in FUN and (opt.get("xtol", 1.48e-8) or 1) < 1e-7 and opt.get("require_xtol", True) and not any(x == b for b in (lo, hi)) and opt.get("damping", 1) == 1:
        need(any(close(x, r, 1e-7, 1e-12) for r in roots), "%s: %r, roots %r" % (what, x, roots))
    return x


HOPT = [o for o in NOPT if not set(o) & {"require_xtol", "additional_guesses"}]


def hal_cases(big):
    def gen():
        for name in ALL:
            roots, starts = ALL[name][3], ALL[name][4]
            for x0 in starts:
                for opt in with_limits(HOPT, roots, x0):
                    if name in ("log", "nan") and opt.get("low", -1) < 0:
                        opt = dict(opt, low=1e-3)
                    for m in (1.5, None, 0.1):
                        if m == 1.5 or big or len(opt) < 3:
                            yield name, x0, m, tuple(sorted(opt.items(), key=str))
    return gen


def do_halley(case):
    name, x0, m, opt = case
    opt = dict(opt)
    f, d, d2, roots, _ = ALL[name]
    lo, hi = opt.get("low", -math.inf), opt.get("high", math.inf)
    what = "halley(%s, %r, max_2nd_ratio=%r, %s)" % (name, x0, m, opt)
    res = []
    for s in (1.0, -1.0):
        inside = lo <= x0 <= hi
        g = Mon(f, opt.get("low") if inside else None, opt.get("high") if inside else None, s)
        try:
            x = fn.halley(lambda x: (g(x), s * d(x), s * d2(x)), x0, max_2nd_ratio=m, **opt)
        except Violation as v:
            raise Violation("%s: %s" % (what, v.msg))
        except CONV:
            need(not any(y == 0.0 for _, y in g.log), "%s: raised although it met an exact root" % what)
            x = None
        except (ValueError, ZeroDivisionError, OverflowError):
            return "!domain"
        res.append((x, g))
    x, g = res[0]
    need(x == res[1][0] or (x != x), "%s: %r, but %r for -f" % (what, x, res[1][0]))
    inside = lo <= x0 <= hi
    if x is None:
        if name in FUN and roots and inside and not set(opt) & {"low", "high", "maxiter", "bisection"} and opt.get("ytol", 1) >= 1e-10 \
                and opt.get("damping", 1.0) >= 0.9 and m == 1.5:
            raise Violation("%s: failed to converge" % what)
        return "!"
    if name == "nan" and x != x:
        return TRIVIAL
    if inside and opt.get("x1") != x0:
        root_ok(name, x, opt, what)
    if inside:
        limits_ok(x, opt, what)
    if not zero_seen(g.log, x, what):
        newton_criterion(g.log, x, opt, what)
    if name in FUN and (opt.get("xtol", 1.48e-8) or 1) < 1e-7 and not any(x == b for b in (lo, hi)) and opt.get("damping", 1) == 1:
        need(any(close(x, r, 1e-7, 1e-12) for r in roots), "%s: %r, roots %r" % (what, x, roots))
    return x


# ------------------------------------------------------------------- one_sided_secant
def oss_cases(big):
    for root in (0.3, 1.0, 2.0, -4.0):
        for gap in (0.05, 0.5, 3.0):             # distance from the root to the flat region
            for side in (1.0, -1.0):
                for shape in ("lin", "sq", "exp"):
                    for off in (0.01, 0.1, 1.0, 4.0):      # start, on the live side
                        for far in (0.1, 10.0):
                            for opt in ({}, {"ytol": 1e-9}, {"xtol": None, "ytol": 1e-7}, {"xtol": 1e-11}, {"damping": 0.8}, {"given": True}):
                                yield root, gap, side, shape, off, far, tuple(opt.items())


def do_oss(case):
    root, gap, side, shape, off, far, opt = case
    opt = dict(opt)
    edge = root + side * gap
    flat = {"lin": gap * 2.0, "sq": gap + 0.3 * gap * gap, "exp": math.exp(min(gap, 50)) - 1}[shape]

    def f(x):
        t = side * (x - root)
        if t >= gap:
            return flat
        return {"lin": 2.0 * t, "sq": t + 0.3 * t * t if t > -1.6 else -0.832, "exp": math.exp(t) - 1}[shape]
    x0 = root - side * off
    x_flat = edge + side * far
    g = Mon(f)
    what = "one_sided_secant(%s, root %r, flat beyond %r, start %r, x_flat %r, %s)" % (shape, root, edge, x0, x_flat, opt)
    given = opt.pop("given", False)
    if given:
        x1 = x0 + side * 0.3 * gap
        opt.update(x1=x1, y0=f(x0), y1=f(x1), y_flat=flat)
    ok, x = attempt(fn.one_sided_secant, g, x0, x_flat, **opt)
    if not ok:
        need(x in ("ValueError", "UnconvergedError", "ZeroDivisionError"), "%s: raised %s" % (what, x))
        if shape in ("lin", "exp") and off <= 1.0 and opt.get("damping", 1) == 1 and not given and not any(y == 0.0 for _, y in g.log):
            raise Violation("%s: raised %s" % (what, x))
        return "!" + x
    p, q = g.log[-1]
    need(x == p, "%s: returned %r, last evaluated %r" % (what, x, p))
    if opt.get("ytol") is not None:
        need(abs(q) < opt["ytol"], "%s: residual %g" % (what, q))
    if opt.get("xtol", 1) is not None:
        need(close(x, root, 1e-6, 1e-7), "%s: %r" % (what, x))
    need(side * (x - edge) < 0, "%s: returned %r in the flat region" % (what, x))
    return x


# ------------------------------------------------------------------- arguments
def arg_cases():
    return itertools.product(("secant", "newton", "newton2", "halley", "oss"), (1.0, -2.0, 1e-3), (0.5, -3.0))


def do_args(case):
    kind, k, c = case
    f = lambda x, k, c: k * x - c
    if kind == "secant":
        xs = [fn.secant(f, 1.0, args=(k, c)), fn.secant(f, 1.0, args=(k,), kwargs={"c": c}), fn.secant(f, 1.0, kwargs={"k": k, "c": c}),
              fn.secant(f, 1.0, args=(k, c), f0=f(1.0, k, c)), fn.secant(f, 1.0, args=(k, c), x1=2.0, f0=f(1.0, k, c), f1=f(2.0, k, c))]
    elif kind == "newton":
        d = lambda x, k, c: k
        xs = [fn.newton(f, 1.0, d, args=(k, c)), fn.newton(f, 1.0, d, args=(k,), kwargs={"c": c}),
              fn.newton(lambda x, k, c: (f(x, k, c), k), 1.0, True, args=(k, c))]
    elif kind == "newton2":
        d = lambda x, k, c: k
        z = lambda x, k, c: 0.0
        xs = [fn.newton(f, 1.0, d, fprime2=z, args=(k, c)), fn.newton(f, 1.0, d, fprime2=z, args=(k,), kwargs={"c": c})]
    elif kind == "halley":
        h = lambda x, k, c: (f(x, k, c), k, 0.0)
        xs = [fn.halley(h, 1.0, args=(k, c)), fn.halley(h, 1.0, args=(k,), kwargs={"c": c})]
    else:
        s = math.copysign(1.0, k)
        h = lambda x, k, c: min(k * x - c, 1.0) if k > 0 else max(k * x - c, -1.0)
        x0 = c / k - 5.0
        flat = c / k + 3.0 / abs(k)
        xs = [fn.one_sided_secant(h, x0, flat, args=(k, c)), fn.one_sided_secant(h, x0, flat, args=(k,), kwargs={"c": c})]
    for x in xs:
        need(close(x, c / k, 1e-7, 1e-12), "%s with args/kwargs %r, %r: %r, expected %r" % (kind, k, c, xs, c / k))
    return xs


def spaces(tier):
    big = tier != "quick"
    key = repr
    return [
        Space("secant", sec_cases(big), do_secant, key=key),
        Space("secant_adversary", adv_cases(big), do_adv, key=key, limit=120),
        Space("newton", newt_cases(big), do_newton, key=key),
        Space("halley", hal_cases(big), do_halley, key=key),
        Space("one_sided_secant", lambda: oss_cases(big), do_oss, key=key),
        Space("arguments", arg_cases, do_args, key=key),
    ]
