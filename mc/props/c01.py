"""C01: bracketing root finders, driven by an adversarial function.

The function given to the solver is an environment: its first answers come from a
bounded alphabet (every sequence up to the depth bound is explored; a query at a point
answered before gets the same answer), later answers come from a completion of the
answered points (piecewise linear, or a step function), so every complete execution of
the real solver has a definite function, hence a definite oracle."""
import itertools
import math
from bisect import bisect_left, insort

from ..core import Space, Violation, Outcome, need, close
import fluids.numerics as fn

LEVEL = "model_checking"
RULE = ("every sequence of answers of the function up to the depth bound x completion (piecewise linear / step) x interval x end "
        "values x tolerance and iteration options; states are distinct (points asked, answers) histories, transitions are function "
        "calls, traces are complete executions of the real solver")
ASSUMPTIONS = ["After the bounded prefix of adversarial answers the function continues as the piecewise-linear or step function through them."]


class Env:
    def __init__(self, a, b, prefix, comp, known):
        self.lo, self.hi = min(a, b), max(a, b)
        self.slack = 4 * math.ulp(max(abs(a), abs(b)))
        self.prefix = prefix
        self.n = 0                    # adversarial answers used
        self.comp = comp
        self.xs = []
        self.f = {}
        self.calls = 0
        self.path = []
        for x, y in known:
            self.put(x, y)

    def put(self, x, y):
        self.f[x] = y
        insort(self.xs, x)

    def __call__(self, x, *args, **kw):
        self.calls += 1
        if not (self.lo <= x <= self.hi):
            if self.lo - self.slack <= x <= self.hi + self.slack:     # rounding, or a final step of the size of the tolerance
                return self.value(min(max(x, self.lo), self.hi))
            raise Violation("function evaluated at %r outside [%r, %r]" % (x, self.lo, self.hi))
        y = self.f.get(x)
        if y is None:
            if self.n < len(self.prefix):
                y = self.prefix[self.n]
                self.n += 1
                self.put(x, y)
            else:
                y = self.value(x)
        return y

    def value(self, x):
        y = self.f.get(x)
        if y is not None:
            return y
        xs = self.xs
        i = bisect_left(xs, x)
        l, r = xs[i - 1], xs[i]
        yl, yr = self.f[l], self.f[r]
        if self.comp == "lin":
            t = (x - l) / (r - l)
            return yl * (1 - t) + yr * t
        if (yl > 0) == (yr > 0):
            return yl
        return yl if (x - l) <= 0.37 * (r - l) else yr

    def changes(self, x, T):
        if self.value(min(max(x, self.lo), self.hi)) == 0.0:
            return True
        l, r = max(self.lo, x - T), min(self.hi, x + T)
        pts = [l, x, r] + [p for p in self.xs if l <= p <= r]
        vs = [self.value(p) for p in pts]
        return min(vs) <= 0.0 <= max(vs)


SOLVERS = {
    "bisect": (lambda f, a, b, **k: fn.bisect(f, a, b, **k), 1),
    "ridder": (lambda f, a, b, **k: fn.ridder(f, a, b, **k), 2),
    "brenth": (lambda f, a, b, **k: fn.brenth(f, a, b, **k), 1),
    "brenth_q": (lambda f, a, b, **k: fn.brenth(f, a, b, q=True, **k), 1),
}
DEF_TOL = {"bisect": (1e-12, 2.220446049250313e-16), "ridder": (1e-12, 8.881784197001252e-16), "brenth": (1e-12, 4.440892098500626e-16)}
OPTS = [{}, {"xtol": 1e-6}, {"xtol": 0.2}, {"xtol": 1e-9, "ytol": 1e-7}, {"maxiter": 4}, {"maxiter": 1, "xtol": 1e-3}, {"xtol": 1e-30, "rtol": 1e-12, "maxiter": 400}]
INTERVALS = [(0.0, 1.0), (1.0, 0.0), (-3.0, -1.0), (-1e-3, 5e3), (2.0, 2e-6), (1e8, 3e8), (-7.0, 0.0)]


def outcome(solver, env, a, b, opt, known_ends):
    """Run the real solver on the environment and judge the execution."""
    call, per = SOLVERS[solver]
    base = solver.split("_")[0]
    ya, yb = env.f[a], env.f[b]
    same_sign = (ya > 0 and yb > 0) or (ya < 0 and yb < 0)
    maxiter = opt.get("maxiter", 100)
    start = 0 if known_ends else 2
    what = "%s(%r, %r, %s; f(a)=%r f(b)=%r prefix=%r %s)" % (solver, a, b, opt, ya, yb, env.prefix, env.comp)
    kw = dict(opt)
    if known_ends:
        kw["fa"], kw["fb"] = ya, yb
    try:
        x = call(env, a, b, **kw)
    except ZeroDivisionError:
        if min(map(abs, [ya, yb] + list(env.f.values()))) < 1e-150:       # products of the values underflow: raising is allowed
            return "!underflow"
        raise
    except Violation as v:
        raise Violation("%s: %s" % (what, v.msg))
    except (ValueError, fn.UnconvergedError, fn.NotBoundedError) as e:
        if same_sign:
            return "!nosign"
        if isinstance(e, fn.UnconvergedError) and not isinstance(e, fn.NotBoundedError):
            need(env.calls >= start + per * maxiter, "%s: gave up after %d calls of %d" % (what, env.calls, start + per * maxiter))
            return "!unconverged"
        raise Violation("%s: raised %s: %s" % (what, type(e).__name__, e))
    need(not same_sign, "%s: returned %r without a sign change" % (what, x))
    need(env.lo - env.slack <= x <= env.hi + env.slack, "%s: returned %r outside the interval" % (what, x))
    need(env.calls <= start + per * maxiter, "%s: %d calls for maxiter=%d" % (what, env.calls, maxiter))
    xt, rt = DEF_TOL[base]
    T = opt.get("xtol", xt) + opt.get("rtol", rt) * abs(x) + 4 * math.ulp(abs(x))
    if base == "bisect":
        T = 1.001 * opt.get("xtol", xt) + 4 * math.ulp(max(abs(a), abs(b)))
    need(env.changes(x, T), "%s: returned %r, no sign change within %g (f=%r)" % (what, x, T, env.value(x)))
    if "ytol" in opt:
        need(abs(env.value(x)) < opt["ytol"], "%s: returned %r with |f|=%r > ytol" % (what, x, abs(env.value(x))))
    return x


def explore(case):
    solver, (a, b), opt, comp, ya, yb, alphabet, depth, known = case
    states = set()
    calls = traces = 0
    outs = set()
    last = None
    for prefix in itertools.product(alphabet, repeat=depth):
        env = Env(a, b, prefix, comp, [(a, ya), (b, yb)])
        r = outcome(solver, env, a, b, opt, known)
        calls += env.calls
        traces += 1
        if env.n < depth:
            # the remaining symbols were never asked for: this history is complete
            pass
        states.add((env.n, prefix[:env.n]))
        for k in range(env.n):
            states.add((k, prefix[:k]))
        outs.add(r if isinstance(r, str) else round(r, 9))
        last = r
    return Outcome((solver, a, b, comp, ya, yb, len(outs), last), states=len(states), transitions=calls, traces=traces, evals=traces,
                   outcomes=len(outs))


ENDS = [-1e6, -1.0, -1e-9, 0.0, 1e-9, 1.0, 1e6]


def adv_cases(big):
    alpha = (-1e6, -1.0, -1e-6, 1e-6, 1.0, 1e6)
    small = (-1.0, 0.0, 1e-3)

    def gen():
        depth = 4 if big else 3
        for iv in INTERVALS:
            for solver in SOLVERS:
                for oi, opt in enumerate(OPTS):
                    if solver == "ridder" and "ytol" in opt:
                        continue
                    for comp in ("lin", "step"):
                        for ya in ENDS:
                            for yb in ENDS:
                                if ya * yb > 0 and not (ya == yb and oi == 0):
                                    continue
                                full = oi == 0 and ya * yb < 0 and abs(ya) != 1e-9
                                d = depth if full or big else 2
                                yield solver, iv, opt, comp, ya, yb, alpha, d if ya * yb < 0 else 1, False
                        if oi < 2:
                            for ya, yb in ((-1.0, 2.0), (1e-3, -5.0)):
                                yield solver, iv, opt, comp, ya, yb, small, (7 if big else 5), False
                                if solver.startswith("brenth"):
                                    yield solver, iv, opt, comp, ya, yb, alpha, 3, True
    return gen


# very small and very large values: the sign test must not depend on products that under- or overflow
def scale_cases(big):
    def gen():
        for iv in INTERVALS[:3]:
            for solver in SOLVERS:
                for comp in ("lin", "step"):
                    for ya in (-1e-170, 1e-170, 1e-300, -1e-300, 1e160, -1e160, 1.0, -1.0):
                        for yb in (-2e-170, 2e-170, 3e-300, -3e-300, 2e160, -2e160, 1.0, -1.0):
                            yield solver, iv, {}, comp, ya, yb, (-1e-200, 1e-190, -1.0, 1e155), 2, False
    return gen


# ---------------------------------------------------------------- concrete functions
def flist():
    e = math.exp
    return [
        ("cubic", lambda x: x * x * x - 2 * x - 5, 2.0945514815423265, [(2, 3), (0, 10), (-1, 4), (3, 2)]),
        ("exp", lambda x: e(-x) - 0.01, -math.log(0.01), [(0, 10), (10, 0), (-5, 100)]),
        ("flat", lambda x: (x - 1.3) ** 9, 1.3, [(0, 2), (-10, 30), (1.29, 1.31)]),
        ("atan", lambda x: math.atan(x * 1e6 - 2.0), 2e-6, [(-1, 1), (-1, 100), (1e-6, 3e-6)]),
        ("pole", lambda x: 1 / (x - 2.5) - 3, 2.5 + 1 / 3.0, [(2.6, 10), (2.51, 100.0)]),
        ("log", lambda x: math.log(x) - 3, e(3), [(1e-10, 1e10), (1, 100)]),
        ("scaled", lambda x: 1e-12 * (x - 4e7), 4e7, [(0, 1e9), (-1e12, 1e8)]),
        ("sqrt", lambda x: math.copysign(math.sqrt(abs(x - 0.7)), x - 0.7), 0.7, [(0, 1), (-100, 1)]),
        ("sin", math.sin, math.pi, [(2, 4), (3, 6.2)]),
    ]


F = {n: (f, r, ivs) for n, f, r, ivs in flist()}


def conc_cases():
    for n, (f, r, ivs) in F.items():
        for iv in ivs:
            for solver in SOLVERS:
                for opt in OPTS:
                    if not (solver == "ridder" and "ytol" in opt):
                        yield n, iv, solver, opt
                for xt in (1e-3, 1e-5, 1e-8, 1e-10):
                    yield n, iv, solver, {"xtol": xt}


def do_conc(case):
    n, (a, b), solver, opt = case
    f, r, _ = F[n]
    a, b = float(a), float(b)
    calls = [0]
    lo, hi = min(a, b), max(a, b)

    def g(x, *args):
        calls[0] += 1
        need(lo <= x <= hi, "%s on %s [%r, %r]: evaluated %r" % (solver, n, a, b, x))
        return f(x)
    call, per = SOLVERS[solver]
    base = solver.split("_")[0]
    maxiter = opt.get("maxiter", 100)
    try:
        x = call(g, a, b, **opt)
    except fn.UnconvergedError:
        need(calls[0] == 2 + per * maxiter, "%s on %s: gave up after %d calls" % (solver, n, calls[0]))
        return "!"
    xt, rt = DEF_TOL[base]
    tol = opt.get("xtol", xt) + opt.get("rtol", rt) * abs(r) + 8 * math.ulp(r) + 1e-16 * (abs(a) + abs(b))
    if n == "flat":
        tol = max(tol, 1e-9)
    if f(x) != 0.0 or n != "flat":
        need(abs(x - r) <= tol * 1.01, "%s on %s [%r, %r] %s: %r, root %r" % (solver, n, a, b, opt, x, r))
    return x


# args/kwargs reach the function; best_bounding_bounds
def do_args(case):
    solver, k, c = case
    call, _ = SOLVERS[solver]
    x = call(lambda x, k, c: k * x - c, -10.0, 10.0, args=(k, c))
    need(close(x, c / k, 1e-11, 2e-12), "%s with args (%r, %r): %r" % (solver, k, c, x))
    if solver.startswith("brenth"):
        y = call(lambda x, k, c: k * x - c, -10.0, 10.0, args=(k,), kwargs={"c": c})
        need(x == y, "%s with kwargs: %r, %r" % (solver, x, y))
    return x


def bounds_cases(big):
    pts = (-2.0, 0.5, 3.0)
    ys = (1e-3, 2.0, 50.0)

    def gen():
        for fa in (-9.0, -1.0, 0.0, 1.0, 9.0):
            for fb in (-9.0, -1.0, 0.0, 1.0, 9.0):
                for np_ in range(3):
                    for nn in range(3):
                        for yp in itertools.product(ys, repeat=np_):
                            for yn in itertools.product(ys, repeat=nn):
                                for given in (False, True):
                                    yield fa, fb, yp, tuple(-y for y in yn), given
    return gen


def do_bounds(case):
    fa, fb, yp, yn, given = case
    lo, hi = -10.0, 10.0
    xp = [1.0 + i for i in range(len(yp))]
    xn = [-1.0 - i for i in range(len(yn))]
    know = {lo: fa, hi: fb}
    know.update(zip(xp, yp))
    know.update(zip(xn, yn))
    kw = dict(fa=fa, fb=fb) if given else dict(f=lambda x: know[x])
    what = "best_bounding_bounds(fa=%r, fb=%r, pos=%r, neg=%r)" % (fa, fb, yp, yn)
    has_pos = fa > 0 or fb > 0 or yp
    has_neg = fa < 0 or fb < 0 or yn
    try:
        l, h, gl, gh = fn.best_bounding_bounds(lo, hi, xs_pos=xp, ys_pos=list(yp), xs_neg=xn, ys_neg=list(yn), **kw)
    except ValueError:
        need(not (has_pos and has_neg) or 0.0 in (fa, fb) or fa * fb > 0, "%s: rejected" % what)
        if fa * fb > 0 and has_pos and has_neg:
            return "!mixed"
        return "!"
    need(know[l] == gl and know[h] == gh, "%s: %r" % (what, (l, h, gl, gh)))
    need(gl * gh <= 0, "%s: returned values of the same sign %r" % (what, (gl, gh)))
    if fa * fb < 0:
        bp = min([y for y in know.values() if y > 0])
        bn = max([y for y in know.values() if y < 0])
        need({gl, gh} == {bp, bn}, "%s: %r, best are %r" % (what, (gl, gh), (bn, bp)))
    return l, h, gl, gh


def spaces(tier):
    big = tier != "quick"
    key = lambda c: repr(c)
    return [
        Space("adversary", adv_cases(big), explore, key=key, limit=120),
        Space("extreme_values", scale_cases(big), explore, key=key, limit=120),
        Space("functions", conc_cases, do_conc, key=key),
        Space("arguments", lambda: itertools.product(SOLVERS, (1.0, -3.0, 1e-7), (0.0, 1e-8, -2.5e-7)), do_args, key=key),
        Space("best_bounding_bounds", bounds_cases(big), do_bounds, key=key),
    ]
