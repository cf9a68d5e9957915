"""C41: Chebyshev function objects against exact polynomial arithmetic."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

import fluids.optional.pychebfun as pc
from fluids.optional.pychebfun import Chebfun, chebfun

from ..core import Space, Violation, Outcome, need, expect, attempt, TRIVIAL

LEVEL = "model_checking"
RULE = ("a state is a function object together with the exact polynomial (rational coefficients) and interval it stands for; from every initial object all sequences of operations up to the depth bound are carried out on the real "
        "object and on the exact polynomial, states with the same polynomial, interval and representation size are merged, and every reached object is evaluated and queried; non-trivial when operations were carried out")
ASSUMPTIONS = ["functions that are polynomials of degree up to 24 (their Chebyshev representation is then exact up to rounding)", "two-sided agreement to 1e-10 of the largest value on the interval, looser after differentiation"]


# --------------------------------------------------------- exact polynomials in x, rational coefficients, low order first
def P(*c):
    c = list(map(F, c))
    while len(c) > 1 and c[-1] == 0:
        c.pop()
    return tuple(c)


def padd(a, b):
    n = max(len(a), len(b))
    return P(*[(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)])


def pmul(a, b):
    out = [F(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return P(*out)


def pscale(a, s):
    return P(*[x * s for x in a])


def peval(a, x):
    r = F(0)
    for c in reversed(a):
        r = r * x + c
    return r


def pdiff(a):
    return P(*[i * c for i, c in enumerate(a)][1:] or [0])


def pint(a, lo):
    q = P(0, *[c / (i + 1) for i, c in enumerate(a)])
    return padd(q, P(-peval(q, lo)))


def pcompose_linear(a, m, c):
    """a(m t + c)"""
    out = P(0)
    for k in reversed(a):
        out = padd(pmul(out, P(c, m)), P(k))
    return out


def cheb(a, lo, hi):
    """Chebyshev coefficients on [lo, hi], exactly."""
    b = pcompose_linear(a, (hi - lo) / 2, (hi + lo) / 2)
    T = [P(1), P(0, 1)]
    while len(T) < len(b):
        T.append(padd(pmul(P(0, 2), T[-1]), pscale(T[-2], -1)))
    out = [F(0)] * len(b)
    r = list(b)
    for n in range(len(b) - 1, -1, -1):
        if len(r) > n and r[n] != 0:
            k = r[n] / T[n][n]
            out[n] = k
            r = list(padd(P(*r), pscale(T[n], -k)))
    return out


def pdiv(a, b):
    a = list(a)
    while len(a) >= len(b) and any(a):
        k = a[-1] / b[-1]
        for i in range(len(b)):
            a[len(a) - len(b) + i] -= k * b[i]
        a.pop()
    return P(*(a or [0]))


def sturm(a, lo, hi):
    """isolating intervals (Fractions) of the real roots in [lo, hi] of a square-free polynomial"""
    seq = [a, pdiff(a)]
    while seq[-1] != P(0):
        seq.append(pscale(pdiv(seq[-2], seq[-1]), -1))
    seq.pop()
    if len(seq[-1]) > 1:
        return None                    # multiple roots

    def var(x):
        s = [v for v in (peval(p, x) for p in seq) if v]
        return sum(1 for u, v in zip(s, s[1:]) if (u > 0) != (v > 0))

    def go(l, h, n):
        if n == 0:
            return []
        if n == 1 and h - l < F(1, 10 ** 13) * (hi - lo):
            return [(l + h) / 2]
        m = (l + h) / 2
        if peval(a, m) == 0:
            e = (h - l) / 10 ** 15
            return go(l, m - e, var(l) - var(m - e)) + [m] + go(m + e, h, var(m + e) - var(h))
        k = var(l) - var(m)
        return go(l, m, k) + go(m, h, n - k)
    ends = [x for x in (lo, hi) if peval(a, x) == 0]
    d = (hi - lo) / 10 ** 12
    l2, h2 = (lo + d if lo in ends else lo), (hi - d if hi in ends else hi)
    return sorted(ends + go(l2, h2, var(l2) - var(h2)))


GRID = [F(i, 24) for i in range(25)] + [F(1, 7), F(3, 11), F(617, 1000), F(999, 1000)]


def scale_of(a, lo, hi):
    return max(abs(float(peval(a, lo + (hi - lo) * t))) for t in GRID)


# --------------------------------------------------------- states
class St:
    """obj: the real object; p, lo, hi: what it stands for; tol: absolute tolerance; trail: how it was made"""
    __slots__ = ("obj", "p", "lo", "hi", "tol", "trail")

    def __init__(self, obj, p, lo, hi, tol, trail):
        self.obj, self.p, self.lo, self.hi, self.tol, self.trail = obj, p, lo, hi, tol, trail


def judge(s, deep=True):
    o, p, lo, hi = s.obj, s.p, s.lo, s.hi
    sc = max(scale_of(p, lo, hi), 1e-300)
    tol = s.tol
    d = o.domain()
    need(len(d) == 2 and abs(d[0] - float(lo)) <= 1e-12 * float(hi - lo) and abs(d[1] - float(hi)) <= 1e-12 * float(hi - lo), "%s: domain %r instead of %r" % (s.trail, d, (lo, hi)))
    xs = [float(lo + (hi - lo) * t) for t in GRID]
    want = [float(peval(p, lo + (hi - lo) * t)) for t in GRID]
    vec = o(np.array(xs))
    for x, w, v in zip(xs, want, vec):
        if not abs(v - w) <= tol:
            raise Violation("%s: value %r at %r, exact %r (largest value %r)" % (s.trail, float(v), x, w, sc))
    for i in (0, 7, 13, 24, 26):
        v = float(o(xs[i]))
        need(abs(v - want[i]) <= tol, "%s: scalar value %r at %r, exact %r" % (s.trail, v, xs[i], want[i]))
    if not deep:
        return 1
    w = float(hi - lo)
    # samples and coefficients
    need(o.size() == len(o.values()) == len(o.coefficients()), "%s: size %r, %d values, %d coefficients" % (s.trail, o.size(), len(o.values()), len(o.coefficients())))
    c = cheb(p, lo, hi)
    got = o.coefficients()
    for i in range(max(len(c), len(got))):
        a = float(c[i]) if i < len(c) else 0.0
        b = float(got[i]) if i < len(got) else 0.0
        need(abs(a - b) <= 3 * tol, "%s: coefficient %d is %r, exact %r" % (s.trail, i, b, a))
    # integral, norm
    q = pint(p, lo)
    need(abs(float(o.sum()) - float(peval(q, hi))) <= 3 * tol * w, "%s: integral %r, exact %r" % (s.trail, float(o.sum()), float(peval(q, hi))))
    # conversion to ordinary coefficients
    if o.size() <= 12:
        u = pc.chebfun_to_poly(o)
        from_t = [sum(k * t ** (len(u) - 1 - i) for i, k in enumerate(u)) for t in (-1.0, -.3, 0.0, .7, 1.0)]
        for t, v in zip((F(-1), F(-3, 10), F(0), F(7, 10), F(1)), from_t):
            e = float(peval(p, (hi - lo) / 2 * t + (hi + lo) / 2))
            need(abs(v - e) <= 1e4 * tol, "%s: chebfun_to_poly gives %r at t=%r, exact %r" % (s.trail, v, t, e))
        u = pc.cheb_to_poly(o)
        big = sum(abs(k) * max(abs(float(lo)), abs(float(hi))) ** (len(u) - 1 - i) for i, k in enumerate(u))
        for i in (0, 5, 12, 24):
            v = sum(k * xs[i] ** (len(u) - 1 - j) for j, k in enumerate(u))
            need(abs(v - want[i]) <= 1e4 * tol + 1e-11 * big, "%s: cheb_to_poly gives %r at %r, exact %r" % (s.trail, v, xs[i], want[i]))
    # comparison
    need((o == o) is True or (o == o) == True, "%s: not equal to itself" % s.trail)
    if sc > 1e-6:
        need(bool(o), "%s: taken for zero" % s.trail)
    # roots
    if 2 <= o.size() and len(p) > 1 and sc > 1e-6:
        R = sturm(p, lo, hi)
        if R is not None:
            got = sorted(float(r) for r in o.roots())
            dp = pdiff(p)
            margin = F(1, 10 ** 6) * (hi - lo)
            for r in R:
                slope = abs(float(peval(dp, r))) * w
                if slope < 1e-4 * sc:
                    continue
                if r - lo < margin or hi - r < margin:
                    continue            # a rounding error may put it outside the interval
                need(any(abs(g - float(r)) < 1e-6 * w for g in got), "%s: the root %r is not among %r" % (s.trail, float(r), got))
            for g in got:
                need(float(lo) - 1e-9 * w <= g <= float(hi) + 1e-9 * w, "%s: root %r outside the interval" % (s.trail, g))
                v = abs(float(peval(p, F(g))))
                need(v < 1e-5 * sc, "%s: at the root %r the function is %r (of %r)" % (s.trail, g, v, sc))
            if all(abs(float(peval(dp, r))) * w > 1e-2 * sc and r - lo > margin and hi - r > margin for r in R):
                inner = [g for g in got if margin < F(g) - lo and margin < hi - F(g)]
                need(len(inner) == len(R), "%s: roots %r, exact %r" % (s.trail, got, [float(r) for r in R]))
    return 1


def make(p, lo, hi, route):
    """the real object for a polynomial, by one of the documented ways of building it"""
    flo, fhi = float(lo), float(hi)
    n = len(p)
    cf = [float(c) for c in p]

    def f(x):
        r = 0 * x
        for c in reversed(cf):
            r = r * x + c
        return r
    if route == "callable":
        return chebfun(f, [flo, fhi])
    if route == "callable, N":
        return chebfun(f, [flo, fhi], N=max(n, 2))
    if route == "samples":
        t = Chebfun.interpolation_points(n)
        return chebfun([f(flo + (fhi - flo) * (1 + x) / 2) for x in t], [flo, fhi])
    if route == "oversampled":
        t = Chebfun.interpolation_points(n + 5)
        return Chebfun.from_data([f(flo + (fhi - flo) * (1 + x) / 2) for x in t], [flo, fhi])
    if route == "coefficients":
        return chebfun(chebcoeff=[float(c) for c in cheb(p, lo, hi)], domain=[flo, fhi])
    if route == "copy":
        return chebfun(make(p, lo, hi, "coefficients"))
    if route == "list of calls":
        return pc.build_pychebfun(f, [flo, fhi], N=max(n, 2))
    if route == "from_function":
        return Chebfun.from_function(f, [flo, fhi])
    raise KeyError(route)


ROUTES = ("callable", "callable, N", "samples", "oversampled", "coefficients", "copy", "list of calls", "from_function")
POLYS = {
    "zero": P(0), "one": P(1), "x": P(0, 1), "line": P(3, -2), "square": P(-1, 0, 1), "cubic": P(F(1, 4), -1, F(-1, 2), 2), "quartic": P(F(1, 5), F(1, 3), -6, F(1, 2), 7), "sextic": P(-1, F(1, 7), 18, F(2, 3), -45, -1, 31), "deg9": P(F(1, 3), 1, -1, 2, 0, -3, 0, 1, 0, F(1, 2)),
    "all ones": P(*[1] * 13)}
DOMS = {"unit": (F(-1), F(1)), "right": (F(0), F(2)), "off": (F(3, 2), F(4)), "wide": (F(-5), F(3)), "tiny": (F(1), F(9, 8))}


def start(p, lo, hi, route, name):
    sc = max(scale_of(p, lo, hi), 1e-300)
    cond = sum(abs(float(c)) * max(abs(float(lo)), abs(float(hi))) ** i for i, c in enumerate(p))
    return St(make(p, lo, hi, route), p, lo, hi, 1e-12 * max(sc, cond, 1e-300), "%s on [%s, %s] by %s" % (name, lo, hi, route))


def routes(name, dom, route):
    lo, hi = DOMS[dom]
    s = start(POLYS[name], lo, hi, route, name)
    judge(s)
    c = make(POLYS[name], lo, hi, "callable")
    need(s.obj == c and not (s.obj != c), "%s: differs from the same function sampled" % s.trail)
    return s.obj.size()


# --------------------------------------------------------- operations
def grow(s, f=1.0, extra=0.0):
    return s.tol * f + extra


def op_list(s, other):
    """[(name, thunk -> (object, polynomial, lo, hi, tolerance))]"""
    o, p, lo, hi = s.obj, s.p, s.lo, s.hi
    b, q = other.obj, other.p
    sc, so = scale_of(p, lo, hi), scale_of(q, lo, hi)
    w = float(hi - lo)
    n = max(o.size(), 2)
    T, U = s.tol, other.tol
    lin = 2 * (T + U) + 1e-13 * (sc + so)
    mul = 4 * (T * (so + 1) + U * (sc + 1)) + 1e-12 * (sc * so + 1e-3)
    out = [
        ("+ g", lambda: (o + b, padd(p, q), lo, hi, lin)),
        ("g +", lambda: (b + o, padd(p, q), lo, hi, lin)),
        ("- g", lambda: (o - b, padd(p, pscale(q, -1)), lo, hi, lin)),
        ("g -", lambda: (b - o, padd(q, pscale(p, -1)), lo, hi, lin)),
        ("+ 2", lambda: (o + 2.0, padd(p, P(2)), lo, hi, lin + 1e-12)),
        ("1.5 -", lambda: (1.5 - o, padd(P(F(3, 2)), pscale(p, -1)), lo, hi, lin + 1e-12)),
        ("* 3", lambda: (o * 3.0, pscale(p, 3), lo, hi, 4 * T + 1e-12 * (sc + 1e-3))),
        ("-0.5 *", lambda: (-.5 * o, pscale(p, F(-1, 2)), lo, hi, 4 * T + 1e-12 * (sc + 1e-3))),
        ("neg", lambda: (-o, pscale(p, -1), lo, hi, T)),
        ("derivative", lambda: (o.differentiate(), pdiff(p), lo, hi, 4 * n * n / w * T + 1e-12 * n * n / w * sc + 1e-13)),
        ("integral", lambda: (o.integrate(), pint(p, lo), lo, hi, 4 * w * T + 1e-12 * w * sc + 1e-13)),
        ("left part", lambda: (o.restrict([float(lo), float(lo + (hi - lo) / 4)]), p, lo, lo + (hi - lo) / 4, 4 * T + 1e-12 * (sc + 1e-3))),
        ("inner part", lambda: (o.restrict([float(lo + (hi - lo) / 8), float(lo + (hi - lo) / 2)]), p, lo + (hi - lo) / 8, lo + (hi - lo) / 2, 4 * T + 1e-12 * (sc + 1e-3))),
        ("rebuild from coefficients", lambda: (Chebfun.from_coeff(o.coefficients(), o.domain()), p, lo, hi, 2 * T + 1e-12 * (sc + 1e-3))),
        ("unpruned from coefficients", lambda: (Chebfun.from_coeff(o.coefficients(), o.domain(), prune=False), p, lo, hi, 2 * T + 1e-12 * sc)),
        ("copy", lambda: (Chebfun.from_fun(o), p, lo, hi, T)),
    ]
    if len(p) + len(q) <= 25:
        out += [("* g", lambda: (o * b, pmul(p, q), lo, hi, mul)), ("g *", lambda: (b * o, pmul(p, q), lo, hi, mul))]
    if len(p) <= 9:
        out += [("** 2", lambda: (o ** 2, pmul(p, p), lo, hi, 8 * T * (sc + 1) + 1e-12 * (sc * sc + 1e-3))), ("* itself", lambda: (o * o, pmul(p, p), lo, hi, 8 * T * (sc + 1) + 1e-12 * (sc * sc + 1e-3)))]
    if len(p) <= 4:
        out += [("second derivative", lambda: (o.differentiate(2), pdiff(pdiff(p)), lo, hi, 40 * n ** 4 / w ** 2 * T + 1e-12 * n ** 4 / w ** 2 * sc + 1e-13))]
    return out


def explore(name, dom, oname, depth):
    lo, hi = DOMS[dom]
    root = start(POLYS[name], lo, hi, "coefficients", name)
    judge(root)
    others = {}

    def other(l, h):
        if (l, h) not in others:
            others[l, h] = start(POLYS[oname], l, h, "coefficients", oname)
        return others[l, h]

    seen = {(root.p, root.lo, root.hi, root.obj.size())}
    front = [root]
    trans = 0
    for d in range(depth):
        nxt = []
        for s in front:
            g = other(s.lo, s.hi)
            before = s.obj.values().copy(), tuple(s.obj.domain())
            for op, th in op_list(s, g):
                trail = s.trail + ", " + (op if op[-1] != "g" and op[0] != "g" else op.replace("g", oname))
                try:
                    r, p, l, h, tol = th()
                except Violation:
                    raise
                except Chebfun.NoConvergence as e:
                    # a piece that is small against the whole is only known to within the rounding of the whole, which the convergence test of the construction may reject
                    a, c = (s.lo, s.lo + (s.hi - s.lo) / 4) if op == "left part" else (s.lo + (s.hi - s.lo) / 8, s.lo + (s.hi - s.lo) / 2)
                    if op.endswith("part") and scale_of(s.p, a, c) < .25 * scale_of(s.p, s.lo, s.hi):
                        continue
                    raise Violation("%s raised NoConvergence: %s" % (trail, str(e)[:100]), key=trail)
                except Exception as e:
                    raise Violation("%s raised %s: %s" % (trail, type(e).__name__, str(e)[:100]), key=trail)
                trans += 1
                u = St(r, p, l, h, tol, trail)
                need(isinstance(r, Chebfun), "%s: result of type %s" % (trail, type(r).__name__))
                k = (p, l, h, r.size())
                try:
                    judge(u, deep=k not in seen)
                except Violation as v:
                    raise Violation(v.msg, key=trail)
                need(np.array_equal(s.obj.values(), before[0]) and tuple(s.obj.domain()) == before[1], "%s changed its operand" % trail)
                if k in seen:
                    continue
                seen.add(k)
                if len(p) <= 25 and tol < 1e-7 * max(scale_of(p, l, h), 1e-3):
                    nxt.append(u)
            # the scalar product, both ways
            q = pint(pmul(s.p, g.p), s.lo)
            want = float(peval(q, s.hi))
            w = float(s.hi - s.lo)
            tt = 10 * w * (s.tol * scale_of(g.p, s.lo, s.hi) + 1e-12 * (1e-3 + scale_of(s.p, s.lo, s.hi) * scale_of(g.p, s.lo, s.hi)))
            need(abs(float(s.obj.dot(g.obj)) - want) <= tt and abs(float(g.obj.dot(s.obj)) - want) <= tt, "%s: scalar product with %s %r, exact %r" % (s.trail, oname, float(s.obj.dot(g.obj)), want))
            n2 = float(peval(pint(pmul(s.p, s.p), s.lo), s.hi))
            if n2 > 1e-6:
                need(abs(float(s.obj.norm()) - math.sqrt(n2)) <= 1e-7 * math.sqrt(n2), "%s: norm %r, exact %r" % (s.trail, float(s.obj.norm()), math.sqrt(n2)))
        front = nxt
    return Outcome((len(seen), trans), states=len(seen), transitions=trans, traces=trans, evals=trans * len(GRID))


# --------------------------------------------------------- other functions
FUN = {"exp": (np.exp, math.exp), "sin": (np.sin, math.sin), "cos": (np.cos, math.cos), "sinh": (np.sinh, math.sinh), "cosh": (np.cosh, math.cosh), "tanh": (np.tanh, math.tanh), "arctan": (np.arctan, math.atan),
       "expm1": (np.expm1, math.expm1), "exp2": (np.exp2, lambda x: 2.0 ** x), "log1p": (np.log1p, math.log1p), "sqrt": (np.sqrt, math.sqrt), "log": (np.log, math.log), "log2": (np.log2, math.log2), "arcsinh": (np.arcsinh, math.asinh),
       "arcsin": (np.arcsin, math.asin), "arccos": (np.arccos, math.acos), "tan": (np.tan, math.tan), "arccosh": (np.arccosh, math.acosh)}
FDOM = {"log1p": (.5, 4.0), "sqrt": (.5, 4.0), "log": (.5, 4.0), "log2": (.5, 4.0), "arcsin": (-.7, .6), "arccos": (-.7, .6), "tan": (-1.0, 1.1), "arccosh": (1.5, 4.0)}


def ufuncs(name, via):
    lo, hi = FDOM.get(name, (-1.5, 2.0))
    nf, mf = FUN[name]
    if name not in dir(Chebfun):
        return TRIVIAL
    x = Chebfun.identity([lo, hi])
    if via == "method":
        o = getattr(x, name)()
    elif via == "numpy":
        ok, o = attempt(nf, x)
        if not ok:
            return TRIVIAL
    elif via == "direct":
        o = chebfun(nf, [lo, hi])
    else:
        o = pc.build_pychebfun(mf, [lo, hi], N=60)
    for i in range(41):
        t = lo + (hi - lo) * i / 40
        need(abs(float(o(t)) - mf(t)) < 1e-10 * (1 + abs(mf(t))), "%s of x by %s: %r at %r, exact %r" % (name, via, float(o(t)), t, mf(t)))
    # fundamental theorem: derivative of the integral, integral of the derivative
    D = o.integrate().differentiate()
    I = o.differentiate().integrate()
    for i in range(11):
        t = lo + (hi - lo) * i / 10
        need(abs(float(D(t)) - mf(t)) < 1e-8 * (1 + abs(mf(t))), "derivative of the integral of %s: %r at %r" % (name, float(D(t)), t))
        need(abs(float(I(t)) - (mf(t) - mf(lo))) < 1e-8 * (1 + abs(mf(t))), "integral of the derivative of %s: %r at %r" % (name, float(I(t)), t))
    need(abs(float(o.integrate()(hi)) - float(o.sum())) < 1e-10 * (1 + abs(float(o.sum()))), "sum is the integral over the interval")
    for c in (.3, 1.7):
        h = o / c
        k = c / (o * o + 1.0)
        for i in range(11):
            t = lo + (hi - lo) * i / 10
            need(abs(float(h(t)) - mf(t) / c) < 1e-9 * (1 + abs(mf(t))), "division of %s by %r" % (name, c))
            need(abs(float(k(t)) - c / (mf(t) ** 2 + 1)) < 1e-8, "division of %r by %s^2+1: %r at %r" % (c, name, float(k(t)), t))
    return o.size()


def oscillating(k, lo, hi):
    """cos(k x) on [lo, hi]: all the roots, at a size past the subdivision threshold when k is large"""
    o = chebfun(lambda x: np.cos(k * x), [lo, hi])
    want = []
    n = math.ceil(lo * k / math.pi - .5)
    while (n + .5) * math.pi / k <= hi:
        want.append((n + .5) * math.pi / k)
        n += 1
    got = sorted(float(r) for r in o.roots())
    m = 1e-6 * (hi - lo)
    got = [g for i, g in enumerate(got) if i == 0 or g - got[i - 1] > m]
    need(len(got) == len(want) and all(abs(a - b) < 1e-7 * (hi - lo) for a, b in zip(got, want)), "roots of cos(%r x) on [%r, %r]: %d found, %d expected; first %r, %r" % (k, lo, hi, len(got), len(want), got[:3], want[:3]))
    return o.size(), len(want)


def solve_case(name, goal, dom, find):
    """build_solve_pychebfun: the abscissae where a function takes a value"""
    lo, hi = dom
    f = {"square": lambda x: x * x, "exp": math.exp, "sin": math.sin, "cubic": lambda x: x ** 3 - x}[name]
    roots, fun = pc.build_solve_pychebfun(f, goal, domain=dom, N=15, N_max=100, find_roots=find)
    # what 17 nodes can give, from numpy's own interpolation
    ch = np.polynomial.chebyshev.Chebyshev.interpolate(np.vectorize(f), 16, domain=dom)
    tol = 1e-9 + 20 * max(abs(float(ch(lo + (hi - lo) * i / 400)) - f(lo + (hi - lo) * i / 400)) for i in range(401))
    for r in roots:
        need(abs(f(float(r)) - goal) < tol * (1 + abs(goal)), "build_solve_pychebfun(%s, %r, %r): at %r the function is %r" % (name, goal, dom, float(r), f(float(r))))
    # all crossings, by bisection between fine samples
    want = []
    N = 4000
    xs = [lo + (hi - lo) * (i + .37) / N for i in range(N)]
    for a, b in zip(xs, xs[1:]):
        if (f(a) - goal) * (f(b) - goal) < 0:
            want.append((a + b) / 2)
    for w in want:
        need(any(abs(float(r) - w) < 2 * (hi - lo) / N for r in roots), "build_solve_pychebfun(%s, %r, %r): misses the crossing near %r: %r" % (name, goal, dom, w, [float(r) for r in roots]))
    for x in (lo, hi, .3 * lo + .7 * hi):
        need(abs(float(fun(x)) - f(x)) < tol * (1 + abs(f(x))), "the function object returned by build_solve_pychebfun")
    return len(roots)


def refuse(dom):
    lo, hi = DOMS[dom]
    a = make(POLYS["cubic"], lo, hi, "callable")
    for o in DOMS:
        if o == dom:
            continue
        b = make(POLYS["line"], *DOMS[o], "callable")
        for n, th in (("+", lambda: a + b), ("-", lambda: a - b), ("*", lambda: a * b), ("/", lambda: a / b)):
            ok, r = attempt(th)
            need(not ok and r == "DomainMismatch", "%s between different intervals: %r" % (n, r))
    for bad in ([float(lo) - .1, float(hi)], [float(lo), float(hi) + .1]):
        ok, r = attempt(a.restrict, bad)
        need(not ok and r == "ValueError", "restriction to a larger interval: %r" % (r,))
    return 1


def helpers(lo, hi, n):
    c, f = pc.cheb_range_simplifier(lo, hi)
    for x, t in ((lo, -1.0), (hi, 1.0), ((lo + hi) / 2, 0.0), (lo + .3 * (hi - lo), -.4)):
        need(abs(f * (x + c) - t) < 1e-9, "cheb_range_simplifier(%r, %r) maps %r to %r" % (lo, hi, x, f * (x + c)))
    need(eval(pc.cheb_range_simplifier(lo, hi, text=True), {"x": lo, "coeffs": 0, "chebval": lambda a, b: a}) + 1 < 1e-9, "cheb_range_simplifier text")
    b = Chebfun.basis(n)
    for i in range(21):
        t = math.cos(math.pi * i / 20 * .9999)
        need(abs(float(b(t)) - math.cos(n * math.acos(t))) < 1e-12 * (n + 1), "basis(%d) at %r" % (n, t))
    x = Chebfun.identity([lo, hi])
    for t in (lo, hi, .6 * lo + .4 * hi):
        need(abs(float(x(t)) - t) < 1e-13 * (1 + abs(lo) + abs(hi)), "identity at %r" % t)
    co = [1.0 / (i + 1) for i in range(n + 1)]
    u = pc.chebfun_to_poly(co, domain=(lo, hi))
    v = pc.cheb_to_poly(co, domain=(lo, hi))
    txt = pc.chebfun_to_poly(co, domain=(lo, hi), text=True)
    from fluids.numerics import horner
    for t in (-1.0, -.35, .2, 1.0):
        xx = .5 * (hi - lo) * t + .5 * (hi + lo)
        want = sum(k * math.cos(i * math.acos(t)) for i, k in enumerate(co))
        need(abs(horner(u, t) - want) < 1e-9 * 3 ** n, "chebfun_to_poly(%d)" % n)
        if n <= 6:
            need(abs(horner(v, xx) - want) < 1e-7 * (1 + (abs(hi) + abs(lo)) / (hi - lo)) ** n, "cheb_to_poly(%d)" % n)
        ns = {"horner": horner, "x": xx}
        exec(txt.replace("\nhorner", "\nr = horner"), ns)
        need(abs(ns["r"] - want) < 1e-9 * 3 ** n, "chebfun_to_poly text (%d): %r" % (n, ns["r"]))
    return n


def scaled(name, dom, k):
    """the same algebra on a function of another magnitude"""
    lo, hi = DOMS[dom]
    p = pscale(POLYS[name], F(k))
    sc = scale_of(p, lo, hi)
    if sc == 0:
        return TRIVIAL
    w = float(hi - lo)
    for route in ROUTES:
        o = make(p, lo, hi, route)
        s = St(o, p, lo, hi, 1e-9 * sc, "%g * %s on [%s, %s] by %s" % (k, name, lo, hi, route))
        judge(s, deep=False)
        for op, r, q, big in (("derivative", o.differentiate(), pdiff(p), None), ("integral", o.integrate(), pint(p, lo), None), ("square", o * o, pmul(p, p), None), ("sum", o + o, pscale(p, 2), None),
                              ("half", o * .5, pscale(p, F(1, 2)), None), ("part", o.restrict([float(lo), float(lo + (hi - lo) / 4)]), p, None)):
            l, h = (lo, lo + (hi - lo) / 4) if op == "part" else (lo, hi)
            m = scale_of(q, l, h)
            tol = 1e-8 * m + (1e-10 * sc * 500 / w if op == "derivative" else 0)
            if m == 0:
                continue
            judge(St(r, q, l, h, tol, s.trail + ", " + op), deep=False)
    return sc


def spaces(tier):
    T = tier == "thorough"
    names = list(POLYS)
    D = 2 if not T else 3
    inits = [(n, d) for n in names for d in DOMS]
    oth = ("line", "cubic") if not T else ("line", "square", "cubic")
    return [
        Space("ways to build", lambda: [(n, d, r) for n in names for d in DOMS for r in ROUTES], lambda c: routes(*c)),
        Space("operation sequences", lambda: [(n, d, o, D) for n, d in inits for o in oth if not T or len(POLYS[n]) <= 7], lambda c: explore(*c), limit=1200),
        Space("elementary functions", lambda: [(n, v) for n in FUN for v in ("method", "numpy", "direct", "build")], lambda c: ufuncs(*c)),
        Space("many roots", lambda: [(k, lo, hi) for k in (1.0, 5.0, 20.0, 55.0, 90.0, 130.0) for lo, hi in ((-1.0, 1.0), (.1, 2.3), (-4.0, 1.0))], lambda c: oscillating(*c)),
        Space("solving by approximation", lambda: [(n, g, d, k) for n in ("square", "exp", "sin", "cubic") for g in (.1, .3, .9) for d in ((-2.0, 2.0), (-1.0, 3.0), (-5.0, 5.5)) for k in (1, 2)], lambda c: solve_case(*c)),
        Space("refusals", lambda: list(DOMS), refuse),
        Space("helpers", lambda: [(lo, hi, n) for lo, hi in ((-1.0, 1.0), (.0023, 4.7), (-7.0, -2.0), (100.0, 101.0)) for n in range(1, 9)], lambda c: helpers(*c)),
        Space("magnitudes", lambda: [(n, d, k) for n in names for d in DOMS for k in (1e-12, 1e-6, 1e6, 1e12)], lambda c: scaled(*c)),
    ]
