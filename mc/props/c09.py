"""C09: finite differences and quadrature on the polynomials they are exact for."""
import itertools
import math
from fractions import Fraction as Fr

from ..core import Space, Violation, need, expect, attempt, close, TRIVIAL
import fluids.numerics as fn

RULE = ("every (derivative order, number of points) pair x every monomial degree up to exactness x centres x steps x limits x scalar/vector form; "
        "every monomial degree up to the quadrature's order x intervals; every ordered pair of weight requests; a case is non-trivial "
        "when the pair is admissible")
ASSUMPTIONS = []


def weights_exact(n, m):
    """Weights of the m-point central formula for the n-th derivative, by Lagrange polynomials over the rationals."""
    h = m // 2
    xs = range(-h, h + 1)
    out = []
    for xi in xs:
        p = [Fr(1)]                       # ascending coefficients of prod (x - xj)/(xi - xj)
        for xj in xs:
            if xj != xi:
                q = [Fr(0)] * (len(p) + 1)
                for k, c in enumerate(p):
                    q[k] -= c * xj
                    q[k + 1] += c
                p = [c / (xi - xj) for c in q]
        out.append(p[n] * math.factorial(n))
    return out


def w_cases(big):
    def gen():
        for m in range(2, 22 if big else 20):
            for n in range(1, 7 if big else 5):
                yield n, m
    return gen


def do_weights(case):
    n, m = case
    ok, g = attempt(fn.central_diff_weights, m, n)
    if m % 2 == 0 or m < n + 1:
        need(not ok, "central_diff_weights(%d, divisions=%d) accepted" % (m, n))
        need(not attempt(fn.derivative, lambda x: x, 1.0, n=n, order=m)[0], "derivative(n=%d, order=%d) accepted" % (n, m))
        return "!"
    need(ok, "central_diff_weights(%d, divisions=%d) raised %s" % (m, n, g))
    w = [float(x) for x in weights_exact(n, m)]
    big = max(map(abs, w))
    expect(list(g), w, 1e-9, 1e-12 * big, "central_diff_weights(%d, divisions=%d)" % (m, n))
    expect(list(fn.central_diff_weights(m, n)), list(g), 0, 0, "central_diff_weights(%d, divisions=%d) asked again" % (m, n))
    return g


def d_cases(big):
    ords = [(n, m) for m in range(3, 20 if big else 14, 2) for n in (1, 2, 3, 4) if m > n and (m <= 9 or n < 3)]

    def gen():
        for n, m in ords:
            for deg in range(0, m):
                for x0 in (-2.0, 0.0, 0.5, 3.0):
                    for dx in (0.5, 0.125, 1.0):
                        yield n, m, deg, x0, dx
    return gen


def dpow(deg, n, x):
    c = 1
    for i in range(n):
        c *= deg - i
    return Fr(c) * (Fr(x) ** (deg - n) if deg >= n else 0)


def do_deriv(case):
    n, m, deg, x0, dx = case
    h = m // 2
    pts = []

    def f(x, a=1.0, b=0.0):
        pts.append(x)
        return a * x ** deg + b
    want = float(dpow(deg, n, x0))
    sc = max(abs(x0 + h * dx), abs(x0 - h * dx), 1.0) ** deg / dx ** n
    tol = 3e-13 * sc * 10
    what = "derivative(x**%d at %r, dx=%r, n=%d, order=%d" % (deg, x0, dx, n, m)
    g = fn.derivative(f, x0, dx=dx, n=n, order=m)
    expect(g, want, 1e-9, tol, what + ")")
    allowed = [x0 + k * dx for k in range(-h, h + 1)]
    need(all(any(abs(p - q) < 1e-12 for q in allowed) for p in pts), what + "): evaluated at %r" % (pts,))
    expect(fn.derivative(f, x0, dx=dx, n=n, order=m, args=(3.0,), kwargs={"b": 2.0}), 3 * want, 1e-9, 4 * tol, what + ", args)")
    fv = lambda x, a=1.0: [a * x ** deg, -2.0 * x ** deg, 5.0]
    gv = fn.derivative(fv, x0, dx=dx, n=n, order=m, scalar=False, args=(4.0,))
    expect(gv, [4 * want, -2 * want, 0.0], 1e-9, 6 * tol + 1e-11 / dx ** n, what + ", scalar=False)")
    for lo, hi in ((None, x0), (x0, None), (None, x0 + 0.6 * h * dx), (x0 - 0.3 * h * dx, None), (None, x0 + 2 * h * dx), (x0 - 2 * h * dx, None),
                   (x0 - 3 * h * dx, x0 + 0.5 * dx), (x0 - 0.5 * dx, x0 + 3 * h * dx)):
        for vec in (False, True):
            del pts[:]
            kw = dict(dx=dx, n=n, order=m, lower_limit=lo, upper_limit=hi)
            g = fn.derivative((lambda x: [f(x), 1.0]) if vec else f, x0, scalar=not vec, **kw)
            g = g[0] if vec else g
            ww = "%s, lower_limit=%r, upper_limit=%r%s)" % (what, lo, hi, ", scalar=False" if vec else "")
            need(all((lo is None or p >= lo - 1e-12) and (hi is None or p <= hi + 1e-12) for p in pts), ww + " evaluated outside its limits: %r" % (pts,))
            mid = 0.5 * (min(pts) + max(pts))
            if (hi is None or x0 + h * dx <= hi) and (lo is None or x0 - h * dx >= lo):
                need(abs(mid - x0) < 1e-12, ww + " shifted its points without need")
            need(abs(mid - x0) <= h * dx * (1 + 1e-9), ww + ": points moved to %r" % mid)
            tl = 3e-12 * max(abs(mid) + h * dx, 1.0) ** deg / dx ** n
            expect(g, float(dpow(deg, n, mid)), 1e-9, tl, ww)
    return want


# ------------------------------------------------------------------- jacobians and hessians
PTS = [(1.0,), (0.0,), (-2.0, 3.0), (0.0, 4.0), (0.5, 0.0, -1.5), (2.0, 3.0, 5.0), (0.0, 0.0, 0.0)]


def jac_cases():
    for x in PTS:
        for pert in (2.0 ** -7, 1e-4):
            for zo in (2.0 ** -9, 1e-3):
                for kind in range(4):
                    yield x, pert, zo, kind


def lin(i, n):
    return [((3 * i + 2 * j * j + 1) % 7) - 3.0 for j in range(n)]


def do_jac(case):
    x, pert, zo, kind = case
    n = len(x)
    seen = []

    def f(v, s=1.0, t=0.0):
        seen.append(list(v))
        return s * sum(a * b for a, b in zip(lin(1, n), v)) + t
    want = lin(1, n)
    kw = dict(perturbation=pert, zero_offset=zo)
    a = list(x)
    w = "jacobian at %r with %r" % (x, kw)
    if kind == 0:
        g = fn.jacobian(f, a, **kw)
        expect(g, want, 1e-7, 1e-7, w)
        need(len(seen) == n + 1, w + ": %d evaluations" % len(seen))
        for v in seen[1:]:
            diff = [i for i in range(n) if v[i] != x[i] and abs(v[i] - x[i]) > 1e-14]
            need(len(diff) == 1, w + ": perturbed %r" % (v,))
        g = fn.jacobian(f, a, base=f(a), args=(2.0,), t=0.0, **kw) if False else fn.jacobian(f, a, args=(2.0,), t=3.0, **kw)
        expect(g, [2 * q for q in want], 1e-7, 1e-7, w + " with args")
        del seen[:]
        expect(fn.jacobian(f, a, base=f(a), **kw), want, 1e-7, 1e-7, w + " with base")
        need(len(seen) == n + 1, w + " with base: %d evaluations" % len(seen))
    elif kind == 1:
        for ny in (1, 2, 4):
            F = lambda v, s=1.0: [s * sum(p * q for p, q in zip(lin(i, n), v)) for i in range(ny)]
            expect(fn.jacobian(F, a, scalar=False, **kw), [lin(i, n) for i in range(ny)], 1e-7, 1e-7, w + " of %d functions" % ny)
            expect(fn.jacobian(F, a, scalar=False, args=(-2.0,), **kw), [[-2 * q for q in lin(i, n)] for i in range(ny)], 1e-7, 1e-7, w + " with args")
            expect(fn.jacobian(F, a, scalar=False, base=F(a), **kw), [lin(i, n) for i in range(ny)], 1e-7, 1e-7, w + " with base")
    elif kind == 2:
        H = [[float(((i + 1) * (j + 1)) % 5 - 1 + (((j + 1) * (i + 1)) % 5 - 1)) for j in range(n)] for i in range(n)]
        H = [[0.5 * (H[i][j] + H[j][i]) for j in range(n)] for i in range(n)]
        q = lambda v, s=1.0: s * (0.5 * sum(H[i][j] * v[i] * v[j] for i in range(n) for j in range(n)) + sum(lin(2, n)[i] * v[i] for i in range(n)) + 1.0)
        sc = 1e-11 / min(pert, zo) ** 2
        for c, A in ((1.0, ()), (-3.0, (-3.0,))):
            g = fn.hessian(q, a, args=A, **kw)
            expect(g, [[c * h for h in r] for r in H], 1e-6, sc, w.replace("jacobian", "hessian"))
            g = fn.hessian(q, a, full=False, args=A, **kw)
            expect(g, [[c * H[i][j] for j in range(i + 1)] for i in range(n)], 1e-6, sc, w.replace("jacobian", "lower hessian"))
        expect(fn.hessian(q, a, base=q(a), **kw), H, 1e-6, sc, w.replace("jacobian", "hessian with base"))
    else:
        Hs = [[[float((i * j + i + j + k) % 4 - 1) for j in range(n)] for i in range(n)] for k in range(3)]
        F = lambda v: [0.5 * sum(Hs[k][i][j] * v[i] * v[j] for i in range(n) for j in range(n)) + k for k in range(3)]
        sc = 1e-11 / min(pert, zo) ** 2
        g = fn.hessian(F, a, scalar=False, **kw)
        expect(g, [[[Hs[k][i][j] for k in range(3)] for j in range(n)] for i in range(n)], 1e-6, sc, w.replace("jacobian", "vector hessian"))
        g = fn.hessian(F, a, scalar=False, full=False, **kw)
        expect(g, [[[Hs[k][i][j] for k in range(3)] for j in range(i + 1)] for i in range(n)], 1e-6, sc, w.replace("jacobian", "lower vector hessian"))
    need(a == list(x), w + ": argument changed to %r" % (a,))
    return want


# ------------------------------------------------------------------- quadrature
IV = [(0.0, 1.0), (-1.0, 1.0), (-2.0, 0.5), (1.0, 0.0), (3.0, -1.0), (0.0, 1e-3), (-5.0, 5.0), (2.0, 2.0), (0.0, 10.0)]


def q_cases():
    for d in range(0, 45):
        for a, b in IV:
            yield d, a, b


def ipow(d, a, b):
    return (Fr(b) ** (d + 1) - Fr(a) ** (d + 1)) / (d + 1)


def do_quad(case):
    d, a, b = case
    want = float(ipow(d, a, b))
    m = max(abs(a), abs(b))
    sc = m ** d * max(abs(b - a), 1e-300)
    f = lambda x, s=1.0: s * x ** d
    ks, kw, lw = fn.kronrod_points[10], fn.kronrod_weights[10], fn.legendre_weights[10]
    v, e = fn.fixed_quad_Gauss_Kronrod(f, a, b, ks, kw, lw, ())
    w = "x**%d over [%r, %r]" % (d, a, b)
    if d <= 31:
        expect(v, want, 1e-11, 1e-12 * sc, "fixed_quad_Gauss_Kronrod of " + w)
    if d <= 19:
        need(abs(e) <= 1e-11 * sc, "fixed_quad_Gauss_Kronrod of %s: error estimate %r for an exact rule" % (w, e))
    elif d <= 31 and a == -b and d % 2 == 0:
        need(abs(e) > 0, "fixed_quad_Gauss_Kronrod of %s: no error estimate" % w)
    v2, e2 = fn.fixed_quad_Gauss_Kronrod(f, a, b, ks, kw, lw, (-2.5,))
    expect(v2, -2.5 * v, 1e-12, 1e-13 * sc, "fixed_quad_Gauss_Kronrod with args, " + w)
    for A in ((), (3.0,)):
        c = A[0] if A else 1.0
        r, err = fn.quad_adaptive(f, a, b, args=A)
        expect(r, c * want, 1e-8, 3e-8 * min(1.0, sc) + 1e-12 * sc, "quad_adaptive of " + w)
        r, err = fn.quad(f, a, b, args=A)
        expect(r, c * want, 1e-8, 3e-8 * min(1.0, sc) + 1e-12 * sc, "quad of " + w)
    r, err = fn.quad_adaptive(f, a, b, epsabs=0.0, epsrel=1e-12)
    expect(r, want, 1e-11, 1e-12 * sc, "quad_adaptive to 1e-12 of " + w)
    return v


FUN = {
    "exp": (math.exp, math.exp, None), "sin": (math.sin, lambda x: -math.cos(x), None), "cosh": (math.cosh, math.sinh, None),
    "lorentz": (lambda x: 1 / (1 + x * x), math.atan, None), "peak": (lambda x: 1 / (1e-2 + x * x), lambda x: 10 * math.atan(10 * x), None),
    "fast": (lambda x: math.cos(20 * x), lambda x: math.sin(20 * x) / 20, None),
    "kink": (lambda x: abs(x - 0.3), lambda x: 0.5 * (x - 0.3) * abs(x - 0.3), 1e-3), "sqrt": (lambda x: math.sqrt(abs(x)), lambda x: math.copysign(abs(x) ** 1.5, x) / 1.5, 1e-3),
}


def f_cases():
    for k in FUN:
        for a, b in IV:
            for eps in (1.49e-8, 1e-10, 1e-4):
                yield k, a, b, eps


def do_fun(case):
    k, a, b, eps = case
    f, F, tol = FUN[k]
    n = [0]

    def g(x):
        n[0] += 1
        need(min(a, b) - 1e-12 <= x <= max(a, b) + 1e-12, "quad_adaptive evaluated at %r outside [%r, %r]" % (x, a, b))
        return f(x)
    r, err = fn.quad_adaptive(g, a, b, epsrel=eps, epsabs=eps)
    want = F(b) - F(a)
    expect(r, want, tol or max(10 * eps, 1e-11), tol or max(10 * eps, 1e-11), "quad_adaptive of %s over [%r, %r] eps %r" % (k, a, b, eps))
    need(n[0] <= 21 * 255, "quad_adaptive used %d evaluations" % n[0])
    mid = a + 0.37 * (b - a)
    s = fn.quad_adaptive(f, a, mid, epsrel=eps, epsabs=eps)[0] + fn.quad_adaptive(f, mid, b, epsrel=eps, epsabs=eps)[0]
    expect(s, want, tol or max(20 * eps, 1e-11), tol or max(20 * eps, 1e-11), "additivity of quad_adaptive of %s over [%r, %r]" % (k, a, b))
    return r


def multi_cases():
    for p, q, r in itertools.product(range(4), repeat=3):
        for lim in range(3):
            yield p, q, r, lim


def polyint2(p, q, lo, hi, a, b):
    """int_a^b y^q int_lo(y)^hi(y) x^p dx dy with lo, hi linear (c0 + c1 y)."""
    def lin_pow(c, n):
        out = [Fr(1)]
        for _ in range(n):
            o = [Fr(0)] * (len(out) + 1)
            for k, v in enumerate(out):
                o[k] += v * Fr(c[0])
                o[k + 1] += v * Fr(c[1])
            out = o
        return out
    h, l = lin_pow(hi, p + 1), lin_pow(lo, p + 1)
    tot = Fr(0)
    for k in range(p + 2):
        tot += (h[k] - l[k]) / (p + 1) * ipow(q + k, a, b)
    return tot


def do_multi(case):
    p, q, r, lim = case
    lo, hi = [((0.0, 0.0), (1.0, 0.0)), ((0.5, -1.0), (2.0, 1.0)), ((0.0, 1.0), (1.0, -0.5))][lim]
    a, b = [(0.0, 1.0), (-1.0, 2.0), (0.25, 1.5)][lim]
    want = float(polyint2(p, q, lo, hi, a, b))
    f = lambda x, y, s=1.0: s * x ** p * y ** q
    L, H = lambda y, *s: lo[0] + lo[1] * y, lambda y, *s: hi[0] + hi[1] * y
    w = " of x**%d*y**%d, limits %d" % (p, q, lim)
    expect(fn.dblquad(f, a, b, L, H)[0], want, 1e-9, 1e-10, "dblquad" + w)
    expect(fn.dblquad(f, a, b, L, H, args=(2.0,))[0], 2 * want, 1e-9, 1e-10, "dblquad with args" + w)
    rng = [lambda y, *s: (L(y), H(y)), lambda *s: (a, b)]
    expect(fn.nquad(f, rng)[0], want, 1e-8, 1e-7, "nquad" + w)
    expect(fn.nquad(f, rng, args=(2.0,))[0], 2 * want, 1e-8, 1e-7, "nquad with args" + w)
    w3 = want * float(ipow(r, 0.5, 2.0))
    rng3 = [lambda y, z, *s: (L(y), H(y)), lambda z, *s: (a, b), lambda *s: (0.5, 2.0)]
    expect(fn.nquad(lambda x, y, z: x ** p * y ** q * z ** r, rng3)[0], w3, 1e-8, 1e-6, "triple nquad" + w)
    return want


def hist_cases():
    ks = [(1, 3), (2, 3), (1, 5), (3, 5), (4, 5), (4, 7), (5, 7), (3, 9), (3, 11)]
    yield from itertools.product(ks, repeat=2)


def do_hist(case):
    (n1, m1), (n2, m2) = case
    w1 = list(fn.central_diff_weights(m1, n1))
    w2 = list(fn.central_diff_weights(m2, n2))
    expect(list(fn.central_diff_weights(m1, n1)), w1, 0, 0, "weights %r after %r" % case)
    expect(list(fn.central_diff_weights(m2, n2)), w2, 0, 0, "weights %r after %r" % case)
    for (n, m), w in (((n1, m1), w1), ((n2, m2), w2)):
        e = [float(v) for v in weights_exact(n, m)]
        expect(w, e, 1e-9, 1e-12 * max(map(abs, e)), "central_diff_weights(%d, divisions=%d) in history %r" % (m, n, case))
    return w1


def spaces(tier):
    big = tier != "quick"
    return [
        Space("difference weights", w_cases(big), do_weights, key=repr, limit=120),
        Space("derivatives of monomials", d_cases(big), do_deriv, key=repr, limit=120),
        Space("jacobians and hessians", jac_cases, do_jac, key=repr),
        Space("quadrature of monomials", q_cases, do_quad, key=repr),
        Space("quadrature of functions", f_cases, do_fun, key=repr),
        Space("multiple integrals", multi_cases, do_multi, key=repr),
        Space("weight request histories", hist_cases, do_hist, key=repr, limit=120),
    ]
