"""C06: polynomial roots by exact reconstruction of the polynomial."""
import itertools
from fractions import Fraction as Fr

from ..core import Space, Violation, need, expect, TRIVIAL
import fluids.numerics as fn
import fluids.numerics.polynomial_utils as pu

RULE = ("every coefficient tuple over a small alphabet (all zero, sign and degenerate-leading patterns) and every multiset of roots over a "
        "root alphabet (multiplicities, clusters, zero, wide magnitudes) x leading coefficients; a case is non-trivial when the "
        "polynomial has a root at all")
ASSUMPTIONS = ["accuracy is judged by the relative change of the coefficients of the polynomial the returned roots define (backward error)"]


def recon(r):
    c = [1.0]
    for x in r:
        c = [(c[i] if i < len(c) else 0) - (x * c[i - 1] if i > 0 else 0) for i in range(len(c) + 1)]
    return c


def backward(co, r):
    m = max(abs(x) for x in r) or 1.0
    rc = recon(r)
    return max(abs(rc[i] - co[i] / co[0]) / m ** i for i in range(len(co)))


def disc(co):
    """Exact discriminant of a quadratic or cubic."""
    co = [Fr(x) for x in co]
    if len(co) == 3:
        a, b, c = co
        return b * b - 4 * a * c
    a, b, c, d = co
    return 18 * a * b * c * d - 4 * b ** 3 * d + b * b * c * c - 4 * a * c ** 3 - 27 * a * a * d * d


def rel_disc(co, r):
    m = max(abs(x) for x in r) or 1.0
    n = len(co) - 1
    return float(abs(disc(co))) / (abs(co[0]) ** (2 * n - 2) * m ** (n * (n - 1)))


def judge(name, co, r, tol, n):
    need(len(r) == n, "%s%r returned %d roots" % (name, tuple(co), len(r)))
    e = backward(co, r)
    need(e <= tol, "%s%r = %r: backward error %.2g" % (name, tuple(co), r, e))
    return e


def realness(name, co, r, tol):
    """One real and a conjugate pair, or all real, as the exact discriminant says."""
    if rel_disc(co, r) < 1e-6:
        return
    m = max(abs(x) for x in r)
    im = [abs(complex(x).imag) > tol * m for x in r]
    if disc(co) > 0:
        need(not any(im), "%s%r = %r, but all the roots are real" % (name, tuple(co), r))
    else:
        need(sum(im) == 2, "%s%r = %r, but exactly one pair of the roots is complex" % (name, tuple(co), r))
        z = [complex(x) for x, f in zip(r, im) if f]
        need(abs(z[0] - z[1].conjugate()) <= 1e-7 * m, "%s%r = %r: not a conjugate pair" % (name, tuple(co), r))


def exact_real(name, co, r):
    """Real roots come back as real numbers (zero imaginary part)."""
    if rel_disc(co, r) < 1e-6:
        return
    n = sum(complex(x).imag == 0.0 for x in r)
    want = len(r) if disc(co) > 0 else len(r) - 2
    need(n == want, "%s%r = %r: %d real values, %d real roots" % (name, tuple(co), r, n, want))


def quad_case(co):
    a, b, c = co
    if a == 0 and b == 0:
        return TRIVIAL
    r = fn.roots_quadratic(a, b, c)
    if a == 0:
        return expect(tuple(r), (-c / b, -c / b), 1e-13, 0, "roots_quadratic%r" % (co,))
    judge("roots_quadratic", co, r, 1e-13, 2)
    exact_real("roots_quadratic", co, r)
    return r


def cubic_case(co, tol=1e-7, tolr=1e-9):
    a, b, c, d = co
    if a == 0 and b == 0 and c == 0:
        return TRIVIAL
    r = fn.roots_cubic(a, b, c, d)
    need(len(r) == 3, "roots_cubic returned %d roots" % len(r))
    if a == 0 and b == 0:
        return expect(tuple(r), (-d / c,) * 3, 1e-13, 0, "roots_cubic%r" % (co,))
    if a == 0:
        s = list(r)                      # two roots of the quadratic, one of them listed twice
        e = min(backward((b, c, d), p) for p in itertools.combinations(s, 2))
        need(e <= 1e-13, "roots_cubic%r = %r: not the roots of the quadratic" % (co, r))
        q = fn.roots_quadratic(b, c, d)
        need(all(min(abs(x - y) for y in q) <= 1e-12 * (1 + abs(x)) for x in s), "roots_cubic%r = %r: extra root" % (co, r))
        return r
    judge("roots_cubic", co, r, tol, 3)
    exact_real("roots_cubic", co, r)
    realness("roots_cubic", co, r, tolr)
    for name, v in (("roots_cubic_a2", fn.roots_cubic_a2(a, b, c, d)), ("roots_cubic_a1", fn.roots_cubic_a1(b / a, c / a, d / a))):
        judge(name, co, v, max(tol, 1e-7), 3)
        realness(name, co, v, 1e-5)
    return r


def quartic_case(co, tol=1e-6):
    if co[0] == 0:
        return TRIVIAL
    r = fn.roots_quartic(*co)
    judge("roots_quartic", co, r, tol, 4)
    return r


def coef_spaces(tier):
    big = tier != "quick"
    Vq = [-1e3, -3.0, -2.0, -1.0, -0.5, -1e-3, 0.0, 1e-3, 0.5, 1.0, 2.0, 3.0, 1e3]
    Vc = [-10.0, -3.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 10.0] if not big else [-10.0, -4.0, -3.0, -2.0, -1.5, -1.0, -0.5, -0.125, 0.0, 0.125, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 10.0]
    V4 = [-2.0, -1.0, 0.0, 1.0, 3.0] if not big else [-5.0, -3.0, -2.0, -1.0, -0.5, 0.0, 0.5, 1.0, 2.0, 3.0, 5.0]
    out = [Space("quadratic coefficients", lambda: itertools.product(Vq, repeat=3), quad_case, key=repr),
           Space("cubic coefficients", lambda: itertools.product(Vc, repeat=4), cubic_case, key=repr),
           Space("quartic coefficients", lambda: itertools.product(V4, repeat=5), quartic_case, key=repr)]
    R = [-3.0, -1.0, 0.0, 1.0, 1.0000001, 1.001, 2.0, 1e3, 1e-3, 1e6]
    if big:
        R += [-1e4, -0.5, 0.25, 1.5, 7.0, -1.0001]
    S = (1.0, -2.0, 1e-6, 1e6)

    def rooted(n):
        def cases():
            for rs in itertools.combinations_with_replacement(R, n):
                for s in S:
                    yield rs, s
        return cases

    def spread_ok(rs):
        return True

    def run2(case):
        rs, s = case
        co = tuple(x * s for x in recon(rs))
        r = fn.roots_quadratic(*co)
        judge("roots_quadratic", co, r, 1e-12, 2)
        if len(set(rs)) == 2 and rs[0] * rs[1] <= 0 and abs(rs[0] - rs[1]) > 1e-3:
            expect(sorted(r), sorted(rs), 1e-9, 1e-9 * max(map(abs, rs)), "roots_quadratic%r" % (co,))
        return r

    def run3(case):
        rs, s = case
        co = tuple(x * s for x in recon(rs))
        return cubic_case(co, 3e-5, 1e-3)

    def run4(case):
        rs, s = case
        return quartic_case(tuple(x * s for x in recon(rs)), 1e-9)
    out += [Space("quadratics from roots", rooted(2), run2, key=repr),
            Space("cubics from roots", rooted(3), run3, key=repr),
            Space("quartics from roots", rooted(4), run4, key=repr)]

    def pair_cases():
        for re, im in itertools.product((-2.0, 0.0, 0.5, 3.0, 100.0), (0.1, 1.0, 4.0, 1e3)):
            for r1 in (None, -3.0, 0.0, 1.0, 50.0):
                for r2 in ((None,) if r1 is None else (None, -3.0, 2.0, "conj")):
                    for s in (1.0, -3.0, 1e4):
                        yield re, im, r1, r2, s

    def run_pair(case):
        re, im, r1, r2, s = case
        rs = [complex(re, im), complex(re, -im)]
        if r2 == "conj":
            rs += [complex(r1, 2.0), complex(r1, -2.0)]
        else:
            rs += [x for x in (r1, r2) if x is not None]
        co = tuple(complex(x).real * s for x in recon(rs))
        if len(rs) == 2:
            r = fn.roots_quadratic(*co)
            judge("roots_quadratic", co, r, 1e-12, 2)
            exact_real("roots_quadratic", co, r)
            return r
        if len(rs) == 3:
            return cubic_case(co, 1e-7, 1e-6)
        return quartic_case(co, 1e-8)
    out.append(Space("complex pairs", pair_cases, run_pair, key=repr))

    def defl_cases():
        for r0 in (-3.0, 0.5, 2.0, 10.0):
            for r1, r2 in itertools.combinations_with_replacement((-7.0, -1.0, 0.25, 3.0, 1e3), 2):
                yield r0, (r1, r2)
            for p, q in itertools.product((-2.0, 0.0, 1.0), (0.5, 3.0)):
                yield r0, complex(p, q)

    def run_defl(case):
        r0, v = case
        if isinstance(v, complex):
            co = recon([r0, v, v.conjugate()])
            g = pu.deflate_cubic_real_roots(co[1].real, co[2].real, co[3].real, r0)
            return expect(tuple(g), (0.0, 0.0), 0, 0, "deflate_cubic_real_roots with a complex pair")
        co = recon([r0, v[0], v[1]])
        if v[0] == v[1]:
            F, G = co[1] + r0, -co[3] / r0
            if F * F - 4 * G < 0:
                return TRIVIAL
        g = pu.deflate_cubic_real_roots(*co[1:], r0)
        return expect(sorted(g), sorted(v), 1e-6, 1e-9, "deflate_cubic_real_roots of roots %r" % (case,))
    out.append(Space("deflation to the other real roots", defl_cases, run_defl, key=repr))

    def sign_cases():
        A = (-4.0, -1.0, 0.5, 2.0, 7.0)
        for n in range(0, 5):
            for rs in itertools.combinations(A, n):
                for pair in (None, (1.0, 1.5), (-3.0, 0.5)):
                    for s in (1.0, -2.0):
                        for dom in (None, (-6.0, -5.0), (-2.0, 0.0), (0.0, 1.0), (-0.5, 0.3), (3.0, 20.0), (-100.0, 100.0), (0.49, 0.51)):
                            yield rs, pair, s, dom

    def run_sign(case):
        rs, pair, s, dom = case
        z = list(rs) + ([complex(*pair), complex(*pair).conjugate()] if pair else [])
        if not z:
            return TRIVIAL
        co = [complex(x).real * s for x in recon(z)]
        lo, hi = dom or (-1e300, 1e300)
        inside = [r for r in rs if lo <= r <= hi]
        mid = (lo + hi) / 2 if dom else 1e3
        sgn = s
        for r in rs:
            sgn *= 1 if mid > r else -1
        pos = not inside and sgn > 0
        neg = not inside and sgn < 0
        g = fn.is_poly_positive(co, domain=dom), fn.is_poly_negative(co, domain=dom)
        need((bool(g[0]), bool(g[1])) == (pos, neg), "is_poly_positive/negative(%r, domain=%r) = %r, expected %r" % (co, dom, g, (pos, neg)))
        return g
    out.append(Space("sign of a polynomial on a domain", sign_cases, run_sign, key=repr))
    return out


def spaces(tier):
    return coef_spaces(tier)
