"""C07: double-double arithmetic against exact rational / 60-digit arithmetic."""
import itertools
import math
from fractions import Fraction as Fr

import mpmath

from ..core import Space, Violation, need, TRIVIAL
import fluids.numerics.doubledouble as dd

RULE = ("operands are unevaluated sums hi+lo with hi from significands x exponents x signs and lo = hi*2^-53*(0, +-0.47, "
        "0.11, 2^-30, ...); every pair / tuple of operands of the lattice is run; all results are compared in exact arithmetic")
ASSUMPTIONS = ["IEEE double arithmetic with round to nearest; no overflow or underflow (operands within 2^+-300)"]
mpmath.mp.prec = 260

SIG = [1.0, 1.5, 1.0 + 2.0 ** -52, 2.0 - 2.0 ** -52, math.pi / 2, 4.0 / 3, 1.0 + 2.0 ** -26, 1.2345678912345678]
LO = [0.0, 0.47, -0.47, 0.11, -2.0 ** -30]
EPS = Fr(1, 2 ** 104)


def operands(sigs, exps, los, signs=(1, -1), zero=True):
    out = [(0.0, 0.0)] if zero else []
    for s in sigs:
        for e in exps:
            hi = math.ldexp(s, e)
            for l in los:
                lo = hi * l * 2.0 ** -53
                if hi + lo != hi:
                    continue
                for g in signs:
                    out.append((g * hi, g * lo))
    return out


def ex(p):
    return Fr(p[0]) + Fr(p[1])


def check(what, got, want, scale, ulps, renorm=True):
    for v in got:
        need(isinstance(v, (int, float)) and math.isfinite(v), lambda: "%s: non-finite part %r" % (what, got))
    err = abs(Fr(got[0]) + Fr(got[1]) - want)
    need(err <= ulps * EPS * abs(scale), lambda: "%s: %r differs from the exact result by %.3g units of 2^-104" % (
        what, got, float(err / (EPS * abs(scale))) if scale else float("inf")))
    if renorm:
        need(got[0] + got[1] == got[0], lambda: "%s: parts %r overlap" % (what, got))
    return got


def mpf(f):
    return mpmath.mpf(f.numerator) / mpmath.mpf(f.denominator)


def fr(m):
    s, man, e, _ = m._mpf_
    v = Fr(man) * (Fr(2) ** e)
    return -v if s else v


def binary(tier):
    sig = SIG if tier == "thorough" else SIG[:6]
    ex1 = [-300, -60, -53, -27, -1, 0, 1, 3, 40, 54, 107, 250] if tier == "thorough" else [-107, -53, -2, 0, 1, 54]
    A = operands(sig, [0] if tier != "thorough" else [0, -7], LO)
    B = operands(sig, ex1, LO)

    def cases():
        return itertools.product(range(len(A)), range(len(B)))

    def run(c):
        a, b = A[c[0]], B[c[1]]
        xa, xb = ex(a), ex(b)
        t = (a, b)
        r = check("add_dd%r" % (t,), dd.add_dd(*a, *b), xa + xb, abs(xa) + abs(xb), 16)
        check("add_dd swapped", dd.add_dd(*b, *a), xa + xb, abs(xa) + abs(xb), 16)
        m = check("mul_dd%r" % (t,), dd.mul_dd(*a, *b), xa * xb, xa * xb, 32)
        if b[0] != 0:
            check("div_dd%r" % (t,), dd.div_dd(*a, *b), xa / xb, xa / xb, 64)
        check("mul_noerrors_dd", dd.mul_noerrors_dd(a[0], b[0]), Fr(a[0]) * Fr(b[0]), Fr(a[0]) * Fr(b[0]), 0)
        for name, want in (("eq_dd", xa == xb), ("neq_dd", xa != xb), ("lt_dd", xa < xb), ("le_dd", xa <= xb), ("gt_dd", xa > xb),
                           ("ge_dd", xa >= xb)):
            for p, q, w in ((a, b, want),):
                need(bool(getattr(dd, name)(*p, *q)) == w, "%s%r is not %r" % (name, (p, q), w))
        return r, m
    return Space("binary operations", cases, run, key=lambda c: "%r,%r" % (A[c[0]], B[c[1]]))


def compare(tier):
    """orderings of numbers that agree in the leading part"""
    A = operands(SIG, [0, 5], [0.0, 0.47, -0.47, 0.11, -0.11])

    def cases():
        for i, a in enumerate(A):
            for j, b in enumerate(A):
                if a[0] == b[0] or abs(i - j) < 3:
                    yield i, j

    def run(c):
        a, b = A[c[0]], A[c[1]]
        xa, xb = ex(a), ex(b)
        r = []
        for name, want in (("eq_dd", xa == xb), ("neq_dd", xa != xb), ("lt_dd", xa < xb), ("le_dd", xa <= xb), ("gt_dd", xa > xb),
                           ("ge_dd", xa >= xb)):
            need(bool(getattr(dd, name)(*a, *b)) == want, "%s%r is not %r" % (name, (a, b), want))
            r.append(want)
        return r
    return Space("comparisons", cases, run)


def unary(tier):
    exps = list(range(-40, 41)) if tier == "thorough" else [-300, -101, -53, -27, -3, -2, -1, 0, 1, 2, 3, 28, 52, 100, 299]
    A = operands(SIG, exps, LO)

    def cases():
        return range(len(A))

    def run(i):
        a = A[i]
        x = ex(a)
        out = []
        out.append(check("square_dd%r" % (a,), dd.square_dd(*a), x * x, x * x, 32))
        out.append(check("cube_dd%r" % (a,), dd.cube_dd(*a), x ** 3, x ** 3, 96))
        if x >= 0:
            s = fr(mpmath.sqrt(mpf(x)))
            out.append(check("sqrt_dd%r" % (a,), dd.sqrt_dd(*a), s, s, 64))
        if x > 0:
            s = fr(mpmath.cbrt(mpf(x)))
            out.append(check("cbrt_dd%r" % (a,), dd.cbrt_dd(*a), s, s, 256 + math.log(a[0]) ** 2))
            out.append(check("cbrt_explicit_dd%r" % (a,), dd.cbrt_explicit_dd(*a), s, s, 256 + math.log(a[0]) ** 2))
        return out
    return Space("unary operations", cases, run, key=lambda i: repr(A[i]))


def intpow(tier):
    A = operands(SIG, [-3, 0, 1, 4], LO, zero=False)
    NS = list(range(-40, 41)) + [63, 64, 65, -64, -65]

    def run(c):
        i, n = c
        a = A[i]
        x = ex(a) ** n
        g = dd.intpow_dd(*a, n)
        r = check("intpow_dd%r" % ((a, n),), g, x, x, 64 * (abs(n) + 1))
        if a[0] > 0 or True:
            g2 = dd.pow_dd(*a, n, 0.0)
            check("pow_dd%r" % ((a, n),), g2, x, x, 64 * (abs(n) + 1))
        return r
    return Space("integer powers", lambda: itertools.product(range(len(A)), NS), run, key=lambda c: "%r,%d" % (A[c[0]], c[1]))


def exps(tier):
    base = [0.0, 0.25, 0.5, 0.49999, 0.50001, 1.0, 1.5, 2.5, 3.5, 0.1, 1e-3, 1e-9, 1e-17, 2.718281828459045, 5.99, 7.3, 10.0, 33.3, 100.5, 300.25, 600.1]
    if tier == "thorough":
        base += [i / 8 for i in range(1, 160)]
    A = []
    for b in base:
        for g in (1, -1):
            for l in LO:
                lo = b * l * 2.0 ** -53
                A.append((g * b, g * lo))

    def run(i):
        a = A[i]
        x = ex(a)
        e = fr(mpmath.exp(mpf(x)))
        out = [check("exp_dd%r" % (a,), dd.exp_dd(*a), e, e, 4096 * (1 + abs(int(x))))]
        return out
    return Space("exponential", lambda: range(len(A)), run, key=lambda i: repr(A[i]))


def logs(tier):
    A = [a for a in operands(SIG, [-100, -20, -3, -2, -1, 0, 1, 2, 3, 20, 100], LO, signs=(1,), zero=False)]
    B = [(0.5, 0.0), (1 / 3.0, 1.850371707708594e-17), (2.5, 0.0), (-0.7, 2e-17), (math.pi, 1.2246467991473532e-16), (-7.25, 0.0)]

    def run(i):
        a = A[i]
        x = mpf(ex(a))
        l = fr(mpmath.log(x))
        out = [check("log_dd%r" % (a,), dd.log_dd(*a), l, max(abs(l), 1), 4096 * (1 + abs(int(l))))]
        for n in B:
            p = mpmath.log(x) * mpf(ex(n))
            if abs(p) < 300:
                w = fr(mpmath.exp(p))
                out.append(check("pow_dd%r" % ((a, n),), dd.pow_dd(*a, *n), w, w, 4096 * 16 * (1 + abs(int(p)))))
        return out
    return Space("logarithm and real powers", lambda: range(len(A)), run, key=lambda i: repr(A[i]))


def complexes(tier):
    exs = [-30, -1, 0, 2, 27] if tier == "thorough" else [-20, 0, 1]
    R = operands([1.0, 1.5, math.pi / 2, 2 - 2.0 ** -52], exs, [0.0, 0.47, -0.31])
    Y = operands([1.0, 4.0 / 3, 1.2345678912345678], [-1, 0, 3], [0.0, 0.41])

    def cases():
        for i in range(len(R)):
            for j in range(len(R)):
                yield i, j

    def cc(what, got, wr, wi, scale, ulps):
        need(len(got) == 4, "%s: %r" % (what, got))
        check(what + ".real", got[:2], wr, scale, ulps, renorm=False)
        check(what + ".imag", got[2:], wi, scale, ulps, renorm=False)
        return got

    def mc(z):
        return mpmath.mpc(mpf(z[0]), mpf(z[1]))

    def run(c):
        a, b = R[c[0]], R[c[1]]
        xr, xi = ex(a), ex(b)
        mag2 = xr * xr + xi * xi
        mag = fr(mpmath.sqrt(mpf(mag2)))
        out = []
        if mag2:
            out.append(cc("imag_inv_dd%r" % ((a, b),), dd.imag_inv_dd(*a, *b), xr / mag2, -xi / mag2, 1 / mag, 256))
            z = mpmath.sqrt(mc((xr, xi)))
            w = (fr(z.real), fr(z.imag))
            # cancellation in |z| -+ Re z loses the relative accuracy of the smaller part only
            g = dd.sqrt_imag_dd(*a, *b)
            need(len(g) == 4 and all(math.isfinite(v) for v in g), "sqrt_imag_dd%r = %r" % ((a, b), g), key="sqrt_imag_dd%r" % ((a, b),))
            gr, gi = Fr(g[0]) + Fr(g[1]), Fr(g[2]) + Fr(g[3])
            sr, si = gr * gr - gi * gi, 2 * gr * gi
            need(abs(sr - xr) <= 2 ** 14 * EPS * mag and abs(si - xi) <= max(2 ** 14 * EPS * mag, 0) + Fr(2) ** -50 * mag * (1 if abs(xi) < abs(xr) / 100 else 0),
                 "sqrt_imag_dd%r = %r: its square is (%.17g, %.17g)" % ((a, b), g, float(sr), float(si)))
            need(gr >= 0, "sqrt_imag_dd%r = %r is not the principal root" % ((a, b), g))
            out.append(g)
            if not (xi == 0 and xr < 0):
                q = dd.cbrt_imag_dd(*a, *b)
                need(len(q) == 4 and all(math.isfinite(v) for v in q), "cbrt_imag_dd%r = %r" % ((a, b), q))
                qr, qi = Fr(q[0]) + Fr(q[1]), Fr(q[2]) + Fr(q[3])
                cr, ci = qr ** 3 - 3 * qr * qi ** 2, 3 * qr ** 2 * qi - qi ** 3
                need(abs(cr - xr) <= 2 ** 14 * EPS * mag and abs(ci - xi) <= 2 ** 14 * EPS * mag,
                     "cbrt_imag_dd%r = %r: its cube is (%.17g, %.17g)" % ((a, b), q, float(cr), float(ci)))
                need(qr > 0, "cbrt_imag_dd%r is not the principal root" % ((a, b),))
                out.append(q)
        for k in range(0, len(Y) - 1):
            y, v = Y[k], Y[(k * 7 + 3 + c[0]) % len(Y)]
            yr, yi = ex(y), ex(v)
            ymag2 = yr * yr + yi * yi
            s = fr(mpmath.sqrt(mpf(mag2 * ymag2)))
            cc("mul_imag_dd%r" % ((a, b, y, v),), dd.mul_imag_dd(*a, *b, *y, *v), xr * yr - xi * yi, xr * yi + xi * yr, s, 128)
            cc("add_imag_dd", dd.add_imag_dd(*a, *b, *y, *v), xr + yr, xi + yi, abs(xr) + abs(yr) + abs(xi) + abs(yi), 16)
            h = [Fr(q) for q in (a[0], b[0], y[0], v[0])]
            s2 = abs(h[0] * h[2]) + abs(h[1] * h[3]) + abs(h[0] * h[3]) + abs(h[1] * h[2])
            cc("mul_imag_noerrors_dd", dd.mul_imag_noerrors_dd(a[0], b[0], y[0], v[0]), h[0] * h[2] - h[1] * h[3],
               h[0] * h[3] + h[1] * h[2], s2, 16)
            if ymag2:
                sq = fr(mpmath.sqrt(mpf(mag2 / ymag2)))
                out.append(cc("div_imag_dd%r" % ((a, b, y, v),), dd.div_imag_dd(*a, *b, *y, *v), (xr * yr + xi * yi) / ymag2,
                              (xi * yr - xr * yi) / ymag2, sq, 512))
        return out
    return Space("complex operations", cases, run, key=lambda c: "%r,%r" % (R[c[0]], R[c[1]]))


def spaces(tier):
    return [binary(tier), compare(tier), unary(tier), intpow(tier), exps(tier), logs(tier), complexes(tier)]
