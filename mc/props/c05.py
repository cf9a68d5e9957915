"""C05: polynomial and Chebyshev evaluation and calculus against exact rational algebra."""
import itertools
import math
from fractions import Fraction as Fr
from math import comb, factorial

from ..core import Space, Violation, need, expect, attempt, close, same, TRIVIAL, around
from ..grid import harvest, spread
import fluids.numerics as fn
import fluids.numerics.polynomial_evaluation as pe
import fluids.numerics.polynomial_utils as pu

RULE = ("every coefficient list over a small alphabet up to length 4, over {-1, 0, 2} up to length 6, and patterned lists up to "
        "length 14, each at every point of an evaluation lattice and every offset/scale or (T, Tc); non-trivial when the list is non-empty")
ASSUMPTIONS = ["tolerances are scaled by the sum of absolute terms (the conditioning of the evaluation)"]


def coeff_lists(tier):
    out = []
    for n in range(1, 4):
        out += list(itertools.product((-2.0, -1.0, 0.0, 1.0, 3.5), repeat=n))
    out += list(itertools.product((-1.0, 0.0, 1.0, 3.5) if tier == "thorough" else (-1.0, 0.0, 3.5), repeat=4))
    for n in (5, 6) if tier == "thorough" else (5,):
        out += list(itertools.product((-1.0, 0.0, 2.0), repeat=n))
    for n in range(6, 15):
        for pat in ((1.0,), (1.0, -1.0), (0.5, 2.0, -3.0), (0.0, 1.0), (1e3, -1e-3)):
            out.append(tuple(pat[i % len(pat)] * (1 + 0.1 * i) for i in range(n)))
    return out


XS = [-2.0, -1.0, -0.5, 0.0, 1e-3, 0.5, 1.0, 1.75, 12.0]
OS = [(0.0, 1.0), (-1.0, 0.5), (0.25, 2.0), (3.0, -0.125)]
TT = [(150.0, 647.14), (400.0, 647.14), (640.0, 647.14), (647.1399, 647.14), (647.14, 647.14), (700.0, 647.14), (0.0, 100.0), (1.0, 3.0)]


def P(c, x, m=0):
    """(value, scale) of the m-th derivative of the polynomial with highest-first coefficients."""
    n = len(c)
    v = Fr(0)
    s = Fr(0)
    for i, a in enumerate(c):
        k = n - 1 - i
        if k >= m:
            t = Fr(a) * Fr(factorial(k), factorial(k - m)) * x ** (k - m)
            v += t
            s += abs(t)
    return v, s


def near(what, got, want, scale, tol=2e-13):
    if not abs(float(got) - float(want)) <= tol * (float(scale) + abs(float(want))) + 1e-300:
        raise Violation("%s: got %r, exact %r" % (what, got, float(want)))


def der_chain(names, c, args, vals, what):
    """names[k] returns the value and k derivatives; vals = [(value, scale)...]"""
    for k, f in enumerate(names):
        if f is None:
            continue
        got = f(*args)
        if k == 0:
            got = (got,)
        need(len(got) == k + 1, "%s: %s returned %d values" % (what, f.__name__, len(got)))
        for j, g in enumerate(got):
            near("%s of %s, derivative %d" % (f.__name__, what, j), g, vals[j][0], vals[j][1])


def plain(tier):
    CL = coeff_lists(tier)

    def run(c):
        c, x = list(CL[c[0]]), c[1]
        keep = list(c)
        vals = [P(c, Fr(x), m) for m in range(5)]
        der_chain([pe.horner, pe.horner_and_der, pe.horner_and_der2, pe.horner_and_der3, pe.horner_and_der4], c, (c, x), vals, "%r at %r" % (c, x))
        near("horner_backwards", pe.horner_backwards(x, c), vals[0][0], vals[0][1])
        v = [float(q[0]) for q in vals]
        if abs(v[0]) < 300:
            e = math.exp(v[0])
            sc = [float(q[1]) for q in vals]
            E = [(e, e * (1 + sc[0])), (v[1] * e, e * (1 + sc[0]) * sc[1]), (e * (v[1] ** 2 + v[2]), e * (1 + sc[0]) * (sc[1] ** 2 + sc[2])),
                 (e * (v[1] ** 3 + 3 * v[1] * v[2] + v[3]), e * (1 + sc[0]) * (sc[1] ** 3 + 3 * sc[1] * sc[2] + sc[3]))]
            der_chain([pe.exp_horner_backwards, pe.exp_horner_backwards_and_der, pe.exp_horner_backwards_and_der2, pe.exp_horner_backwards_and_der3],
                      c, (x, c), E, "%r at %r" % (c, x))
        if x > 0:
            near("horner_log", pe.horner_log(c, 1.5, x), float(vals[0][0]) + 1.5 * math.log(x), float(vals[0][1]) + abs(math.log(x)))
        need(c == keep, "coefficients were changed")
        return v
    return Space("power form", lambda: itertools.product(range(len(CL)), XS), run, key=lambda c: "%r at %r" % (CL[c[0]], c[1]))


def stable(tier):
    CL = coeff_lists(tier)

    def run(q):
        c, x, (o, s) = list(CL[q[0]]), q[1], q[2]
        y = Fr(o) + Fr(s) * Fr(x)
        vals = [P(c, y, m) for m in range(5)]
        vals = [(a * Fr(s) ** m, b * abs(Fr(s)) ** m) for m, (a, b) in enumerate(vals)]
        w = "%r at %r (%r, %r)" % (c, x, o, s)
        der_chain([pe.horner_stable, pe.horner_stable_and_der, pe.horner_stable_and_der2, pe.horner_stable_and_der3, pe.horner_stable_and_der4],
                  c, (x, c, o, s), vals, w)
        v = [float(a[0]) for a in vals]
        if abs(v[0]) < 300:
            e = math.exp(v[0])
            sc = [float(a[1]) for a in vals]
            E = [(e, e * (1 + sc[0])), (v[1] * e, e * (1 + sc[0]) * sc[1]), (e * (v[1] ** 2 + v[2]), e * (1 + sc[0]) * (sc[1] ** 2 + sc[2])),
                 (e * (v[1] ** 3 + 3 * v[1] * v[2] + v[3]), e * (1 + sc[0]) * (sc[1] ** 3 + 3 * sc[1] * sc[2] + sc[3]))]
            der_chain([pe.exp_horner_stable, pe.exp_horner_stable_and_der, pe.exp_horner_stable_and_der2, pe.exp_horner_stable_and_der3], c,
                      (x, c, o, s), E, w)
        elif v[0] > 800:
            need(pe.exp_horner_stable(x, c, o, s) > 1e308, "exp_horner_stable does not truncate")
        if x > 0:
            near("horner_stable_log", pe.horner_stable_log(x, c, o, s, -0.75), v[0] - 0.75 * math.log(x), float(vals[0][1]) + abs(math.log(x)))
        if s > 0:   # the same polynomial in domain form
            xmin, xmax = (-1 - o) / s, (1 - o) / s
            near("horner_domain", pe.horner_domain(x, c, xmin, xmax), v[0], float(P([abs(a) for a in c], abs(Fr(o)) + abs(Fr(s) * Fr(x)))[0]), 1e-11)
        return v
    step = 1 if tier == "thorough" else 2
    idx = [i for i in range(len(CL)) if i % step == 0 or i < 31]
    return Space("offset/scale form", lambda: itertools.product(idx, XS[::step] + [0.5], OS), run, key=lambda q: "%r %r" % (CL[q[0]], q[1:]))


def ders_ln(v, T, Tc):
    d = Fr(Tc) - Fr(T)
    p, p1, p2, p3 = [a[0] for a in v]
    s, s1, s2, s3 = [a[1] for a in v]
    return [(p, s), (-p1 / d, s1 / abs(d)), ((p2 - p1) / d ** 2, (s2 + s1) / d ** 2), (-(p3 - 3 * p2 + 2 * p1) / d ** 3, (s3 + 3 * s2 + 2 * s1) / abs(d) ** 3)]


def exps_ln(D, u):
    """derivatives of exp(f) from those of f"""
    f = [float(a[0]) for a in D]
    s = [float(a[1]) for a in D]
    e = math.exp(f[0])
    k = e * (1 + s[0])
    return [(e, k), (e * f[1], k * s[1]), (e * (f[1] ** 2 + f[2]), k * (s[1] ** 2 + s[2]))]


def cond(T, Tc):
    """1 - T/Tc in floating point has relative error eps*T/(Tc-T)"""
    return 1.0 + abs(T / (Tc - T))


def lntau(tier):
    CL = coeff_lists(tier)
    step = 1 if tier == "thorough" else 3
    idx = [i for i in range(len(CL)) if i % step == 0 or i < 31]

    def run(q):
        c, (T, Tc), (o, s) = list(CL[q[0]]), q[1], q[2]
        w = "%r at T=%r Tc=%r (%r, %r)" % (c, T, Tc, o, s)
        A = [pe.horner_stable_ln_tau, pe.horner_stable_ln_tau_and_der, pe.horner_stable_ln_tau_and_der2, pe.horner_stable_ln_tau_and_der3]
        B = [pe.horner_backwards_ln_tau, pe.horner_backwards_ln_tau_and_der, pe.horner_backwards_ln_tau_and_der2, pe.horner_backwards_ln_tau_and_der3]
        C = [pe.exp_horner_stable_ln_tau, pe.exp_horner_stable_ln_tau_and_der, pe.exp_horner_stable_ln_tau_and_der2]
        D = [pe.exp_horner_backwards_ln_tau, pe.exp_horner_backwards_ln_tau_and_der, pe.exp_horner_backwards_ln_tau_and_der2]
        if T >= Tc:
            for fs, args in ((A, (T, Tc, c, o, s)), (B, (T, Tc, c)), (C, (T, Tc, c, o, s)), (D, (T, Tc, c))):
                for k, f in enumerate(fs):
                    g = f(*args)
                    need((g == 0) if k == 0 else (tuple(g) == (0.0,) * (k + 1)), "%s above Tc: %r" % (f.__name__, g))
            return "!above"
        u = Fr(math.log1p(-T / Tc) if T / Tc < 0.5 else math.log((Tc - T) / Tc))
        cd = cond(T, Tc)
        raw = [P(c, u, m) for m in range(4)]
        widen = lambda L: [(a, Fr(b) * Fr(cd)) for a, b in L]
        # derivative of P w.r.t. u enters the value through the error in u
        infl = sum(r[1] for r in raw) * (1 + abs(u))
        raw = [(r[0], r[1] + infl) for r in raw]
        L = widen(ders_ln(raw, T, Tc))
        der_chain(B, c, (T, Tc, c), L, w)
        if abs(raw[0][0]) < 200:
            der_chain(D, c, (T, Tc, c), exps_ln(L, u), w)
        y = Fr(o) + Fr(s) * u
        st = [P(c, y, m) for m in range(4)]
        st = [(a * Fr(s) ** m, b * abs(Fr(s)) ** m) for m, (a, b) in enumerate(st)]
        infl = sum(r[1] for r in st) * (1 + abs(u))
        st = [(r[0], r[1] + infl) for r in st]
        L = widen(ders_ln(st, T, Tc))
        der_chain(A, c, (T, Tc, c, o, s), L, w)
        if abs(st[0][0]) < 200:
            der_chain(C, c, (T, Tc, c, o, s), exps_ln(L, u), w)
        return [float(a[0]) for a in raw]
    return Space("ln(1-T/Tc) forms", lambda: itertools.product(idx, TT, OS[:2] + OS[3:]), run, key=lambda q: "%r %r" % (CL[q[0]], q[1:]))


# ------------------------------------------------------------------ Chebyshev
_T = {}


def chebT(n):
    """power coefficients (lowest first) of T_n"""
    if n not in _T:
        if n == 0:
            _T[n] = [Fr(1)]
        elif n == 1:
            _T[n] = [Fr(0), Fr(1)]
        else:
            a = [Fr(0)] + [2 * t for t in chebT(n - 1)]
            b = chebT(n - 2)
            _T[n] = [p - (b[i] if i < len(b) else 0) for i, p in enumerate(a)]
    return _T[n]


def cheb2poly(c):
    out = [Fr(0)] * max(1, len(c))
    for n, a in enumerate(c):
        for i, t in enumerate(chebT(n)):
            out[i] += Fr(a) * t
    return out[::-1]          # highest first


def cheb(tier):
    CL = coeff_lists(tier)
    step = 1 if tier == "thorough" else 2
    idx = [i for i in range(len(CL)) if i % step == 0 or i < 31]
    X = [-1.0, -0.3, 0.0, 0.625, 1.0, 1.5]

    def run(q):
        c, x, (o, s) = list(CL[q[0]]), q[1], q[2]
        keep = list(c)
        w = "%r at %r (%r, %r)" % (c, x, o, s)
        p = cheb2poly(c)
        y = Fr(o) + Fr(s) * Fr(x)
        big = sum(abs(a) for a in c) * max(1.0, 2 * abs(float(y))) ** (len(c) - 1)
        D = [P(p, y, m)[0] for m in range(4)]
        near("chebval " + w, fn.chebval(x, c, o, s), D[0], big)
        if o == 0.0 and s == 1.0:
            near("chebval " + w, fn.chebval(x, c), D[0], big)
        n = len(c)
        ds = [c]
        for m in (1, 2, 3):
            if n <= m:
                break
            d = fn.chebder(c, m)
            need(len(d) == n - m, "chebder(%r, %d) has %d terms" % (c, m, len(d)))
            sc = big * n ** (2 * m) * max(1.0, 2 * abs(float(y))) ** 2
            near("chebder(%r, %d) at %r" % (c, m, float(y)), fn.chebval(float(y), d), D[m], sc)
            ds2 = fn.chebder(c, m, s)
            near("chebder(%r, %d, scl=%r) at %r" % (c, m, s, x), fn.chebval(x, ds2, o, s), D[m] * Fr(s) ** m, sc * max(abs(s), 1) ** m)
            ds.append(ds2)
        need(c == keep, "chebder changed its argument")
        k = len(ds) - 1
        F = [float(D[m]) * s ** m for m in range(k + 1)]
        scl = big * n ** (2 * k) * 8 * max(1, abs(s)) ** k * max(1.0, 2 * abs(float(y))) ** 2
        if abs(F[0]) < 200:
            e = math.exp(F[0])
            kk = e * (1 + big)
            E = [(e, kk)]
            if k >= 1:
                E.append((e * F[1], kk * scl))
            if k >= 2:
                E.append((e * (F[1] ** 2 + F[2]), kk * scl * (1 + abs(F[1]))))
            if k >= 3:
                E.append((e * (F[1] ** 3 + 3 * F[1] * F[2] + F[3]), kk * scl * (1 + abs(F[1])) ** 2))
            for j, f in enumerate([fn.exp_cheb, fn.exp_cheb_and_der, fn.exp_cheb_and_der2, fn.exp_cheb_and_der3][:k + 1]):
                g = f(x, *ds[:j + 1], o, s)
                g = (g,) if j == 0 else g
                for t, v in enumerate(g):
                    near("%s %s derivative %d" % (f.__name__, w, t), v, E[t][0], E[t][1])
        for m in (1, 2, 3):
            for lb in (0, -1.0, 0.5):
                for sc in (1, 0.5, -2.0):
                    I = fn.chebint(c, m=m, lbnd=lb, scl=sc)
                    if c == [0.0]:
                        continue
                    need(len(I) == n + m, "chebint(%r, %d) has %d terms" % (c, m, len(I)))
                    pi = cheb2poly(I)
                    near("m-th derivative of chebint(%r, m=%d, lbnd=%r, scl=%r)" % (c, m, lb, sc), P(pi, Fr(x), m)[0],
                         P(p, Fr(x))[0] * Fr(sc) ** m, (abs(sc) ** m) * sum(map(abs, c)) * (2 * max(1, abs(x))) ** n * n ** (2 * m))
                    near("chebint(%r, m=%d, lbnd=%r) at its lower bound" % (c, m, lb), P(pi, Fr(lb))[0], 0, sum(abs(a) for a in I) + 1e-300, 1e-12)
        need(c == keep, "chebint changed its argument")
        return F
    return Space("Chebyshev form", lambda: itertools.product(idx, X, OS), run, key=lambda q: "%r %r" % (CL[q[0]], q[1:]))


def cheb_ln(tier):
    CL = [c for c in coeff_lists(tier) if len(c) >= 4][:: (1 if tier == "thorough" else 4)]

    def run(q):
        c, (T, Tc), (o, s) = list(CL[q[0]]), q[1], q[2]
        ds = [c, fn.chebder(c, 1, s), fn.chebder(c, 2, s), fn.chebder(c, 3, s)]
        A = [fn.chebval_ln_tau, fn.chebval_ln_tau_and_der, fn.chebval_ln_tau_and_der2, fn.chebval_ln_tau_and_der3]
        B = [fn.exp_cheb_ln_tau, fn.exp_cheb_ln_tau_and_der, fn.exp_cheb_ln_tau_and_der2]
        w = "%r at T=%r Tc=%r (%r, %r)" % (c, T, Tc, o, s)
        if T >= Tc:
            for fs in (A, B):
                for k, f in enumerate(fs):
                    g = f(T, Tc, *ds[:k + 1], o, s)
                    need((g == 0) if k == 0 else (tuple(g) == (0.0,) * (k + 1)), "%s above Tc: %r" % (f.__name__, g))
            return "!above"
        p = cheb2poly(c)
        u = Fr(math.log1p(-T / Tc) if T / Tc < 0.5 else math.log((Tc - T) / Tc))
        y = Fr(o) + Fr(s) * u
        n = len(c)
        big = Fr(sum(abs(a) for a in c)) * max(Fr(1), 4 * abs(y)) ** (n - 1) * n ** 8 * Fr(cond(T, Tc)) * (1 + abs(u)) * max(1, abs(Fr(s))) ** 4
        st = [(P(p, y, m)[0] * Fr(s) ** m, big) for m in range(4)]
        L = ders_ln(st, T, Tc)
        for k, f in enumerate(A):
            g = f(T, Tc, *ds[:k + 1], o, s)
            for t, v in enumerate((g,) if k == 0 else g):
                near("%s %s derivative %d" % (f.__name__, w, t), v, L[t][0], L[t][1], 1e-14)
        if abs(st[0][0]) < 200:
            E = exps_ln(L, u)
            for k, f in enumerate(B):
                g = f(T, Tc, *ds[:k + 1], o, s)
                for t, v in enumerate((g,) if k == 0 else g):
                    near("%s %s derivative %d" % (f.__name__, w, t), v, E[t][0], E[t][1], 1e-14)
        return [float(a[0]) for a in st]
    return Space("Chebyshev ln(1-T/Tc) forms", lambda: itertools.product(range(len(CL)), TT, OS), run, key=lambda q: "%r %r" % (CL[q[0]], q[1:]))


# ------------------------------------------------------------------ algebra helpers
def padd(a, b):
    n = max(len(a), len(b))
    a = [Fr(0)] * (n - len(a)) + list(a)
    b = [Fr(0)] * (n - len(b)) + list(b)
    return [x + y for x, y in zip(a, b)]


def pmul(a, b):
    out = [Fr(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] += x * y
    return out


def strip0(c):
    i = 0
    while i < len(c) - 1 and c[i] == 0:
        i += 1
    return list(c[i:])


def utils(tier):
    CL = coeff_lists(tier)
    DOM = [(-1.0, 1.0), (0.0, 2.0), (200.0, 600.0), (-3.0, 5.0), (1.0, 1.5)]

    def run(q):
        c, (lo, hi) = list(CL[q[0]]), DOM[q[1]]
        keep = list(c)
        n = len(c)
        w = "%r on %r" % (c, (lo, hi))
        off, scl = pu.polynomial_offset_scale(lo, hi)
        near("offset", off, -(Fr(lo) + Fr(hi)) / (Fr(hi) - Fr(lo)), 1)
        near("scale", scl, Fr(2) / (Fr(hi) - Fr(lo)), 0)
        fo, fs = -(Fr(lo) + Fr(hi)) / (Fr(hi) - Fr(lo)), Fr(2) / (Fr(hi) - Fr(lo))
        # exact power-form coefficients of c(off + scl x)
        comp = [Fr(0)]
        absd = [Fr(0)]
        for a in c:
            comp = padd(pmul(comp, [fs, fo]), [Fr(a)])
            absd = padd(pmul(absd, [abs(fs), abs(fo)]), [abs(Fr(a))])
        comp, absd = comp[-n:], absd[-n:]
        g = pu.stable_poly_to_unstable(c, lo, hi)
        g = [0.0] * (n - len(g)) + list(g)
        need(len(g) == n, "stable_poly_to_unstable(%s) has degree %d" % (w, len(g) - 1))
        for i in range(n):
            near("stable_poly_to_unstable(%s)[%d]" % (w, i), g[i], comp[i], absd[i], 1e-12)
        # integrals and derivatives
        I = pu.polyint(c)
        need(len(I) == n + 1 and I[-1] == 0, "polyint(%r) = %r" % (c, I))
        for i in range(n):
            near("polyint(%r)[%d]" % (c, i), I[i], Fr(c[i]) / (n - i), 0)
        S = pu.polyint_stable(c, lo, hi)
        need(len(S) == n + 1, "polyint_stable(%r)" % (c,))
        for i in range(n):
            near("polyint_stable(%s)[%d]" % (w, i), S[i], Fr(c[i]) / fs / (n - i), 0)
        L, lg = pu.polyint_over_x(c)
        need(len(L) == n, "polyint_over_x(%r) = %r" % (c, L))
        for i in range(n - 1):
            near("polyint_over_x(%r)[%d]" % (c, i), L[i], Fr(c[i]) / (n - 1 - i), 0)
        near("polyint_over_x const", L[-1], 0, 0)
        near("polyint_over_x log", lg, c[-1], 0)
        T, lg = pu.polyint_over_x_stable(c, lo, hi)
        need(len(T) == n, "polyint_over_x_stable(%r) has %d terms" % (c, len(T)))
        for i in range(n - 1):
            near("polyint_over_x_stable(%s)[%d]" % (w, i), T[i], comp[i] / (n - 1 - i), absd[i], 1e-12)
        near("polyint_over_x_stable(%s) log" % w, lg, comp[-1], absd[-1], 1e-12)
        # ascending derivative helper
        for m in range(0, n + 2):
            d = pu.polyder(list(c), m)
            want = [Fr(c[j]) * Fr(factorial(j), factorial(j - m)) for j in range(m, n)]
            d = list(d)
            need(len(d) == len(want), "polyder(%r, %d) = %r" % (c, m, d))
            for i, (a, b) in enumerate(zip(d, want)):
                near("polyder(%r, %d)[%d]" % (c, m, i), a, b, 0)
        # ascending coefficients, change of variable x = mid + half*t
        Q = pu.poly_convert(c, lo, hi)
        mid, half = (Fr(lo) + Fr(hi)) / 2, (Fr(hi) - Fr(lo)) / 2
        for k in range(n):
            want = sum(Fr(c[i]) * comb(i, k) * mid ** (i - k) * half ** k for i in range(k, n))
            sc = sum(abs(Fr(c[i])) * comb(i, k) * abs(mid) ** (i - k) * half ** k for i in range(k, n))
            near("poly_convert(%s)[%d]" % (w, k), Q[k], want, sc, 1e-12)
        need(c == keep, "coefficients were changed")
        return [float(x) for x in comp]
    return Space("integration, differentiation and conversion of coefficients", lambda: itertools.product(range(len(CL)), range(len(DOM))), run,
                 key=lambda q: "%r %r" % (CL[q[0]], DOM[q[1]]))


def poly_arith():
    CL = [c for c in itertools.chain(*[itertools.product((-1.0, 0.0, 2.5), repeat=n) for n in (1, 2, 3)])]

    def run(q):
        a, b = list(CL[q[0]]), list(CL[q[1]])
        s = pu.poly_add(a, b)
        n = max(len(a), len(b))
        want = [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]
        expect(s, want, 1e-13, 0, "poly_add(%r,%r)" % (a, b))
        p = pu.poly_mul(a, b)
        want = [float(x) for x in pmul([Fr(x) for x in a], [Fr(x) for x in b])]
        return expect(p, want, 1e-13, 0, "poly_mul(%r,%r)" % (a, b))
    return Space("sum and product of coefficients", lambda: itertools.product(range(len(CL)), repeat=2), run)


def fits():
    """Coefficients from data: substituting back reproduces the data."""
    V = [-3.0, -1.0, 0.0, 0.5, 2.0, 7.0]

    def cases():
        for xs in itertools.permutations([-2.0, 0.0, 1.0, 3.5, 100.0], 3):
            for f in itertools.product(V[::2] + [7.0], repeat=3):
                yield ("pts", xs, f)
        for x in (-2.0, 0.0, 1.0, 3.5):
            for v in itertools.product(V, repeat=3):
                yield ("ders", x, v)
        for T in (1.0, 200.0, 400.0, 640.0):
            for val in (1e-3, 0.5, 1.0, 30.0):
                for d in (-2.0, -0.3, 0.0, 0.5):
                    for d2 in (-1.0, 0.0, 1e-2, 2.0):
                        yield ("exp", T, (val, d * val / (647.14 - T), d2 * val / (647.14 - T) ** 2))
        for r in itertools.permutations([-3.0, -1.0, 0.5, 2.0, 10.0], 3):
            yield ("cubic", 0.0, r)
        for r0 in (-3.0, 0.5, 2.0):
            for re_, im in itertools.product((-1.0, 0.0, 2.0), (0.5, 3.0)):
                yield ("cubicc", r0, (re_, im))

    def run(c):
        k, x, v = c
        if k == "pts":
            a, b, cc = fn.quadratic_from_points(*x, *v)
            sc = max(map(abs, v)) + 1
            for xi, fi in zip(x, v):
                need(abs(a * xi * xi + b * xi + cc - fi) <= 1e-10 * sc * (1 + abs(xi)) ** 2, "quadratic_from_points(%r, %r) = %r" % (x, v, (a, b, cc)))
            return a, b, cc
        if k == "ders":
            a, b, cc = pu.quadratic_from_f_ders(x, *v)
            expect((a * x * x + b * x + cc, 2 * a * x + b, 2 * a), v, 1e-11, 1e-11 * (1 + max(map(abs, v)) * (1 + x * x)), "quadratic_from_f_ders%r" % (c,))
            return a, b, cc
        if k == "exp":
            Tc, T = 647.14, x
            val, d, d2 = v
            c2 = pu.exp_poly_ln_tau_coeffs2(T, Tc, val, d)
            g = pe.exp_horner_backwards_ln_tau_and_der(T, Tc, list(c2))
            expect(g, (val, d), 1e-9, 1e-9 * abs(val), "exp_poly_ln_tau_coeffs2%r" % (c,))
            c3 = pu.exp_poly_ln_tau_coeffs3(T, Tc, val, d, d2)
            g = pe.exp_horner_backwards_ln_tau_and_der2(T, Tc, list(c3))
            x = 1e-8 * val
            g = (g[0], g[1] * (Tc - T), g[2] * (Tc - T) ** 2)
            expect(g, (val, d * (Tc - T), d2 * (Tc - T) ** 2), 1e-8, x, "exp_poly_ln_tau_coeffs3%r" % (c,))
            return list(c2) + list(c3)
        if k == "cubic":
            r0, r1, r2 = v
            B, C, D = -(r0 + r1 + r2), r0 * r1 + r0 * r2 + r1 * r2, -r0 * r1 * r2
            g = pu.deflate_cubic_real_roots(B, C, D, r0)
            return expect(sorted(g), sorted((r1, r2)), 1e-10, 1e-10, "deflate_cubic_real_roots with roots %r" % (v,))
        r0, (p, q) = x, v
        s, m = 2 * p, p * p + q * q
        g = pu.deflate_cubic_real_roots(-(r0 + s), r0 * s + m, -r0 * m, r0)
        return expect(tuple(g), (0.0, 0.0), 0, 0, "deflate_cubic_real_roots with a complex pair")
    return Space("coefficients fitted to data", cases, run, key=repr)


# ------------------------------------------------------------------ piecewise integrals
def pieces(tier):
    polys = [(2.0,), (0.5, -1.0), (1e-3, 0.2, 3.0), (1e-5, -2e-3, 0.5, 10.0), (0.0, 1.0, 0.0)]
    doms = [(1.0, 3.0), (200.0, 500.0)]

    def cases():
        for p in polys:
            for d in doms:
                lo, hi = d
                pts = [0.2 * lo, lo * (1 - 1e-9), lo, lo * (1 + 1e-9), lo + 0.3 * (hi - lo), 0.5 * (lo + hi), hi * (1 - 1e-9), hi, hi * (1 + 1e-9), 1.7 * hi]
                for T1, T2 in itertools.product(pts, repeat=2):
                    yield p, d, T1, T2

    def integral(p, d, a, b, over):
        """exact-ish integral of the piecewise function from a to b"""
        lo, hi = d
        if a > b:
            return -integral(p, d, b, a, over)
        n = len(p)
        out = []

        def prim(coef, t):
            m = len(coef)
            if not over:
                return math.fsum(c * t ** (m - i) / (m - i) for i, c in enumerate(coef))
            return math.fsum([c * t ** (m - 1 - i) / (m - 1 - i) for i, c in enumerate(coef[:-1])] + [coef[-1] * math.log(t)])
        v = lambda t: math.fsum(c * t ** (n - 1 - i) for i, c in enumerate(p))
        s = lambda t: math.fsum(c * (n - 1 - i) * t ** (n - 2 - i) for i, c in enumerate(p[:-1]))
        for l, h, coef in ((-math.inf, lo, (s(lo), v(lo) - s(lo) * lo)), (lo, hi, p), (hi, math.inf, (s(hi), v(hi) - s(hi) * hi))):
            x, y = max(a, l), min(b, h)
            if x < y:
                out.append(prim(coef, y))
                out.append(-prim(coef, x))
        return math.fsum(out)

    def run(c):
        p, (lo, hi), T1, T2 = c
        n = len(p)
        val = lambda t: math.fsum(q * t ** (n - 1 - i) for i, q in enumerate(p))
        slo = lambda t: math.fsum(q * (n - 1 - i) * t ** (n - 2 - i) for i, q in enumerate(p[:-1]))
        args = (lo, hi, val(lo), val(hi), slo(lo), slo(hi))
        ic = pu.polyint(list(p))
        tc, lg = pu.polyint_over_x(list(p))
        w = "%r on %r from %r to %r" % (p, (lo, hi), T1, T2)
        sc = 1e-11 * max(abs(val(t)) for t in (0.2 * lo, lo, hi, 1.7 * hi)) * 1.7 * hi
        want = integral(p, (lo, hi), T1, T2, False)
        out = [expect(fn.fit_integral_linear_extrapolation(T1, T2, ic, *args), want, 1e-10, sc, "fit_integral_linear_extrapolation " + w)]
        a, b = fn.poly_fit_integral_value(T1, ic, *args), fn.poly_fit_integral_value(T2, ic, *args)
        expect(b - a, want, 1e-10, sc * 10, "difference of poly_fit_integral_value " + w)
        sc = 1e-11 * max(abs(val(t)) for t in (0.2 * lo, lo, hi, 1.7 * hi)) * 10
        want = integral(p, (lo, hi), T1, T2, True)
        out.append(expect(fn.fit_integral_over_T_linear_extrapolation(T1, T2, tc, lg, *args), want, 1e-10, sc, "fit_integral_over_T_linear_extrapolation " + w))
        a, b = fn.poly_fit_integral_over_T_value(T1, tc, lg, *args), fn.poly_fit_integral_over_T_value(T2, tc, lg, *args)
        expect(b - a, want, 1e-10, sc * 10, "difference of poly_fit_integral_over_T_value " + w)
        data = [[lo, lo + 1], [args[4]] * 2, [args[2], 2.5], [hi, hi + 1], [args[5]] * 2, [args[3], 7.5], [list(p), [1.0, 0.0]],
                [pu.polyder(list(p)[::-1])[::-1], [1.0]], [pu.polyder(list(p)[::-1], 2)[::-1], []]]
        v, dv, d2 = fn.evaluate_linear_fits(data, T1), fn.evaluate_linear_fits_d(data, T1), fn.evaluate_linear_fits_d2(data, T1)
        if T1 < lo:
            want = (args[2] + args[4] * (T1 - lo), args[4], 0.0)
        elif T1 > hi:
            want = (args[3] + args[5] * (T1 - hi), args[5], 0.0)
        else:
            want = (val(T1), slo(T1), math.fsum(q * (n - 1 - i) * (n - 2 - i) * T1 ** (n - 3 - i) for i, q in enumerate(p[:-2])))
        m = 1 + max(map(abs, p)) * T1 ** (n - 1)
        expect((v[0], dv[0]), want[:2], 1e-10, 1e-12 * m, "evaluate_linear_fits at %r" % T1)
        if T1 not in (lo, hi):
            expect(d2[0], want[2], 1e-10, 1e-12 * m, "evaluate_linear_fits_d2 at %r" % T1)
        w1 = (2.5 + args[4] * (T1 - lo - 1)) if T1 < lo + 1 else (7.5 + args[5] * (T1 - hi - 1)) if T1 > hi + 1 else T1
        expect(v[1], w1, 1e-10, 1e-12 * m, "evaluate_linear_fits second entry at %r" % T1)
        need(len(v) == len(dv) == len(d2) == 2, "evaluate_linear_fits lengths")
        return out
    return Space("piecewise integrals", cases, run, key=repr)


def positivity():
    RS = [-2.0, -0.7, 0.3, 0.35, 0.8, 4.0]

    def cases():
        for r in range(0, 4):
            for roots in itertools.combinations(RS, r):
                for lead in (1.0, -2.0):
                    for extra in (False, True):
                        for dom in (None, (0.0, 1.0), (-3.0, 5.0), (0.31, 0.34), (0.4, 0.7)):
                            yield roots, lead, extra, dom

    def run(c):
        roots, lead, extra, dom = c
        p = [Fr(lead)]
        for r in roots:
            p = pmul(p, [Fr(1), -Fr(r)])
        if extra:
            p = pmul(p, [Fr(1), Fr(0), Fr(1)])
        coeffs = [float(x) for x in p]
        lo, hi = dom if dom else (-1e9, 1e9)
        cuts = [lo] + [r for r in roots if lo < r < hi] + [hi]
        pos = neg = True
        for a, b in zip(cuts, cuts[1:]):
            s = lead
            m = 0.5 * (a + b)
            for r in roots:
                s *= 1 if m > r else -1
            pos = pos and s > 0
            neg = neg and s < 0
        g = fn.is_poly_positive(coeffs, domain=dom)
        h = fn.is_poly_negative(coeffs, domain=dom)
        need(bool(g) == pos, "is_poly_positive(%r, domain=%r) = %r; roots %r" % (coeffs, dom, g, roots))
        need(bool(h) == neg, "is_poly_negative(%r, domain=%r) = %r; roots %r" % (coeffs, dom, h, roots))
        return pos, neg
    return Space("positivity of polynomials", cases, run, key=repr)


def spaces(tier):
    return [plain(tier), stable(tier), lntau(tier), cheb(tier), cheb_ln(tier), utils(tier), poly_arith(), fits(), pieces(tier), positivity()]
