"""C08: interpolation, search, spacing, sequence statistics and special-function stand-ins."""
import cmath
import itertools
import math
from fractions import Fraction as Fr

import numpy as np
import scipy.interpolate as si
import scipy.special as ss
import mpmath

from ..core import Space, Violation, need, expect, attempt, close, same, TRIVIAL, linspace as lsp, around, uniq
import fluids.numerics as fn
import fluids.numerics.special as sp

RULE = ("every sequence over a small alphabet up to a bounded length; every increasing grid with every query class (below, at each knot, "
        "inside each interval, above) and option; special functions on lattices covering every branch; a case is non-trivial when "
        "the call is defined there")
ASSUMPTIONS = ["numpy, scipy and mpmath are trusted as references for the functions they are stand-ins of"]

ALPHA = (-2.0, -1.0, 0.0, 1.0, 3.0)


def seqs(n, alpha=ALPHA, lo=1):
    def gen():
        for k in range(lo, n + 1):
            yield from itertools.product(alpha, repeat=k)
    return gen


# ------------------------------------------------------------------- spacing
def spacing(case):
    a, b, n, end = case
    g = fn.linspace(a, b, n, endpoint=end)
    w = np.linspace(a, b, n, endpoint=end).tolist()
    expect(g, w, 1e-12, 1e-13 * max(abs(a), abs(b), 1e-300), "linspace%r" % (case,))
    if end and n >= 2:
        need(g[0] == a and g[-1] == b, "linspace%r does not end on its limits: %r" % (case, g))
    if n >= 2:
        g2, st = fn.linspace(a, b, n, endpoint=end, retstep=True)
        expect(g2, g, 0, 0, "linspace retstep")
        expect(st, (b - a) / (n - 1 if end else n), 1e-12, 0, "linspace%r step" % (case,))
    for base in (10.0, 2.0):
        if max(abs(a), abs(b)) <= 50:
            l = fn.logspace(a, b, n, endpoint=end, base=base)
            expect(l, [base ** x for x in w], 1e-10, 0, "logspace%r base %r" % (case, base))
    return g


# ------------------------------------------------------------------- sequences
def seq_stats(s):
    s = list(s)
    keep = list(s)
    F = [Fr(x) for x in s]
    n = len(s)
    mean = sum(F) / n
    var = sum((x - mean) ** 2 for x in F) / n
    w = "(%r)" % (s,)
    expect(fn.mean(s), float(mean), 1e-13, 1e-15, "mean" + w)
    sd = fn.std(s)
    expect(sd, math.sqrt(var), 1e-13, 1e-13, "std" + w)
    expect(fn.cumsum(s), [float(sum(F[:i + 1])) for i in range(n)], 1e-13, 1e-14, "cumsum" + w)
    d = [F[i + 1] - F[i] for i in range(n - 1)]
    expect(fn.diff(s), [float(x) for x in d], 1e-13, 1e-14, "diff" + w)
    d2 = [d[i + 1] - d[i] for i in range(len(d) - 1)]
    expect(fn.diff(s, 2), [float(x) for x in d2], 1e-13, 1e-13, "diff 2" + w)
    d3 = [d2[i + 1] - d2[i] for i in range(len(d2) - 1)]
    expect(fn.diff(s, 3), [float(x) for x in d3], 1e-13, 1e-13, "diff 3" + w)
    expect(list(fn.diff(s, 0)), s, 0, 0, "diff 0" + w)
    ok, _ = attempt(fn.diff, s, -1)
    need(not ok, "diff of negative order accepted")
    need(fn.is_monotonic(s) == (all(x >= 0 for x in d) or all(x <= 0 for x in d)), "is_monotonic%s" % w)
    need(fn.is_increasing(s) == all(x > 0 for x in d), "is_increasing%s" % w)
    p = Fr(1)
    for x in F:
        p *= x
    expect(fn.product(s), float(p), 1e-13, 0, "product" + w)
    if sum(F) != 0:
        expect(fn.normalize(s), [float(x / sum(F)) for x in F], 1e-12, 0, "normalize" + w)
    for k in (0.5, 1.0, 1.5):
        m, q = float(mean), math.sqrt(var)
        if any(abs(abs(x - m) - k * q) < 1e-9 for x in s):
            continue
        want = [i for i, x in enumerate(s) if abs(x - m) > k * q]
        expect(fn.detect_outlier_normal(s, k), want, 0, 0, "detect_outlier_normal%s cutoff %r" % (w, k))
    for dx in (1.0, -0.25):
        tr = [float(sum((F[j] + F[j + 1]) / 2 * Fr(dx) for j in range(i + 1))) for i in range(n - 1)]
        expect(fn.cumulative_trapezoid(s, dx=dx), tr, 1e-12, 1e-13, "cumulative_trapezoid%s dx" % w)
    xs = [0.5 * i * i + i for i in range(n)]
    tr = [float(sum((F[j] + F[j + 1]) / 2 * Fr(xs[j + 1] - xs[j]) for j in range(i + 1))) for i in range(n - 1)]
    expect(fn.cumulative_trapezoid(s, x=xs), tr, 1e-12, 1e-13, "cumulative_trapezoid%s x" % w)
    if n > 1:
        need(not attempt(fn.cumulative_trapezoid, s)[0], "cumulative_trapezoid without dx or x accepted")
        need(not attempt(fn.cumulative_trapezoid, s, x=xs[:-1])[0], "cumulative_trapezoid with short x accepted")
    need(s == keep, "a sequence helper changed its argument %r -> %r" % (keep, s))
    return sd


def pair_stats(case):
    a, b = case
    a, b = list(a), list(b)
    n = len(a)
    w = "(%r, %r)" % (a, b)
    e = [abs(x - y) for x, y in zip(a, b)]
    expect(fn.max_abs_error(a, b), max(e), 1e-13, 0, "max_abs_error" + w)
    expect(fn.max_squared_error(a, b), max(e) ** 2, 1e-13, 0, "max_squared_error" + w)
    expect(fn.mean_abs_error(a, b), sum(e) / n, 1e-13, 0, "mean_abs_error" + w)
    expect(fn.mean_squared_error(a, b), sum(x * x for x in e) / n, 1e-13, 0, "mean_squared_error" + w)
    for mv in (1000.0, 2.5):
        r = [(0.0 if y == 0 else mv) if x == 0 else min(mv, abs((x - y) / x)) for x, y in zip(a, b)]
        expect(fn.max_abs_rel_error(a, b, max_val=mv), max(r), 1e-13, 0, "max_abs_rel_error%s max_val %r" % (w, mv))
    r = [(0.0 if y == 0 else 1.0) if x == 0 else abs((x - y) / x) for x, y in zip(a, b)]
    expect(fn.mean_abs_rel_error(a, b), sum(r) / n, 1e-13, 0, "mean_abs_rel_error" + w)
    if all(a):
        expect(fn.max_squared_rel_error(a, b), max(r) ** 2, 1e-13, 0, "max_squared_rel_error" + w)
        expect(fn.mean_squared_rel_error(a, b), sum(x * x for x in r) / n, 1e-13, 0, "mean_squared_rel_error" + w)
    q = [(1.0 if y == x else 10.0) if x == 0 else y / x for x, y in zip(a, b)]
    expect(fn.min_max_ratios(a, b), (min(q + [1.0]), max(q + [1.0])), 1e-13, 0, "min_max_ratios" + w)
    return max(e)


# ------------------------------------------------------------------- search and interpolation
GRID = (-3.0, -1.0, 0.0, 0.5, 2.0, 7.0)


def grids(n=5, lo=2):
    for k in range(lo, n + 1):
        yield from itertools.combinations(GRID, k)


def queries(g):
    q = [g[0] - 10.0, g[0] - 1e-9]
    for a, b in zip(g, g[1:]):
        q += [a, a + (b - a) * 1e-9, a + 0.25 * (b - a), b - (b - a) * 1e-9]
    return q + [g[-1], g[-1] + 1e-9, g[-1] + 10.0]


def interp_cases():
    for g in grids():
        for vs in (ALPHA[:len(g)], (1.0, 1.0, -5.0, 4.0, 4.0, 2.0)[:len(g)]):
            for x in queries(g):
                yield g, vs, x


def do_interp(case):
    g, v, x = case
    g, v = list(g), list(v)
    w = "(%r, %r, %r" % (x, g, v)
    b = fn.binary_search(x, g)
    want = len(g) if x > g[-1] else sum(1 for k in g if k <= x) - 1
    need(b == want, "binary_search(%r, %r) = %r, expected %r" % (x, g, b, want))
    for size in range(1, len(g)):
        sub = g[:size]
        want = size if x > sub[-1] else sum(1 for k in sub if k <= x) - 1
        got = fn.binary_search(x, g, size)
        need(got == want, "binary_search(%r, %r, size=%d) = %r, expected %r" % (x, g, size, got, want))

    def ref(left, right, ext):
        if x < g[0]:
            if left is not None:
                return left
            if not ext:
                return v[0]
            j = 0
        elif x > g[-1]:
            if right is not None:
                return right
            if not ext:
                return v[-1]
            j = len(g) - 2
        else:
            j = min(max(i for i, k in enumerate(g) if k <= x), len(g) - 2)
        return float(Fr(v[j]) + (Fr(x) - Fr(g[j])) * (Fr(v[j + 1]) - Fr(v[j])) / (Fr(g[j + 1]) - Fr(g[j])))
    for left, right in ((None, None), (-99.0, None), (None, 77.0), (0.0, 0.0)):
        for ext in (False, True):
            expect(fn.interp(x, g, v, left=left, right=right, extrapolate=ext), ref(left, right, ext), 1e-12, 1e-13,
                   "interp%s, left=%r, right=%r, extrapolate=%r)" % (w, left, right, ext))
    return b


def bilinear_cases():
    for xs in ((0.0, 1.0), (-1.0, 0.5, 2.0), (0.0, 1.0, 4.0, 5.0)):
        for ys in ((0.0, 2.0), (-2.0, 1.0, 1.5), (1.0, 2.0, 8.0, 9.0)):
            for x in queries(xs):
                for y in queries(ys):
                    yield xs, ys, x, y


def bil(xs, ys, vals, x, y):
    def cell(g, q):
        return min(max([i for i, k in enumerate(g) if k <= q] + [0]), len(g) - 2)
    i, j = cell(xs, x), cell(ys, y)
    u = (Fr(x) - Fr(xs[i])) / (Fr(xs[i + 1]) - Fr(xs[i]))
    t = (Fr(y) - Fr(ys[j])) / (Fr(ys[j + 1]) - Fr(ys[j]))
    f = lambda a, b: Fr(vals[b][a])
    return float((1 - u) * (1 - t) * f(i, j) + u * (1 - t) * f(i + 1, j) + (1 - u) * t * f(i, j + 1) + u * t * f(i + 1, j + 1))


def do_bilinear(case):
    xs, ys, x, y = case
    vals = [[((3 * i + 5 * j * j + i * j) % 7) - 2.0 for i in range(len(xs))] for j in range(len(ys))]
    want = bil(xs, ys, vals, x, y)
    expect(fn.interp2d_linear(x, y, list(xs), list(ys), vals), want, 1e-9, 1e-6 * 1e-3, "interp2d_linear%r" % (case,))
    xc, yc = min(max(x, xs[0]), xs[-1]), min(max(y, ys[0]), ys[-1])
    tck = fn.tck_interp2d_linear(list(xs), list(ys), vals)
    want = bil(xs, ys, vals, xc, yc)
    for name, f in (("bisplev", fn.bisplev), ("py_bisplev", fn.py_bisplev)):
        expect(float(f(x, y, tck)), want, 1e-9, 1e-9, "%s of tck_interp2d_linear at %r" % (name, case))
    return want


def spline_cases():
    for k in (1, 2, 3, 4, 5):
        for n in (k + 1, k + 2, k + 4, 9):
            for kind in (0, 1, 2):
                yield k, n, kind


def do_spline(case):
    k, n, kind = case
    if n < k + 1:
        return TRIVIAL
    inner = [0.5 + 0.7 * i + 0.13 * i * i for i in range(n - k - 1)]
    end = (inner[-1] if inner else 0.0) + 1.25
    if kind == 1 and len(inner) >= 2:
        inner[1] = inner[0]                # repeated knot
    t = [0.0] * (k + 1) + inner + [end] * (k + 1)
    nc = len(t) - k - 1
    c = [((7 * i * i + 3 * i) % 11) - 4.0 for i in range(nc)] + [0.0] * (k + 1 if kind == 2 else 0)
    kn = sorted(set(t))
    out = []
    for x in queries(kn):
        if abs(x) > 50:
            continue
        for ext in (0, 1, 3):
            if k > 1 or kind != 1 or x not in kn:
                want = float(si.splev(x, (np.array(t), np.array(c), k), ext=ext))
                got = fn.py_splev(x, (t, c, k), ext=ext)
                expect(float(got), want, 1e-8, 1e-8, "py_splev(%r, k=%d, t=%r, ext=%d)" % (x, k, t, ext))
                out.append(got)
        if x < 0 or x > end:
            need(not attempt(fn.py_splev, x, (t, c, k), ext=2)[0], "py_splev(%r, ext=2) outside the domain accepted" % x)
    return out


def bispline_cases():
    for kx, ky in itertools.product((1, 2, 3, 4, 5), repeat=2):
        for nx, ny in ((0, 0), (1, 2), (3, 1)):
            yield kx, ky, nx, ny


def do_bispline(case):
    kx, ky, nx, ny = case

    def knots(k, n):
        inner = [0.4 + 0.9 * i + 0.2 * i * i for i in range(n)]
        return [0.0] * (k + 1) + inner + [(inner[-1] if inner else 0) + 1.0] * (k + 1)
    tx, ty = knots(kx, nx), knots(ky, ny)
    c = [((5 * i * i + 3 * i) % 13) - 5.0 for i in range((len(tx) - kx - 1) * (len(ty) - ky - 1))]
    tck = (tx, ty, c, kx, ky)
    ref = (np.array(tx), np.array(ty), np.array(c), kx, ky)
    out = []
    for x in queries(sorted(set(tx))):
        for y in queries(sorted(set(ty))):
            want = float(si.bisplev(x, y, ref))
            expect(float(fn.py_bisplev(x, y, tck)), want, 1e-9, 1e-9, "py_bisplev(%r, %r) of %r" % (x, y, case))
            expect(float(fn.bisplev(x, y, fn.implementation_optimize_tck(tck))), want, 1e-9, 1e-9, "bisplev(%r, %r) of %r" % (x, y, case))
            out.append(want)
    return out


# ------------------------------------------------------------------- closeness and shapes
def close_cases():
    v = (0.0, 1.0, 1 + 1e-10, 1 + 5e-8, 1 + 1e-3, -1.0, 1e-12, -1e-12, 1e300, float("inf"), -float("inf"))
    for a, b in itertools.product(v, repeat=2):
        for rt in (1e-9, 1e-7, 0.0, 1e-2):
            for at in (0.0, 1e-11, 1e-2):
                yield a, b, rt, at


def do_close(case):
    a, b, rt, at = case
    want = a == b or (not (math.isinf(a) or math.isinf(b)) and abs(a - b) <= max(rt * max(abs(a), abs(b)), at))
    got = fn.isclose(a, b, rel_tol=rt, abs_tol=at)
    need(got == want, "isclose(%r, %r, rel_tol=%r, abs_tol=%r) = %r" % (a, b, rt, at, got))
    # the assertion helpers accept what isclose accepts (numpy's criterion is the fallback)
    npc = bool(np.isclose(b, a, rtol=rt, atol=at) or np.isclose(a, b, rtol=rt, atol=at))
    yes, no = want, not want and not npc
    x = 5.0
    forms = [(fn.assert_close, a, b), (fn.assert_close1d, [x, a, x], [x, b, x]), (fn.assert_close1d, [x, a], [x, b]),
             (fn.assert_close2d, [[x, x], [x, a]], [[x, x], [x, b]]),
             (fn.assert_close2d, [[a], [x]], [[b], [x]]),
             (fn.assert_close3d, [[[x], [x]], [[x], [a]]], [[[x], [x]], [[x], [b]]]),
             (fn.assert_close4d, [[[[x, x], [a, x]]]], [[[[x, x], [b, x]]]])]
    for f, p, q in forms:
        ok, v = attempt(f, p, q, rtol=rt, atol=at)
        need(not (yes and not ok), "%s(%r, %r, rtol=%r, atol=%r) raised %s" % (f.__name__, p, q, rt, at, v))
        need(not (no and ok), "%s(%r, %r, rtol=%r, atol=%r) accepted" % (f.__name__, p, q, rt, at))
    return got


def shape_cases():
    for dt in (float, int):
        for fv in (0.0, 3.0):
            for sh in (0, 1, 4, (3,), (2, 3), (1, 1), (2, 1, 3), (2, 3, 1, 2), (0, 2)):
                yield dt, fv, sh


def do_shape(case):
    dt, fv, sh = case
    want = np.full(sh, fv, dtype=dt).tolist()
    for got in (fn.zeros(sh, dtype=dt, fill_value=fv), fn.full(sh, fv, dtype=dt)):
        need(got == want, "zeros/full%r = %r" % (case, got))
        if not isinstance(sh, int) and len(sh) > 1 and sh[0] > 1 and sh[1] > 0:
            r = got
            r[0][0] = 99
            need(r[1] == want[1], "rows of zeros/full%r share storage" % (case,))
    f = (fn.assert_close1d, fn.assert_close2d, fn.assert_close3d, fn.assert_close4d)
    for i, g in enumerate(f):
        a, b = [1.0, 2.0], [1.0]
        for _ in range(i):
            a, b = [a], [b]
        need(not attempt(g, a, b)[0], "%s accepts different lengths" % g.__name__)
        need(not attempt(g, b, a)[0], "%s accepts different lengths" % g.__name__)
        if i:
            need(not attempt(g, a + a, a)[0], "%s accepts different lengths" % g.__name__)
    return want


# ------------------------------------------------------------------- special functions
def complex_cases():
    r = (-3.0, -1.0, -0.5, -1e-3, 0.0, 1e-6, 0.5, 0.999, 1.0, 1.001, 2.0, 50.0)
    for x in r:
        for y in (-40.0, -1.0, -0.25, -1e-6, 0.0, 1e-6, 0.5, 1.0, 3.0):
            yield complex(x, y)


def do_complex(z):
    out = []
    w = cmath.acos(z)
    if z.imag == 0 and abs(z.real) > 1:          # on the branch cut either sign is a value
        need(any(same(sp.py_cacos(z), v, 1e-9, 1e-12) for v in (w, w.conjugate())), "py_cacos(%r) = %r" % (z, sp.py_cacos(z)))
    else:
        expect(sp.py_cacos(z), w, 1e-9, 1e-12, "py_cacos(%r)" % z)
    if abs(z * z + 1) > 1e-9 and not (z.real == 0 and abs(z.imag) > 1):
        expect(sp.py_catan(z), cmath.atan(z), 1e-8, 1e-11, "py_catan(%r)" % z)
    if abs(z * z - 1) > 1e-9 and not (z.imag == 0 and abs(z.real) > 1):
        expect(sp.py_catanh(z), cmath.atanh(z), 1e-9, 1e-12, "py_catanh(%r)" % z)
    expect(sp.py_hypot(z.real, z.imag), math.hypot(z.real, z.imag), 1e-14, 0, "py_hypot(%r)" % z)
    expect((fn.cacos(z), fn.catan(z) if abs(z * z + 1) > 1e-9 else 0, fn.catanh(z) if abs(z * z - 1) > 1e-9 else 0),
           (w, cmath.atan(z) if abs(z * z + 1) > 1e-9 else 0, cmath.atanh(z) if abs(z * z - 1) > 1e-9 else 0), 1e-12, 0, "complex inverses %r" % z)
    return w


def scalar_special(case):
    k, x = case
    if k == "comb":
        n, r = x
        if r < 0:
            return expect(sp.py_comb(n, r), 0, 0, 0, "py_comb%r" % (x,))
        return expect((sp.py_comb(n, r), fn.comb(n, r)), (math.comb(n, r),) * 2, 0, 0, "comb%r" % (x,))
    if k == "fact":
        if x < 0:
            need(not attempt(sp.py_factorial, x)[0], "py_factorial(%r) accepted" % x)
            return "!"
        return expect((sp.py_factorial(x), fn.factorial(x)), (math.factorial(x),) * 2, 0, 0, "factorial(%r)" % x)
    if k == "exp":
        w = math.exp(x) if x < 709.78 else 1.7976931348622732e+308
        g = expect(fn.trunc_exp(x), w, 1e-13, 0, "trunc_exp(%r)" % x)
        expect(fn.trunc_exp_numpy(np.array([x, 1.0])).tolist(), [w, math.e], 1e-12, 0, "trunc_exp_numpy(%r)" % x)
        return g
    if k == "log":
        if x < 0:
            need(not attempt(fn.trunc_log, x)[0] and not attempt(fn.trunc_log_numpy, np.array([x, 1.0]))[0], "trunc_log(%r) accepted" % x)
            return "!"
        w = math.log(x) if x else -744.4400719213812
        expect(fn.trunc_log_numpy(np.array([x, 1.0])).tolist(), [w, 0.0], 1e-12, 0, "trunc_log_numpy(%r)" % x)
        return expect(fn.trunc_log(x), w, 1e-13, 0, "trunc_log(%r)" % x)
    if k == "sincos":
        return expect(fn.sincos(x), (math.sin(x), math.cos(x)), 1e-12, 1e-13, "sincos(%r)" % x)
    if k == "cbrt":
        return expect(fn.cbrt(x), math.cbrt(x), 1e-13, 0, "cbrt(%r)" % x)
    if k == "polylog2":
        if not 0 <= x <= 1:
            need(not attempt(fn.polylog2, x)[0], "polylog2(%r) accepted" % x)
            return "!"
        return expect(fn.polylog2(x), float(mpmath.polylog(2, x).real), 2e-7 if x <= 0.99 else 5e-6, 1e-11, "polylog2(%r)" % x)
    if k in ("lambertw0", "lambertw-1"):
        b = 0 if k == "lambertw0" else -1
        w = complex(mpmath.lambertw(x, b))
        expect(complex(fn.py_lambertw(x, b)), w, 1e-7, 1e-10, "py_lambertw(%r, %d)" % (x, b))
        expect(complex(fn.lambertw(x, b)), w, 1e-9, 1e-12, "lambertw(%r, %d)" % (x, b))
        for bad in (1, -2):
            need(not attempt(fn.py_lambertw, x, bad)[0], "py_lambertw branch %d accepted" % bad)
        return w
    ref = {"ellipe": mpmath.ellipe, "erf": mpmath.erf, "gamma": mpmath.gamma, "i0": lambda v: mpmath.besseli(0, v), "i1": lambda v: mpmath.besseli(1, v),
           "k0": lambda v: mpmath.besselk(0, v), "k1": lambda v: mpmath.besselk(1, v),
           "gammaincc": lambda v: mpmath.gammainc(v[0], v[1], regularized=True), "iv": lambda v: mpmath.besseli(*v),
           "ellipkinc": lambda v: mpmath.ellipf(*v), "ellipeinc": lambda v: mpmath.ellipe(*v), "hyp2f1": lambda v: mpmath.hyp2f1(*v)}[k]
    f = getattr(fn, k)
    return expect(float(f(*x) if isinstance(x, tuple) else f(x)), float(ref(x)), 1e-9, 1e-13, "%s(%r)" % (k, x))


def special_cases():
    for n in range(0, 9):
        for r in range(-1, n + 3):
            yield "comb", (n, r)
    for n in range(-2, 25):
        yield "fact", n
    for x in (-800.0, -745.0, -1.0, 0.0, 1e-9, 1.0, 700.0, 709.0, 709.7, 709.79, 710.0, 1e5):
        yield "exp", x
    for x in (-1.0, -1e-300, 0.0, 5e-324, 1e-300, 1e-9, 1.0, 1e300):
        yield "log", x
    for x in (-1e3, -7.0, -3.2, -1.0, -1e-5, 0.0, 1e-8, 0.3, 0.7853981, 0.8, 1.5, 2.0, 3.0, 4.0, 5.5, 6.3, 100.0):
        yield "sincos", x
        if x >= 0:
            yield "cbrt", x
    for x in uniq([-1e-9, 1.0000001] + lsp(0.0, 1.0, 101) + around(0.7, 0.99) + [1 - 1e-4, 1 - 1e-6, 1 - 1e-9]):
        yield "polylog2", x
    for x in (-0.3678, -0.36, -0.25, -0.1, -1e-3, -1e-8, -1e-20, -1e-80, -1e-161, -1e-250, -1e-300):
        yield "lambertw-1", x
    for x in (-0.3678, -0.36, -0.1, -1e-5, 0.0, 1e-8, 0.5, 1.0, 2.718281828, 50.0, 1e5, 1e20, 1e100):
        yield "lambertw0", x
    for m in (0.0, 0.1, 0.5, 0.99, -3.0):
        yield "ellipe", m
        for phi in (0.0, 0.3, 1.0, 1.5):
            yield "ellipkinc", (phi, m)
            yield "ellipeinc", (phi, m)
    for x in (0.01, 0.5, 1.0, 3.0, 20.0):
        for k in ("erf", "gamma", "i0", "i1", "k0", "k1"):
            yield k, x
        for a in (0.5, 1.0, 2.5, 9.0):
            yield "gammaincc", (a, x)
            yield "iv", (a, x)
    for a, b, c, z in itertools.product((0.5, -1.5), (1.0, 2.0), (1.5, 3.0), (-0.9, 0.0, 0.3, 0.8)):
        yield "hyp2f1", (a, b, c, z)


# ------------------------------------------------------------------- bounds, caches, damping
def bound_cases():
    lows = ([0.0, -5.0], [1e-3, 10.0], [-1.0, -1.0])
    highs = ([1.0, 5.0], [4.0, 1e6], [1.0, 0.0])
    for lo, hi in zip(lows, highs):
        for u in (0.01, 0.3, 0.5, 0.9):
            for v in (0.05, 0.5, 0.99):
                yield lo, hi, u, v


def do_bounds(case):
    lo, hi, u, v = case
    x = [lo[0] + u * (hi[0] - lo[0]), lo[1] + v * (hi[1] - lo[1])]
    f = lambda z: z[0] ** 2 + 3 * z[0] * z[1] - z[1]
    g = lambda z: [2 * z[0] + 3 * z[1], 3 * z[0] - 1]
    fv = lambda z: [z[0] ** 2 * z[1], z[0] - z[1] ** 2]
    gv = lambda z: [[2 * z[0] * z[1], z[0] ** 2], [1.0, -2 * z[1]]]
    bounds = list(zip(lo, hi))
    out = []
    for kw in ({"bounds": bounds}, {"low": lo, "high": hi}):
        nf, into, outof = fn.translate_bound_func(f, **kw)
        nj, into2, outof2 = fn.translate_bound_jac(g, **kw)
        nfj, into3, outof3 = fn.translate_bound_f_jac(f, g, **kw)
        nfv, into4, outof4 = fn.translate_bound_f_jac(fv, gv, **kw)
        nft, into5, outof5 = fn.translate_bound_f_jac(lambda z: (f(z), g(z)), True, **kw)
        for i, o in ((into, outof), (into2, outof2), (into3, outof3), (into4, outof4), (into5, outof5)):
            expect(o(i(x)), x, 1e-10, 1e-10, "translate out of / into %r" % (case,))
            for far in ([-800.0, 800.0], [60.0, -60.0]):
                y = o(far)
                need(all(l - 1e-9 * (1 + abs(l)) <= t <= h + 1e-9 * (1 + abs(h)) for t, l, h in zip(y, lo, hi)), "translated point %r leaves its bounds %r" % (y, kw))
        t = into(x)
        expect(nf(t), f(x), 1e-9, 1e-9, "translate_bound_func value")
        # chain rule by the exact derivative of the logistic map
        s = [(xi - l) * (h - xi) / (h - l) for xi, l, h in zip(x, lo, hi)]
        wj = [a * b for a, b in zip(g(x), s)]
        expect(nj(t), wj, 1e-7, 1e-9, "translate_bound_jac %r" % (case,))
        expect(nfj(t), (f(x), wj), 1e-7, 1e-9, "translate_bound_f_jac %r" % (case,))
        expect(nft(t), (f(x), wj), 1e-7, 1e-9, "translate_bound_f_jac combined %r" % (case,))
        wv = [[a * b for a, b in zip(r, s)] for r in gv(x)]
        expect(nfv(t), (fv(x), wv), 1e-7, 1e-9, "translate_bound_f_jac of a system %r" % (case,))
        out.append(wj)
    return out


def clip_cases():
    v = (-2.0, 0.0, 1.0, 5.0)
    for x in itertools.product(v, repeat=2):
        for lo in (None, [-1.0, 0.0], [0.0, 3.0]):
            for hi in (None, [1.0, 3.0], [4.0, 4.0]):
                yield x, lo, hi


def do_clip(case):
    x, lo, hi = case
    want = list(x)
    if lo is not None:
        want = [max(a, b) for a, b in zip(want, lo)]
    if hi is not None:
        want = [min(a, b) for a, b in zip(want, hi)]
    return expect(list(fn.bounds_clip_naive(list(x), lo, hi)), want, 0, 0, "bounds_clip_naive%r" % (case,))


def damp_cases():
    v = (-3.0, -0.5, 0.0, 0.5, 3.0)
    for x, s in itertools.product(v, repeat=2):
        for d in (1.0, 0.5, 0.1):
            yield x, s, d


def do_damp(case):
    x, s, d = case
    for fac in (0.5, 0.9):
        g = fn.damping_maintain_sign(x, s, d, fac)
        cross = (x >= 0 and x + s < 0) or (x < 0 and x + s > 0)
        want = x + (-fac * x if cross else s) * d
        expect(g, want, 1e-13, 0, "damping_maintain_sign%r" % ((x, s, d, fac),))
        need(g * x >= 0, "damping_maintain_sign changed the sign: %r" % (case,))
        expect(fn.damping_maintain_sign([x, 1.0], [s, 2.0], d, fac), [want, 1.0 + 2.0 * d], 1e-13, 0, "damping_maintain_sign list")
    for steps in (0, 1, 3):
        h = fn.make_damp_initial(steps=steps, damping=d)
        hl = fn.make_damp_initial(steps=steps, damping=d)
        m = fn.make_max_step_initial(0.75, steps=steps) if hasattr(fn, "make_max_step_initial") else None
        ml = fn.make_max_step_initial([0.75, 0.25], steps=steps) if m else None
        for i in range(steps + 2):
            w = x + s * (d if i < steps else 1.0)
            expect(h(x, s), w, 1e-13, 0, "make_damp_initial call %d of %d" % (i, steps))
            expect(hl([x, 2.0], [s, -1.0]), [w, 2.0 - (d if i < steps else 1.0)], 1e-13, 0, "make_damp_initial list call %d" % i)
            if m:
                lim = lambda st, c: math.copysign(min(abs(st), c), st) if i < steps else st
                expect(m(x, s), x + lim(s, 0.75), 1e-13, 0, "make_max_step_initial call %d of %d" % (i, steps))
                expect(ml([x, 2.0], [s, -1.0]), [x + lim(s, 0.75), 2.0 + lim(-1.0, 0.25)], 1e-13, 0, "make_max_step_initial list call %d" % i)
    return g


def cache_hist():
    for n in range(1, 5):
        yield from itertools.product((0.0, 1.0, 2.0, -1.0), repeat=n)


def do_cache(hist):
    calls = []

    def f(x, k=2.0, info=None):
        calls.append(x)
        if info is not None:
            info[:] = [x, "i"]
        return x * k
    for full in (False, True):
        del calls[:]
        r = fn.caching_decorator(f, full=full)
        w = r[0] if full else r
        seen = []
        for x in hist:
            got = w(x, k=2.0)
            need(got == 2.0 * x, "cached function returned %r for %r after %r" % (got, x, seen))
            if x not in seen:
                seen.append(x)
            need(calls == seen, "cached function evaluated at %r for the requests %r" % (calls, hist))
        if full:
            need(r[1] == {x: 2.0 * x for x in seen}, "cache contents %r" % r[1])
        del calls[:]
        r = fn.caching_decorator(f, full=full)
        w = r[0] if full else r
        for x in hist:
            info = []
            need(w(x, info=info) == 2.0 * x and info == [x, "i"], "cached function info %r for %r" % (info, x))
    return len(calls)


def osc_hist():
    yield from itertools.product((-2.0, -1.9, -1.0, 0.0, 1.0, 1.05, 3.0), repeat=5)


def osc_ref(hist, both, prog, good):
    neg, pos, out = [], [], []
    for y in hist:
        if y == 0:
            out.append(False)
            continue
        (neg if y < 0 else pos).append(y)
        if len(pos) < 2 or len(neg) < 2:
            out.append(False)
            continue
        gp, gn = abs((pos[-1] - pos[-2]) / pos[-1]), abs((neg[-1] - neg[-2]) / neg[-1])
        o = (gp < prog and gn < prog) if both else (gp < prog or gn < prog)
        if o and good is not None and min(abs(neg[-1]), abs(pos[-1])) < good:
            o = False
        out.append(o)
    return out


def do_osc(hist):
    for both in (False, True):
        for prog, good in ((0.3, None), (0.03, None), (0.3, 1.02)):
            c = fn.OscillationChecker(minimum_progress=prog, both_sides=both, good_err=good)
            want = osc_ref(hist, both, prog, good)
            got = [c(float(i), y) for i, y in enumerate(hist)]
            need(got == want, "OscillationChecker(%r, %r, %r) on %r: %r, expected %r" % (prog, both, good, hist, got, want))
            c.clear()
            need([c.is_oscillating(float(i), y) for i, y in enumerate(hist)] == want, "OscillationChecker is not reset by clear()")
            it = iter(hist)
            w = fn.oscillation_checking_wrapper(lambda x: next(it), minimum_progress=prog, both_sides=both, full=False, good_err=good)
            seen = []
            for i, o in enumerate(want):
                ok, v = attempt(w, float(i))
                seen.append(ok)
                need(ok != o, "oscillation_checking_wrapper call %d on %r: %r" % (i, hist, v))
                if not ok:
                    break
    return want


def spaces(tier):
    big = tier != "quick"
    L = 6 if big else 5
    return [
        Space("range spacing", lambda: itertools.product((-3.0, 0.0, 1.0, 2.5, 1e6), (-2.0, 0.0, 1.0, 7.0, 1e-3), range(0, 30 if big else 8), (True, False)), spacing, key=repr),
        Space("sequence statistics", seqs(L), seq_stats, key=repr),
        Space("error measures of pairs", lambda: ((a, b) for k in (1, 2, 3) for a in itertools.product((-2.0, 0.0, 1.0, 4.0) if k < 3 or big else (-2.0, 0.0, 1.0), repeat=k)
                                                  for b in itertools.product((-2.0, 0.0, 1.5, 4.0) if k < 3 or big else (-2.0, 0.0, 1.5), repeat=k)), pair_stats, key=repr),
        Space("linear search and interpolation", interp_cases, do_interp, key=repr),
        Space("bilinear interpolation", bilinear_cases, do_bilinear, key=repr),
        Space("spline evaluation", spline_cases, do_spline, key=repr),
        Space("bivariate spline evaluation", bispline_cases, do_bispline, key=repr),
        Space("closeness tests", close_cases, do_close, key=repr),
        Space("filled shapes", shape_cases, do_shape, key=repr),
        Space("complex inverse functions", complex_cases, do_complex, key=repr),
        Space("special functions", special_cases, scalar_special, key=repr),
        Space("bounded variables", bound_cases, do_bounds, key=repr),
        Space("clipping", clip_cases, do_clip, key=repr),
        Space("damping", damp_cases, do_damp, key=repr),
        Space("call caching histories", cache_hist, do_cache, key=repr),
        Space("oscillation histories", osc_hist, do_osc, key=repr),
    ]
