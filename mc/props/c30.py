"""C30: particle size distributions against closed moments (lognormal, Rosin-Rammler, Gates-Gaudin-Schuhman), exact
sums (discrete) and query-history independence."""
import itertools
import math

from ..core import Space, Violation, Outcome, need, expect, attempt, TRIVIAL, linspace, logspace
from ..grid import inv_space
from ..conform import conform_space
import fluids.particle_size_distribution as p
import rfluids.particle_size_distribution as rp
from scipy.special import gammainc, gamma as sgamma

RULE = ("every distribution family x parameters x own order x truncation x queried order (None, 0-4, fractional) x sizes and quantiles; every discrete data set x input form x order; all query orders up to length 3; "
        "every sieve and spacing option; non-trivial when the moment exists")
ASSUMPTIONS = ["scipy's regularized incomplete gamma function as oracle", "PSDInterpolated in an order other than its own is an approximation the source documents: only its bounds, monotonicity and normalization from the second size on are claimed"]


# partial moments M_k(d) = integral_0^d x^k q(x) dx of the own-order density, or None when infinite
class LN:
    def __init__(self, dc, s):
        self.dc, self.s = dc, s
        self.big = dc * math.exp(9 * s)
        self.sizes = [dc * math.exp(s * z) for z in (-4, -2.2, -1, -.3, 0, .2, 1, 2, 3.1)]

    def make(self, **k):
        return p.PSDLognormal(d_characteristic=self.dc, s=self.s, **k)

    def M(self, k, d):
        if d <= 0:
            return 0.0
        z = (math.log(d / self.dc) - k * self.s ** 2) / self.s
        return self.dc ** k * math.exp(0.5 * (k * self.s) ** 2) * 0.5 * math.erfc(-z / math.sqrt(2))

    def inf(self, k):
        return self.dc ** k * math.exp(0.5 * (k * self.s) ** 2)

    def q(self, d):
        if d == 0:
            return 0.0
        return math.exp(-0.5 * (math.log(d / self.dc) / self.s) ** 2) / (d * self.s * math.sqrt(2 * math.pi))


class RR:
    def __init__(self, k, m):
        self.k, self.m = k, m
        self.sizes = [((-math.log(1 - f)) / k) ** (1 / m) for f in (1e-4, .01, .1, .3, .5, .63, .9, .99, .9999)]

    def make(self, **kw):
        return p.PSDRosinRammler(k=self.k, m=self.m, **kw)

    def M(self, k, d):
        a = 1 + k / self.m
        if a <= 0.02:
            return None
        return self.k ** (-k / self.m) * float(sgamma(a)) * float(gammainc(a, self.k * d ** self.m))

    def inf(self, k):
        a = 1 + k / self.m
        return None if a <= 0.02 else self.k ** (-k / self.m) * float(sgamma(a))

    def q(self, d):
        if d == 0:
            return 0.0 if self.m > 1 else None
        return self.k * self.m * d ** (self.m - 1) * math.exp(-self.k * d ** self.m)


class GGS:
    def __init__(self, dc, m):
        self.dc, self.m = dc, m
        self.sizes = [dc * x for x in (.003, .05, .2, .5, .8, .99, 1.0, 1.01, 3.0)]

    def make(self, **kw):
        return p.PSDGatesGaudinSchuhman(d_characteristic=self.dc, m=self.m, **kw)

    def M(self, k, d):
        if self.m + k <= 0:
            return None
        x = min(d / self.dc, 1.0)
        return self.m / (self.m + k) * self.dc ** k * x ** (self.m + k)

    def inf(self, k):
        return self.M(k, self.dc)

    def q(self, d):
        if d > self.dc:
            return 0.0
        if d == 0:
            return 0.0 if self.m > 1 else None
        return self.m / d * (d / self.dc) ** self.m


class CU(LN):
    """The lognormal given as a scipy distribution."""

    def make(self, **kw):
        from scipy.stats import lognorm
        return p.PSDCustom(lognorm(s=self.s, scale=self.dc), d_excessive=self.dc * math.exp(12 * self.s), **kw)


MODELS = {"LN": LN, "RR": RR, "GGS": GGS, "CU": CU}


def setup(fam, par, order, trunc):
    mod = MODELS[fam](*par)
    lo = mod.sizes[2] if trunc in (1, 3) else None
    hi = mod.sizes[6 if fam != "GGS" else 4] if trunc in (2, 3) else None
    kw = {}
    if lo is not None:
        kw["d_min"] = lo
    if hi is not None:
        kw["d_max"] = hi
    return mod, lo or 0.0, hi, mod.make(order=order, **kw)


def part(mod, k, a, b):
    """Integral of x^k q from a to b (b None = infinity)."""
    A = mod.M(k, a) if a else 0.0
    if a and A is None:
        return None
    B = mod.inf(k) if b is None else mod.M(k, b)
    return None if B is None else B - A


def continuous(fam, par, order, trunc, n):
    mod, lo, hi, o = setup(fam, par, order, trunc)
    tol = 1e-6 if fam == "CU" else 1e-8
    k = 0 if n is None else n - order
    tot = part(mod, k, lo, hi)
    if tot is None:
        return TRIVIAL
    top = mod.inf(k)
    # cancellation in differences of moments (lower truncation)
    amp = 1 + (mod.M(k, lo) / tot if lo else 0)
    if mod.M(k, mod.sizes[0] * 1e-3) is None or amp > 1e4:
        return TRIVIAL
    rt = tol * amp
    cs = []
    ds = [0.0] + mod.sizes + ([lo * (1 - 1e-9), lo, lo * (1 + 1e-9)] if lo else []) + ([hi * (1 - 1e-9), hi, hi * (1 + 1e-9), 10 * hi] if hi else [mod.sizes[-1] * 50])
    for d in sorted(ds):
        if d <= lo:
            want = 0.0
        elif hi is not None and d >= hi:
            want = 1.0
        else:
            want = part(mod, k, lo, d) / tot
        got = o.cdf(d, n)
        expect(got, want, rt, 1e-9 if fam != "CU" else 1e-7, "cdf(%r, n=%r)" % (d, n))
        cs.append(got)
        if d == 0 or (fam == "GGS" and abs(d / mod.dc - 1) < 1e-12):
            if d == 0 and mod.q(0.0) == 0:
                expect(o.pdf(0.0, n) if (n is None or n >= order or mod.q(0) == 0) else 0.0, 0.0, 0, 1e-300, "pdf(0, n=%r)" % n)
        else:
            inside = d >= lo and (hi is None or d <= hi)
            edge = (lo and abs(d / lo - 1) < 1e-12) or (hi and abs(d / hi - 1) < 1e-12)
            w = d ** k * mod.q(d) / tot if inside else 0.0
            if not edge:
                expect(o.pdf(d, n), w, rt, 1e-280, "pdf(%r, n=%r)" % (d, n))
        if fam == "CU" and d == 0:
            pass
    need(all(0 <= a <= b + 1e-12 for a, b in zip(cs, cs[1:])) and cs[-1] <= 1 + 1e-12, lambda: "cdf not monotone in [0, 1]: %r" % cs)
    expect(o.cdf(o.d_excessive, n), 1.0, 1e-9 if fam != "CU" else 1e-7, 0, "cdf of the whole range")
    sz = [d for d in mod.sizes if d > lo and (hi is None or d < hi)]
    expect(o.cdf_discrete(sz, n), [o.cdf(d, n) for d in sz], 1e-12, 0, "cdf_discrete")
    fr = o.fractions_discrete(sz, n)
    expect(sum(fr), o.cdf(sz[-1], n), 1e-11, 1e-13, "fractions over a partition")
    expect(fr[0], o.cdf(sz[0], n), 1e-12, 0, "first fraction")
    for a, b, f in zip(sz, sz[1:], fr[1:]):
        expect(f, part(mod, k, a, b) / tot, rt, 1e-9 if fam != "CU" else 1e-7, "fraction between %r and %r" % (a, b))
        expect(o.delta_cdf(a, b, n), f, 1e-9, 1e-12, "delta_cdf")
    for f in (0.0, 1e-6, .01, .25, .5, .75, .99, 1.0) if fam != "CU" else (.25, .9):
        d = o.dn(f, n)
        if f == 0:
            expect(d, lo, 1e-12, 0, "smallest size")
        elif f == 1.0:
            if hi:
                expect(d, hi, 1e-6, 0, "largest size")
            expect(o.cdf(d, n), 1.0, 1e-9, 0, "cdf of the largest size")
        else:
            expect(o.cdf(d, n), f, 1e-8, 1e-10, "cdf(dn(%g, n=%r))" % (f, n))
    for f in (-0.1, 1.1):
        ok, r = attempt(o.dn, f, n)
        need(not ok and r == "ValueError", "dn(%r) is accepted" % f)
    return [round(c, 9) for c in cs[:4]]


def means(fam, par, order, trunc, pq):
    mod, lo, hi, o = setup(fam, par, order, trunc)
    P, Q = pq
    a, b = part(mod, P - order, lo, hi), part(mod, Q - order, lo, hi)
    if a is None or b is None:
        return TRIVIAL
    for k in (P, Q):
        if mod.M(k - order, mod.sizes[0]) is None:
            return TRIVIAL
    amp = max(1 + (mod.M(k - order, lo) / part(mod, k - order, lo, hi) if lo else 0) for k in (P, Q))
    if amp > 1e4:
        return TRIVIAL
    if P != Q:
        expect(o.mean_size(P, Q), (a / b) ** (1 / (P - Q)), 1e-8 * amp if fam != "CU" else 1e-5, 0, "D[%r, %r]" % pq)
        expect(o.mean_size_ISO(P - Q, Q), o.mean_size(P, Q), 1e-12, 0, "ISO notation")
    else:
        e = 1e-3
        u, v = part(mod, P - order + e, lo, hi), part(mod, P - order - e, lo, hi)
        if u is None or v is None:
            return TRIVIAL
        expect(o.mean_size(P, P), (u / v) ** (1 / (2 * e)), 2e-4, 0, "D[%r, %r]" % pq)
    x, y = part(mod, 3 - order, lo, hi), part(mod, 2 - order, lo, hi)
    if fam != "CU" and x is not None and y is not None:
        expect(o.vssa, 6 / (x / y), 1e-8 * amp, 0, "specific surface")
    return round(a / b, 9)


def spacing_discrete(fam, par, order, trunc, pts):
    mod, lo, hi, o = setup(fam, par, order, trunc)
    if fam == "CU":
        return TRIVIAL
    ds = o.ds_discrete(pts=pts)
    need(len(ds) == pts, "number of sizes")
    expect(o.cdf(ds[0]), 1e-9, 1e-3, 1e-12, "cdf of the first size")
    expect(o.cdf(ds[-1]), 1 - 1e-9, 1e-9, 0, "cdf of the last size")
    for a, b, c in zip(ds, ds[1:], ds[2:]):
        expect(b / a, c / b, 1e-8, 0, "logarithmic spacing")
    fr = o.fractions_discrete(ds)
    expect(sum(fr), 1.0, 1e-8, 0, "fractions over a full partition")
    # a discrete distribution made of it agrees at its nodes, in its own order
    dd = p.ParticleSizeDistribution(ds=ds, fractions=fr, order=3)
    if order == 3 and pts > 5:
        for d in ds[1:]:
            expect(dd.cdf(d), o.cdf(d), 1e-7, 1e-8, "discretized cdf at %r" % d)
    return round(ds[1], 12)


# ------------------------------------------------------------------ discrete
DATA = {
    "astm": ([240., 360, 450, 562.5, 703, 878, 1097, 1371, 1713, 2141, 2676, 3345, 4181, 5226, 6532], [65., 119, 232, 410, 629, 849, 990, 981, 825, 579, 297, 111, 21, 1]),
    "few": ([10., 20., 50., 100.], [.1, .6, .3]),
    "gap": ([1., 2., 3., 5., 8.], [.2, .0, .5, .3]),
    "one": ([3., 7.], [5.]),
    "wide": ([1e-3, 1., 10., 1e3], [.2, .5, .3]),
    "zero": ([0.0, 2.0, 5.0], [.4, .6]),
}


def bases(ds, w, classes, order):
    """Fractions in bases 0..3 of amounts w given in base `order`, by exact class means."""
    def mom(i, k):
        if classes:
            a, b = ds[i], ds[i + 1]
            if k == -1:
                return math.log(b / a) / (b - a)
            return (b ** (k + 1) - a ** (k + 1)) / ((b - a) * (k + 1))
        return ds[i] ** k
    vol = [x * mom(i, 3 - order) for i, x in enumerate(w)]
    out = {}
    for n in range(4):
        v = [x / (mom(i, 3 - n) if n != 3 else 1.0) for i, x in enumerate(vol)]
        out[n] = [x / sum(v) for x in v]
    return out, mom


def discrete(name, classes, order, cdf, scale, unit):
    ds, w = DATA[name]
    ds = [d * unit for d in ds]
    w = list(w)
    if not classes:
        ds = ds[1:]
    if not classes and ds[0] == 0 or (name == "zero" and order == 4):
        return TRIVIAL
    ref, mom = bases(ds, w, classes, order)
    tot = sum(w)
    if cdf:
        acc, fr = 0.0, []
        for x in w:
            acc += x / tot
            fr.append(acc)
        fr[-1] = 1.0
    else:
        fr = [x * scale for x in w]
    inp = list(fr)
    o = p.ParticleSizeDistribution(ds=ds, fractions=fr, order=order, cdf=cdf)
    need(fr == inp, "the caller's fractions were changed")
    for n, at in ((3, "fractions"), (2, "area_fractions"), (1, "length_fractions"), (0, "number_fractions")):
        expect(list(getattr(o, at)), ref[n], 1e-9, 1e-14, at)
        cum, acc = [], 0.0
        for x in ref[n]:
            acc += x
            cum.append(acc)
        expect(list(getattr(o, {3: "volume_cdf", 2: "area_cdf", 1: "length_cdf", 0: "number_cdf"}[n])), cum, 1e-9, 1e-13, "cumulative %s" % at)
    need(o.size_classes == classes and o.N == len(w), "size class flags")
    nf = ref[0]
    for P, Q in itertools.product((-1, 0, 1, 2, 3, 4, 2.5), repeat=2):
        if name == "zero" and min(P, Q) < 0:
            continue
        if P != Q:
            want = (sum(mom(i, P) * f for i, f in enumerate(nf)) / sum(mom(i, Q) * f for i, f in enumerate(nf))) ** (1 / (P - Q))
            expect(o.mean_size(P, Q), want, 1e-9, 0, "D[%r, %r]" % (P, Q))
            expect(o.mean_size_ISO(P - Q, Q), want, 1e-9, 0, "ISO D[%r, %r]" % (P, Q))
        else:
            want = math.exp(sum(math.log(mom(i, 1)) * mom(i, P) * f for i, f in enumerate(nf)) / sum(mom(i, P) * f for i, f in enumerate(nf)))
            expect(o.mean_size(P, Q), want, 1e-9, 0, "D[%r, %r]" % (P, Q))
    expect(list(o.Dis), [mom(i, 1) for i in range(len(w))], 1e-12, 0, "mean diameters")
    expect(o.vssa, sum(f * 6 / mom(i, 1) for i, f in enumerate(ref[3])), 1e-9, 0, "specific surface")
    repr(o)
    # round trip through each basis
    if name != "zero":
        for n in range(4):
            u = p.ParticleSizeDistribution(ds=ds, fractions=ref[n], order=n)
            expect(list(u.fractions), ref[3], 1e-9, 1e-13, "volume fractions from basis %d" % n)
    # native cumulative function
    edges = ds[1:] if classes else ds
    acc = 0.0
    prev = None
    for i, (e, f) in enumerate(zip(edges, ref[3])):
        acc += f
        expect(o.cdf(e), acc, 1e-9, 1e-12, "cdf at size %d" % i)
    sweep = sorted([ds[0] * x for x in (0.0, 1e-3, .5, .999)] + [a + (b - a) * t for a, b in zip(ds, ds[1:]) for t in (0, .1, .37, .5, .8)] + [ds[-1] * x for x in (1, 1.0001, 2, 1e3)])
    last = -1.0
    for d in sweep:
        c, q = o.cdf(d), o.pdf(d)
        need(0 <= c <= 1 + 1e-12 and c >= last - 1e-12, lambda: "cdf not monotone at %r: %r after %r" % (d, c, last))
        need(q >= 0, "negative density")
        if d > ds[-1]:
            expect((c, q), (1.0, 0.0), 1e-9, 0, "beyond the largest size %r" % d)
        if classes and d < ds[0]:
            expect((c, q), (0.0, 0.0), 0, 0, "below the smallest size %r" % d)
        last = c
    # the cumulative function is the integral of the density (piecewise cubic: Gauss is exact)
    X = [(-math.sqrt(3 / 5), 5 / 9), (0.0, 8 / 9), (math.sqrt(3 / 5), 5 / 9)]
    for a, b in zip(ds, ds[1:]):
        integ = sum(w_ * o.pdf(0.5 * (a + b) + 0.5 * (b - a) * x) for x, w_ in X) * 0.5 * (b - a)
        expect(integ, o.cdf(b) - o.cdf(a), 1e-7, 1e-10, "density over [%r, %r]" % (a, b))
    for f in (.05, .3, .5, .77, .95):
        d = o.dn(f)
        expect(o.cdf(d), f, 1e-8, 1e-10, "cdf(dn(%g))" % f)
    return [round(x, 9) for x in o.fractions[:4]]


def other_orders(name, classes, order, unit, n):
    ds, w = DATA[name]
    ds = [d * unit for d in ds]
    if not classes:
        ds = ds[1:]
    if len(ds) < (3 if classes else 2) or ds[0] == 0:          # an interpolation needs two points
        return TRIVIAL
    o = p.ParticleSizeDistribution(ds=ds, fractions=list(w), order=order)
    sweep = sorted([a + (b - a) * t for a, b in zip(ds, ds[1:]) for t in (0, .1, .37, .5, .8)] + [ds[-1] * x for x in (1, 1.0001, 2, 1e3)])
    second = ds[1] if classes else ds[0]
    last = -1.0
    for d in sweep:
        if d >= second:
            c = o.cdf(d, n)
            need(-1e-12 <= c <= 1 + 1e-9 and c >= last - 1e-9, lambda: "cdf(n=%r) not monotone in [0, 1] at %r: %r after %r" % (n, d, c, last))
            last = c
            need(o.pdf(d, n) >= 0, "negative density")
    expect(o.cdf(ds[-1] * 3, n), 1.0, 1e-9, 0, "cdf of everything, order %r" % n)
    for f in (.3, .8):
        d = o.dn(f, n)
        expect(o.cdf(d, n), f, 1e-7, 1e-9, "cdf(dn(%g, n=%r))" % (f, n))
    for d in (0.0, ds[0] * .5, ds[0] * .99):
        if classes and o.cdf(d, n) > 1e-9:
            raise Violation("cdf(%r, n=%r) = %r below the smallest size" % (d, n, o.cdf(d, n)), key="interpolated other order below the second size")
    return round(last, 9)


# ------------------------------------------------------------------ histories
QUERIES = [("cdf", 0), ("cdf", 1), ("cdf", 2.5), ("pdf", 0), ("pdf", 2), ("pdf", None), ("mean", (3, 2)), ("mean", (2.5, 0)), ("dn", 0), ("cdf", 0.5), ("pdf", -0.5), ("fr", 1), ("vssa", None)]


def ask(o, q, mid):
    k, a = q
    if k == "cdf":
        return o.cdf(mid, a)
    if k == "pdf":
        return o.pdf(mid, a)
    if k == "mean":
        return p.ParticleSizeDistributionContinuous.mean_size(o, *a)
    if k == "dn":
        return o.dn(.4, a)
    if k == "fr":
        return o.fractions_discrete([mid * .5, mid, mid * 2], a)
    return o.vssa


def mk(kind):
    if kind == "discrete":
        ds, w = DATA["astm"]
        return p.ParticleSizeDistribution(ds=[d * 1e-6 for d in ds], fractions=w, order=0), 1.3e-3
    if kind == "points":
        return p.ParticleSizeDistribution(ds=[1e-5, 2e-5, 5e-5, 1e-4], fractions=[.1, .2, .4, .3]), 3e-5
    if kind == "interp":
        return p.PSDInterpolated([1e-5, 2e-5, 5e-5, 1e-4], [.1, .2, .4, .3]), 3e-5
    if kind == "LN":
        return p.PSDLognormal(d_characteristic=5e-6, s=.5, d_min=1e-6, d_max=1e-5), 4e-6
    if kind == "RR":
        return p.PSDRosinRammler(k=200, m=1.5), 1e-2
    return p.PSDGatesGaudinSchuhman(d_characteristic=1e-3, m=3.3), 3e-4


def history(case):
    kind, first, depth = case
    o, mid = mk(kind)
    fresh = {}
    for q in QUERIES:
        ok, v = attempt(ask, mk(kind)[0], q, mid)
        fresh[q] = v
    n = 0
    for rest in itertools.product(QUERIES, repeat=depth - 1):
        o, mid = mk(kind)
        for q in (first,) + rest:
            ok, v = attempt(ask, o, q, mid)
            n += 1
            expect(v, fresh[q], 1e-13, 0, "%s after %s" % (q, (first,) + rest))
    return Outcome(n, transitions=n, traces=n, evals=n)


# ------------------------------------------------------------------ sieves, spacing
SERIES = ("ASTM_E11_sieve_list", "ISO_3310_1_sieve_list", "ISO_3310_1_R20", "ISO_3310_1_R20_3", "ISO_3310_1_R40_3", "ISO_3310_1_R10")


def sieves(case):
    kind, name, i = case
    if kind == "dict":
        d, r = getattr(p, name), getattr(rp, name)
        need(list(d) == list(r) or set(d) == set(r), "sieve names of %s" % name)
        s, t = d[i], r[i]
        for k in t.__slots__:
            expect(getattr(s, k), getattr(t, k), 1e-12, 0, "%s[%r].%s" % (name, i, k))
        need(s.designation == i, "sieve filed under the wrong name")
        expect(s.opening, float(i) * 1e-3, 1e-9, 0, "opening of sieve %s" % i)
        need("designation" in repr(s) and i in str(s), "sieve text")
        return s.opening
    lst = getattr(p, name)
    ref = getattr(rp, name)
    expect([s.opening for s in lst], [s.opening for s in ref], 1e-12, 0, name)
    need(all(a.opening > b.opening for a, b in zip(lst, lst[1:])), "%s is not in decreasing size" % name)
    return len(lst)


def spacing(method, lo, hi, pts):
    if method == "logarithmic":
        got = p.psd_spacing(d_min=lo, d_max=hi, pts=pts, method=method)
        expect(got, [lo * (hi / lo) ** (i / (pts - 1)) for i in range(pts)], 1e-11, 0, "logarithmic")
        for bad in (dict(d_min=lo), dict(d_max=hi)):
            ok, r = attempt(p.psd_spacing, method=method, **bad)
            need(not ok and r == "ValueError", "half-open logarithmic spacing accepted")
    elif method == "linear":
        expect(p.psd_spacing(d_min=lo, d_max=hi, pts=pts, method=method), [lo + (hi - lo) * i / (pts - 1) for i in range(pts)], 1e-11, 0, "linear")
    elif method[0] in "rR" and method[1:].isdigit():
        r = 10 ** (1 / float(method[1:]))
        expect(p.psd_spacing(d_min=lo, pts=pts, method=method), [lo * r ** i for i in range(pts)], 1e-10, 0, method)
        expect(p.psd_spacing(d_max=hi, pts=pts, method=method), [hi / r ** (pts - 1 - i) for i in range(pts)], 1e-10, 0, method)
        for bad in (dict(d_min=lo, d_max=hi), dict()):
            ok, x = attempt(p.psd_spacing, method=method, **bad)
            need(not ok and x == "ValueError", "Renard spacing accepts %s" % sorted(bad))
    else:
        lst = {"ISO 3310-1": p.ISO_3310_1_sieve_list, "ISO 3310-1 R20": p.ISO_3310_1_R20, "ISO 3310-1 R20/3": p.ISO_3310_1_R20_3, "ISO 3310-1 R40/3": p.ISO_3310_1_R40_3,
               "ISO 3310-1 R10": p.ISO_3310_1_R10, "ASTM E11": p.ASTM_E11_sieve_list}[method]
        lo, hi = lo * 1e-3, hi * 1e-3
        want = sorted(s.opening for s in lst if lo <= s.opening <= hi)
        got = p.psd_spacing(d_min=lo, d_max=hi, method=method)
        expect(got, want, 1e-12, 0, method)
        for s in want[:1] + want[-1:]:
            need(s in p.psd_spacing(d_min=s, d_max=hi, method=method) and s in p.psd_spacing(d_min=lo, d_max=s, method=method), "sieve at the limit left out")
    ok, r = attempt(p.psd_spacing, d_min=lo, d_max=hi, method="nothing")
    need(not ok and r == "ValueError", "unknown spacing accepted")
    return pts


def spaces(tier):
    q = tier == "quick"
    pars = {"LN": [(5e-6, .5), (1e-3, 1.1), (2.0, .1)], "RR": [(200., 1.5), (3.0, 2.7), (1e4, .9)], "GGS": [(1e-3, 2.3), (5.0, 1.0), (1e-5, 3.5)], "CU": [(5e-6, .5)]}
    S = []
    fams = [(f, a) for f in ("LN", "RR", "GGS") for a in pars[f]]

    def ccases():
        for f, a in fams:
            for order in (3, 0, 2):
                for t in (0, 1, 2, 3):
                    for n in (None, 0, 1, 2, 3, 4, 2.5, -1):
                        yield f, a, order, t, n
        for t in (0, 3):
            for n in (None, 0, 2, 3, 4) if not q else (None, 2):
                yield "CU", pars["CU"][0], 3, t, n
    S.append(Space("continuous", ccases, lambda c: continuous(*c), limit=120))

    def mcases():
        for f, a in fams:
            for order in (3, 0):
                for t in (0, 1, 2, 3):
                    for P in (-1, 0, 1, 2, 3, 4, 1.5):
                        for Q in (-1, 0, 1, 2, 3, 4, 1.5):
                            yield f, a, order, t, (P, Q)
        for pq in ((3, 2), (1, 0), (4, 3)):
            yield "CU", pars["CU"][0], 3, 0, pq
    S.append(Space("mean sizes", mcases, lambda c: means(*c), limit=120))
    S.append(Space("discretization", lambda: [(f, a, o, t, n) for f, a in fams for o in (3, 0) for t in (0, 3) for n in (2, 5, 20, 60)], lambda c: spacing_discrete(*c), limit=60))

    def dcases():
        for name in DATA:
            for classes in (True, False):
                for order in (0, 1, 2, 3, 4):
                    for cdf, scale in ((False, 1.0), (True, 1.0), (False, 37.0), (False, 1e-6)):
                        for unit in (1.0, 1e-6):
                            yield name, classes, order, cdf, scale, unit
    S.append(Space("discrete", dcases, lambda c: discrete(*c), limit=60))
    S.append(Space("discrete, other orders", lambda: [(nm, cl, o, u, n) for nm in DATA for cl in (True, False) for o in (0, 3) for u in (1.0, 1e-6) for n in (0, 1, 2, 2.5, 4)], lambda c: other_orders(*c), limit=60))
    S.append(Space("query histories", lambda: [(k, f, d) for k in ("discrete", "points", "interp", "LN", "RR", "GGS") for f in QUERIES for d in ((1, 2) if q else (1, 2, 3))], history, limit=300))
    S.append(Space("sieves", lambda: [("dict", n, k) for n in ("ASTM_E11_sieves", "ISO_3310_1_sieves") for k in getattr(rp, n)] + [("list", n, 0) for n in SERIES], sieves))
    S.append(Space("spacing", lambda: [(m, lo, hi, pts) for m in ("logarithmic", "linear", "R5", "R10", "r20", "R40", "ISO 3310-1", "ISO 3310-1 R20", "ISO 3310-1 R20/3", "ISO 3310-1 R40/3", "ISO 3310-1 R10", "ASTM E11")
                                       for lo in (0.02, 1e-3, 0.5) for hi in (0.9, 2.0, 25.0) for pts in (2, 4, 21)], lambda c: spacing(*c)))
    S.append(conform_space("conformance", modules=["particle_size_distribution"], tier=tier))
    return S
