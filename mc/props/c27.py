"""C27: partially filled tanks.  The reference is the geometric integral itself, computed from the head profile."""
import math

import numpy as np

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..grid import inv_space
from ..conform import conform_space
import fluids.geometry as g

RULE = ("every head type (pair) x head depth x diameter x length x orientation x fill height of the lattice, heights at, just above and just below every junction of the profile; "
        "plus the conformance lattice of the tank functions; non-trivial when the shape exists")
ASSUMPTIONS = ["the head profile is the documented one (cone, ellipsoid, spherical cap, guppy plane, dish and knuckle); integrals by Gauss quadrature to 1e-9"]
SQ = math.sqrt
PI = math.pi
X, W = np.polynomial.legendre.leggauss(90)
S01 = 0.5 * (X + 1)
SMOOTH = S01 * S01 * (3 - 2 * S01)
WSM = 0.5 * W * 6 * S01 * (1 - S01)


def depth(D, head):
    t = head[0]
    if t == "torispherical":
        f, k = head[1:]
        al = math.asin((1 - 2 * k) / (2 * (f - k)))
        return f * D * (1 - math.cos(al)) + k * D * math.cos(al)
    return head[1] * D if t else 0.0


def pieces(D, head):
    """Arcs (t0, t1, z(t), r(t), ds(t), dz(t)) of the profile from the apex (r = 0) to the rim (r = R); z measured from the apex."""
    R = D / 2
    t = head[0]
    a = depth(D, head)
    if t == "conical":
        return [(0.0, 1.0, lambda u: u * a, lambda u: u * R, lambda u: SQ(a * a + R * R) + 0 * u, lambda u: a + 0 * u)]
    if t == "ellipsoidal":
        return [(0.0, PI / 2, lambda u: a * (1 - np.cos(u)), lambda u: R * np.sin(u), lambda u: np.sqrt((a * np.sin(u)) ** 2 + (R * np.cos(u)) ** 2), lambda u: a * np.sin(u))]
    if t == "spherical":
        rho = (a * a + R * R) / (2 * a)
        top = 2 * math.atan(a / R)
        return [(0.0, top, lambda u: rho * (1 - np.cos(u)), lambda u: rho * np.sin(u), lambda u: rho + 0 * u, lambda u: rho * np.sin(u))]
    if t == "torispherical":
        f, k = head[1:]
        al = math.asin((1 - 2 * k) / (2 * (f - k)))
        c = R - k * D
        return [(0.0, al, lambda u: f * D * (1 - np.cos(u)), lambda u: f * D * np.sin(u), lambda u: f * D + 0 * u, lambda u: f * D * np.sin(u)),
                (al, PI / 2, lambda u: a - k * D * np.cos(u), lambda u: c + k * D * np.sin(u), lambda u: k * D + 0 * u, lambda u: k * D * np.sin(u))]
    return []


def integrate(fn, t0, t1, cut=None):
    pts = [t0] + ([cut] if cut is not None and t0 < cut < t1 else []) + [t1]
    tot = 0.0
    for a, b in zip(pts, pts[1:]):
        u = a + (b - a) * SMOOTH
        tot += (b - a) * float(np.dot(WSM, fn(u)))
    return tot


def crossing(val, t0, t1, target):
    if val(t0) >= target or val(t1) <= target:
        return None
    a, b = t0, t1
    for _ in range(100):
        m = 0.5 * (a + b)
        if val(m) < target:
            a = m
        else:
            b = m
    return 0.5 * (a + b)


def seg(r, y):
    """Area of the part of a circle of radius r below level y (from its centre)."""
    c = np.clip(-y / np.where(r > 0, r, 1), -1, 1)
    return np.where(r > 0, r * r * (np.arccos(c) - c * np.sqrt(np.clip(1 - c * c, 0, None))), 0.0)


def arc(r, y):
    c = np.clip(-y / np.where(r > 0, r, 1), -1, 1)
    return 2 * r * np.arccos(c)


def _tri(a, R, p):
    """(twice the area of the triangle apex - rim element)^2 / R^2 - a^2, with the apex at (a, 0, R) and rim points (0, R sin p, -R cos p)."""
    # (B - P) x dB with B - P = (-a, R sin p, -R cos p - R), dB = (0, R cos p, R sin p)
    n0 = R * np.sin(p) * R * np.sin(p) + (R * np.cos(p) + R) * R * np.cos(p)
    return (n0 / R) ** 2


def horiz(D, head, h):
    """(volume, wetted area) of one head of a horizontal tank filled to h."""
    R = D / 2
    h = min(max(h, 0.0), D)
    y = h - R
    if head[0] is None:
        return 0.0, float(seg(np.array(R), y))
    if head[0] == "guppy":
        # an oblique cone on the circular rim, its apex level with the top of the tank
        a = depth(D, head)
        # circle at depth z: radius q, centre R - q above the axis; q runs 0..R and the level cuts it while y > R - 2 q
        lo = max(0.0, (R - y) / 2)
        vol = a / R * integrate(lambda q: seg(q, y - (R - q)), lo, R) if lo < R else 0.0
        if y >= R:
            vol = a / R * PI * R ** 3 / 3
        b = lambda p: -R * np.cos(p)
        el = lambda p: 0.5 * R * np.sqrt(a * a + _tri(a, R, p))
        hit = math.acos(max(-1.0, min(1.0, -y / R)))
        side = 2 * integrate(lambda p: el(p) * (1 - (1 - np.clip((y - b(p)) / (R - b(p)), 0, 1)) ** 2), 0.0, hit)
        return vol, side
    v = s = 0.0
    for t0, t1, z, r, ds, dz in pieces(D, head):
        cut = crossing(lambda u: float(r(np.array(u))), t0, t1, abs(y))
        v += integrate(lambda u: seg(r(u), y) * dz(u), t0, t1, cut)
        s += integrate(lambda u: arc(r(u), y) * ds(u), t0, t1, cut)
    return v, s


def vert(D, head, h):
    """(volume, area) of a vertical head, apex down, filled to h above the apex."""
    v = s = 0.0
    if head[0] is None:
        return 0.0, PI * D * D / 4
    for t0, t1, z, r, ds, dz in pieces(D, head):
        if h <= float(z(np.array(t0))):
            continue
        top = crossing(lambda u: float(z(np.array(u))), t0, t1, h) if h < float(z(np.array(t1))) else t1
        v += integrate(lambda u: PI * r(u) ** 2 * dz(u), t0, top)
        s += integrate(lambda u: 2 * PI * r(u) * ds(u), t0, top)
    return v, s


def kw(D, A, B):
    d = {}
    for n, hd in (("A", A), ("B", B)):
        d["side" + n] = hd[0]
        d["side%s_a" % n] = depth(D, hd)
        d["side%s_f" % n] = hd[1] if hd[0] == "torispherical" else None
        d["side%s_k" % n] = hd[2] if hd[0] == "torispherical" else None
    return d


ONE_H = {"conical": lambda D, a, hd, h: g.V_horiz_conical(D, 1.3, a, h, headonly=True), "ellipsoidal": lambda D, a, hd, h: g.V_horiz_ellipsoidal(D, 1.3, a, h, headonly=True),
         "spherical": lambda D, a, hd, h: g.V_horiz_spherical(D, 1.3, a, h, headonly=True), "guppy": lambda D, a, hd, h: g.V_horiz_guppy(D, 1.3, a, h, headonly=True),
         "torispherical": lambda D, a, hd, h: g.V_horiz_torispherical(D, 1.3, hd[1], hd[2], h, headonly=True)}
FULL_H = {"conical": lambda D, a, hd, h: g.V_horiz_conical(D, 1.3, a, h), "ellipsoidal": lambda D, a, hd, h: g.V_horiz_ellipsoidal(D, 1.3, a, h),
          "spherical": lambda D, a, hd, h: g.V_horiz_spherical(D, 1.3, a, h), "guppy": lambda D, a, hd, h: g.V_horiz_guppy(D, 1.3, a, h),
          "torispherical": lambda D, a, hd, h: g.V_horiz_torispherical(D, 1.3, hd[1], hd[2], h)}
SA_H = {"conical": lambda D, a, hd, h: g.SA_partial_horiz_conical_head(D, a, h), "ellipsoidal": lambda D, a, hd, h: g.SA_partial_horiz_ellipsoidal_head(D, a, h),
        "spherical": lambda D, a, hd, h: g.SA_partial_horiz_spherical_head(D, a, h), "guppy": lambda D, a, hd, h: g.SA_partial_horiz_guppy_head(D, a, h),
        "torispherical": lambda D, a, hd, h: g.SA_partial_horiz_torispherical_head(D, hd[1], hd[2], h)}
V_V = {"conical": lambda D, a, hd, h: g.V_vertical_conical(D, a, h), "ellipsoidal": lambda D, a, hd, h: g.V_vertical_ellipsoidal(D, a, h),
       "spherical": lambda D, a, hd, h: g.V_vertical_spherical(D, a, h), "torispherical": lambda D, a, hd, h: g.V_vertical_torispherical(D, hd[1], hd[2], h)}
SA_V = {"conical": lambda D, a, hd, h: g.SA_partial_vertical_conical_head(D, a, h), "ellipsoidal": lambda D, a, hd, h: g.SA_partial_vertical_ellipsoidal_head(D, a, h),
        "spherical": lambda D, a, hd, h: g.SA_partial_vertical_spherical_head(D, a, h), "torispherical": lambda D, a, hd, h: g.SA_partial_vertical_torispherical_head(D, hd[1], hd[2], h)}
CONCAVE = {"conical": lambda D, a, hd, h: g.V_vertical_conical_concave(D, a, h), "ellipsoidal": lambda D, a, hd, h: g.V_vertical_ellipsoidal_concave(D, a, h),
           "spherical": lambda D, a, hd, h: g.V_vertical_spherical_concave(D, a, h), "torispherical": lambda D, a, hd, h: g.V_vertical_torispherical_concave(D, hd[1], hd[2], h)}
HEADS = [("conical", 0.1), ("conical", 0.6), ("ellipsoidal", 0.05), ("ellipsoidal", 0.25), ("ellipsoidal", 0.5), ("ellipsoidal", 0.8), ("spherical", 0.05), ("spherical", 0.2), ("spherical", 0.4999), ("spherical", 0.5),
         ("guppy", 0.1), ("guppy", 0.7), ("torispherical", 1.0, 0.06), ("torispherical", 0.9, 0.1), ("torispherical", 0.8, 0.154), ("torispherical", 0.6, 0.4), ("torispherical", 1.0, 0.03)]


def levels(D, hd, T):
    out = [0.0, 1e-6, 0.003, 0.05, 0.12, 0.25, 0.4, 0.4999, 0.5, 0.5001, 0.61, 0.75, 0.9, 0.97, 0.999, 1.0]
    if hd[0] == "torispherical":
        f, k = hd[1:]
        al = math.asin((1 - 2 * k) / (2 * (f - k)))
        j = k * (1 - math.sin(al))
        out += [j, j * (1 - 1e-6), j * (1 + 1e-6), j / 2, 1 - j, (1 - j) * (1 - 1e-6), (1 - j) * (1 + 1e-6), 1 - j / 2]
    # within rounding of empty, of full and of the centre line
    out += [1e-16, 1e-15, 1e-12, 1 - 1e-12, 1 - 1e-15, 1 - 4e-16, 1 - 1.2e-16, 0.5 * (1 - 1.2e-16), 0.5 * (1 + 2.3e-16)]
    if T:
        out += [i / 60 for i in range(1, 60)]
    return sorted(set(out))


def horizontal(hd, D, x):
    h = x * D
    a = depth(D, hd)
    v, s = horiz(D, hd, h)
    vm, sm = horiz(D, hd, D)
    t = hd[0]
    if t == "spherical" and hd[1] == 0.4999:
        pass
    V = ONE_H[t](D, a, hd, h)
    tol = 1e-6 if t == "torispherical" else 1e-7
    # within a thousandth of the centre line the module integrates a kink numerically: accurate to 1e-3 only
    stol = 1e-3 if t == "torispherical" and abs(x - 0.5) < 1e-3 else 1e-6
    # an arc cosine next to 1 is only good to the root of the rounding error, and the spherical head has a difference of large terms on top
    edge = (1e-4 * D ** 3 if t == "spherical" else 3e-8 * (vm + 1.3 * D * D)) if min(x, 1 - x) < 1e-11 else 0.0
    expect(V, v, tol, 1e-9 * vm + edge, "volume of a %r head, D=%r, filled to %r" % (hd, D, h))
    expect(FULL_H[t](D, a, hd, h), 2 * v + 1.3 * float(seg(np.array(D / 2), h - D / 2)), tol, 1e-9 * vm + edge, "volume of two heads and body %r D=%r h=%r" % (hd, D, h))
    S = SA_H[t](D, a, hd, h)
    expect(S, s, stol, 1e-7 * sm, "wetted area of a %r head, D=%r, filled to %r" % (hd, D, h))
    if t != "guppy":
        expect(ONE_H[t](D, a, hd, D - h), vm - v, tol, 1e-9 * vm + edge, "the head is symmetric about its axis")
    return V


def hcases(T):
    for hd in HEADS:
        for D in (0.4, 1.0, 2.54, 3.7):
            for x in levels(D, hd, T):
                yield hd, D, x


def flat(ratio, D, x):
    """nearly flat dishes, where the closed form is the difference of two large terms"""
    hd = ("spherical", ratio)
    a = ratio * D
    v, vm = horiz(D, hd, x * D)[0], horiz(D, hd, D)[0]
    V = g.V_horiz_spherical(D, 1.3, a, x * D, headonly=True)
    expect(V, v, 1e-6, 1e-8 * vm if ratio >= 0.0099 else 1e-9 * vm, "volume of a spherical head of depth %r D=%r filled to %r D" % (a, D, x))
    expect(V + g.V_horiz_spherical(D, 1.3, a, D - x * D, headonly=True), vm, 1e-7, 0, "the flat head is symmetric about its axis")
    return V


def fcases(T):
    for r in (1e-6, 1e-5, 1e-4, 1e-3, 0.005, 0.0098, 0.00999, 0.01001, 0.012, 0.02, 0.03):
        for D in (0.4, 2.54, 108.0):
            for x in [0.01, 0.046, 0.12, 0.25, 1 / 3, 0.499, 0.5, 0.61, 0.78, 0.9, 0.999] + ([i / 40 for i in range(1, 40)] if T else []):
                yield r, D, x


def vertical(hd, D, x):
    a = depth(D, hd)
    h = x * a
    v, s = vert(D, hd, h)
    vm, sm = vert(D, hd, a)
    t = hd[0]
    expect(V_V[t](D, a, hd, h), v, 1e-7, 1e-9 * vm, "volume of an upright %r head, D=%r, filled to %r" % (hd, D, h))
    expect(SA_V[t](D, a, hd, h), s, 1e-7, 1e-8 * sm, "wetted area of an upright %r head, D=%r, filled to %r" % (hd, D, h))
    # concave: what the cylinder holds less what the inverted head displaces
    want = PI / 4 * D * D * h - (vm - vert(D, hd, a - h)[0])
    expect(CONCAVE[t](D, -a, hd, h), want, 1e-7, 1e-9 * vm, "volume over a concave %r head, D=%r, filled to %r" % (hd, D, h))
    expect(CONCAVE[t](D, -a, hd, a * 1.7), PI / 4 * D * D * 1.7 * a - vm, 1e-7, 0, "volume over a concave %r head when covered" % (hd,))
    return v


def vcases(T):
    for hd in HEADS:
        if hd[0] == "guppy":
            continue
        for D in (0.4, 1.0, 3.7):
            a = depth(D, hd)
            xs = [0.0, 1e-6, 0.01, 0.1, 0.3, 0.5, 0.8, 0.95, 0.9999, 1.0] + ([i / 50 for i in range(1, 50)] if T else [])
            if hd[0] == "torispherical":
                f, k = hd[1:]
                j = f * D * (1 - math.cos(math.asin((1 - 2 * k) / (2 * (f - k))))) / a
                xs += [j, j * (1 - 1e-7), j * (1 + 1e-7), 0.5 * (1 + j)]
            for x in sorted(set(xs)):
                yield hd, D, x


def tank(A, B, horizontal, D, L, x):
    """A whole tank: volume and wetted area at a fill height against the integrals; totals; monotone."""
    k = kw(D, A, B)
    a, b = k["sideA_a"], k["sideB_a"]
    if horizontal:
        hm = D
        h = x * D
        va, sa = horiz(D, A, h)
        vb, sb = horiz(D, B, h)
        y = min(h, D) - D / 2
        v = va + vb + L * float(seg(np.array(D / 2), y))
        s = sa + sb + L * float(arc(np.array(D / 2), y))
        tot = (horiz(D, A, D)[0], horiz(D, B, D)[0], PI / 4 * D * D * L)
        full = (horiz(D, A, D)[1], horiz(D, B, D)[1], PI * D * L)
    else:
        if "guppy" in (A[0], B[0]):
            return TRIVIAL
        hm = L + a + b
        # heights by position: the junctions are where the branches are
        h = {"a": a, "aL": a + L, "a-": a * (1 - 1e-9), "a+": a + 1e-9 * L, "aL-": a + L * (1 - 1e-9), "aL+": a + L + 1e-9 * (L + b)}.get(x) if isinstance(x, str) else x * hm
        h1 = min(h, hm)
        ma, mb = vert(D, A, a), vert(D, B, b)
        va, sa = vert(D, A, min(h1, a))
        v, s = va + PI / 4 * D * D * min(max(h1 - a, 0), L), sa + PI * D * min(max(h1 - a, 0), L)
        if h1 > a + L and B[0]:
            top = vert(D, B, b - (h1 - a - L))
            v += mb[0] - top[0]
            s += mb[1] - top[1]
        if B[0] is None and h1 >= (a + L) * (1 - 1e-15):
            s += PI * D * D / 4
        tot = (ma[0], mb[0], PI / 4 * D * D * L)
        full = (ma[1], mb[1], PI * D * L)
    what = "heads %r/%r %s D=%r L=%r h=%r" % (A, B, "horizontal" if horizontal else "vertical", D, L, h)
    V = g.V_from_h(h, D, L, horizontal, **k)
    expect(V, v, 1e-7, 1e-9 * sum(tot), "V_from_h: " + what)
    S = g.SA_from_h(h, D, L, horizontal, **k)
    if not (B[0] is None and not horizontal and abs(h - a - L) <= 1e-8 * (a + L) and h != a + L):
        expect(S, s, 1e-6, 1e-7 * sum(full), "SA_from_h: " + what)
    VT = g.V_tank(D, L, horizontal, **k)
    for n, got, want in zip(("sideA", "sideB", "body"), VT[1:], tot):
        expect(got, want, 1e-7, 1e-9 * sum(tot), "V_tank %s: %s" % (n, what))
    expect(VT[0], sum(tot), 1e-7, 0, "V_tank total: " + what)
    AT = g.SA_tank(D, L, **k)
    gup = [hd[0] == "guppy" for hd in (A, B)]
    for n, got, want, G in zip(("sideA", "sideB", "body"), AT[1:], full, gup + [False]):
        if G:       # see the known finding about SA_guppy_head
            want = g.SA_guppy_head(D, a if n == "sideA" else b)
        expect(got, want, 1e-6, 1e-7 * sum(full), "SA_tank %s: %s" % (n, what))
    expect(AT[0], sum(AT[1:]), 1e-9, 0, "SA_tank total: " + what)
    h2 = h + 0.004 * hm
    need(g.V_from_h(h2, D, L, horizontal, **k) >= V * (1 - 1e-12), "volume falls as the tank fills: " + what)
    need(g.SA_from_h(h2, D, L, horizontal, **k) >= S * (1 - 1e-7), "wetted area falls as the tank fills: " + what)
    expect(g.V_from_h(hm * 1.5, D, L, horizontal, **k), sum(tot), 1e-7, 0, "an overfull tank is full: " + what)
    return V


SMALL = [(None,), ("conical", 0.3), ("ellipsoidal", 0.25), ("spherical", 0.2), ("guppy", 0.3), ("torispherical", 1.0, 0.06), ("torispherical", 0.9, 0.1), ("ellipsoidal", 0.6), ("conical", 0.1)]


def tcases(T):
    for A in SMALL:
        for B in SMALL:
            for D, L in ((1.0, 3.0), (2.5, 0.8)):
                for x in (0.02, 0.3, 0.5, 0.77, 1.0) + ((0.1, 0.2, 0.4, 0.6, 0.7, 0.9, 0.95, 0.99) if T else ()):
                    yield A, B, True, D, L, x
                for x in (0.02, 0.3, 0.5, 0.77, 1.0, "a", "a-", "a+", "aL", "aL-", "aL+") + ((0.1, 0.2, 0.4, 0.6, 0.7, 0.9, 0.95, 0.99) if T else ()):
                    yield A, B, False, D, L, x


def basics(D, x):
    R = D / 2
    h = x * D
    expect(g.A_partial_circle(D, h), float(seg(np.array(R), h - R)), 1e-9, 1e-12 * D * D, "A_partial_circle")
    expect(g.SA_partial_cylindrical_body(2.2, D, h), 2.2 * float(arc(np.array(R), h - R)), 1e-9, 1e-14, "SA_partial_cylindrical_body")
    expect(g.V_partial_sphere(D, h), PI * h * h * (3 * R - h) / 3, 1e-9, 1e-14, "V_partial_sphere")
    expect(g.SA_partial_sphere(D, h), 2 * PI * R * h, 1e-9, 1e-14, "SA_partial_sphere")
    A = g.A_partial_circle(D, h)
    if x > 1e-4 and x < 0.9999:
        expect(g.circle_segment_h_from_A(A, D), h, 1e-6, 0, "circle_segment_h_from_A")
    return A


def totals(hd, D):
    a = depth(D, hd)
    v, s = horiz(D, hd, D)
    f = {"conical": lambda: g.SA_conical_head(D, a), "ellipsoidal": lambda: g.SA_ellipsoidal_head(D, a), "guppy": lambda: g.SA_guppy_head(D, a),
         "torispherical": lambda: g.SA_torispheroidal(D, hd[1], hd[2])}.get(hd[0])
    if hd[0] == "guppy" and abs(f() / s - 1) > 1e-6:
        got = f()
        known = abs(got / (PI / 4 * D * SQ(a * a + D * D) + PI / 2 * D * a) - 1) < 1e-12
        raise Violation("SA_guppy_head(%r, %r) is %r, but the guppy head whose volume and partial area the module computes (an oblique cone) has area %r" % (D, a, got, s),
                        key="SA_guppy_head is not the area of the guppy head" if known else None)
    if f:
        expect(f(), s, 1e-7, 0, "area of a %r head D=%r" % (hd, D))
    if hd[0] == "torispherical":
        expect(g.a_torispherical(D, hd[1], hd[2]), a, 1e-12, 0, "a_torispherical")
    return s


def spaces(tier):
    T = tier == "thorough"
    return [
        Space("horizontal heads", lambda: hcases(T), lambda c: horizontal(*c)),
        Space("flat heads", lambda: fcases(T), lambda c: flat(*c)),
        Space("vertical heads", lambda: vcases(T), lambda c: vertical(*c)),
        Space("tanks", lambda: tcases(T), lambda c: tank(*c)),
        Space("head totals", lambda: [(hd, D) for hd in HEADS for D in (0.01, 0.4, 1.0, 3.7, 50.0)], lambda c: totals(*c)),
        inv_space("basics", basics, {"D": [0.01, 1.0, 8.0], "x": [0.0, 1e-6, 0.01, 0.2, 0.4999, 0.5, 0.5001, 0.8, 0.9999, 1.0] + [i / 37 for i in range(1, 37)]}),
        conform_space("model", ["geometry"], only={n for n in dir(g) if n.startswith(("V_horiz", "V_vertical", "SA_", "V_from_h", "V_tank", "A_partial", "a_tori", "circle_segment", "V_partial"))}, tier=tier),
    ]
