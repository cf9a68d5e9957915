"""C39: packed beds, packed towers, demisters."""
import itertools
import math

import fluids
import fluids.packed_bed as pb
import fluids.packed_tower as pt

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space

RULE = ("every correlation x particle size x voidage x velocity x fluid x column diameter over lattices that include the voidage and diameter-ratio switch points; every method by name and by default; "
        "packing constants x flow lattices for the Stichlmair relations, with the flooding point recomputed by bisection; non-trivial when a value is returned")
ASSUMPTIONS = ["voidages strictly between 0 and 1, positive velocities and properties", "Stichlmair cases below the flooding point, where the operating equation has a root"]
g = 9.80665


# ---------------------------------------------------------------- packed beds, in the form  dP/L
def _ergunlike(A, B, n):
    """A mu v (1-e)^2/(e^3 d^2) + B Rem^n of the same viscous scale"""
    def f(d, e, v, rho, mu):
        Rem = rho * v * d / mu / (1 - e)
        return (A + B * Rem ** n) * mu * v * (1 - e) ** 2 / e ** 3 / d ** 2
    return f


def _hicks(d, e, v, rho, mu):
    Re = rho * v * d / mu
    return 6.8 * (1 - e) ** 1.2 / e ** 3 * Re ** -.2 * rho * v * v / d


def _fahien(d, e, v, rho, mu):
    Rem = rho * v * d / mu / (1 - e)
    q = math.exp(-e ** 2 * (1 - e) / 12.6 * Rem)
    fp = q * (136 / (1 - e) ** .38) / Rem + (1 - q) * (1.87 * e ** .75 / (1 - e) ** .26 + 29 / ((1 - e) ** 1.45 * e ** 2) / Rem)
    return fp * rho * v * v / d * (1 - e) / e ** 3


def _idel(d, e, v, rho, mu):
    Re = .45 / (1 - e) / math.sqrt(e) * rho * v * d / mu
    return .765 / e ** 4.2 * (30 / Re + 3 / Re ** .7 + .3) * rho * v * v / d


def _harrison(d, e, v, rho, mu, Dt=None):
    A = B = 1.0
    if Dt is not None:
        A = (1 + math.pi * d / (6 * (1 - e) * Dt)) ** 2
        B = 1 - math.pi ** 2 * d / (24 * Dt) * (1 - .5 * d / Dt)
    Re = rho * v * d / mu
    return (119.8 * A * (1 - e) ** 2 / Re + 4.63 * B * (1 - e) ** (2 - 5 / 6.) * Re ** (5 / 6. - 1)) / e ** 3 * rho * v * v / d


def _montillet(d, e, v, rho, mu, Dt=None):
    a = .061 if e < .4 else .05
    w = 2.2 if Dt is None or Dt / d > 50 else (Dt / d) ** .2
    Re = rho * v * d / mu
    return a * w * (1000 / Re + 60 / math.sqrt(Re) + 12) * rho * v * v / d * (1 - e) / e ** 3


def _guo(d, e, v, rho, mu, Dt=None):
    Rem = rho * v * d / mu / (1 - e)
    r = 3.5 if Dt is None else d / Dt
    return (180 + (9.5374 * r - 2.8054) * Rem ** .97) * mu * v * (1 - e) ** 2 / (d ** 2 * e ** 3)


BED = {"Ergun": ("Ergun", _ergunlike(150, 1.75, 1)), "Tallmadge": ("Tallmadge", _ergunlike(150, 4.2, 5 / 6.)), "Kuo & Nydegger": ("Kuo_Nydegger", _ergunlike(276.23, 5.05, .87)),
       "Jones & Krier": ("Jones_Krier", _ergunlike(150, 3.89, .87)), "Carman": ("Carman", _ergunlike(180, 2.871, .9)), "Hicks": ("Hicks", _hicks), "Brauer": ("Brauer", _ergunlike(160, 3.1, .9)),
       "KTA": ("KTA", _ergunlike(160, 3.0, .9)), "Erdim, Akgiray & Demir": ("Erdim_Akgiray_Demir", _ergunlike(160, 2.81, .904)), "Fahien & Schriver": ("Fahien_Schriver", _fahien), "Idelchik": ("Idelchik", _idel),
       "Harrison, Brunner & Hecker": ("Harrison_Brunner_Hecker", _harrison), "Montillet, Akkari & Comiti": ("Montillet_Akkari_Comiti", _montillet), "Guo, Sun, Zhang, Ding & Liu": ("Guo_Sun", _guo)}
WALL = ("Harrison, Brunner & Hecker", "Montillet, Akkari & Comiti", "Guo, Sun, Zhang, Ding & Liu")


def bed(name, d, e, v, fl):
    rho, mu = fl
    fn, ref = BED[name]
    f = getattr(pb, fn)
    what = "%s(dp=%r, voidage=%r, vs=%r, rho=%r, mu=%r" % (fn, d, e, v, rho, mu)
    got = f(dp=d, voidage=e, vs=v, rho=rho, mu=mu)
    want = ref(d, e, v, rho, mu)
    expect(got, want, 1e-10, 0, what + ")")
    for L in (.01, 3.0, 250):
        expect(f(dp=d, voidage=e, vs=v, rho=rho, mu=mu, L=L), got * L, 1e-12, 0, what + ", L=%r): not proportional to length" % L)
        expect(pb.dP_packed_bed(dp=d, voidage=e, vs=v, rho=rho, mu=mu, L=L, Method=name), got * L, 1e-12, 0, "dP_packed_bed by %s" % name)
    for s in (.3, .8, 1.0):
        expect(pb.dP_packed_bed(dp=d, voidage=e, vs=v, rho=rho, mu=mu, sphericity=s, Method=name), ref(d * s, e, v, rho, mu), 1e-10, 0, "dP_packed_bed by %s with sphericity %r" % (name, s))
    if name in WALL:
        for q in (1.01, 2.0, 3.0, 3.4, 10.0, 49.9999, 50.0001, 51.0, 1e3, 1e9):
            Dt = d * q
            a = f(dp=d, voidage=e, vs=v, rho=rho, mu=mu, Dt=Dt)
            expect(a, ref(d, e, v, rho, mu, Dt), 1e-10, 0, what + ", Dt=%r)" % Dt)
            expect(pb.dP_packed_bed(dp=d, voidage=e, vs=v, rho=rho, mu=mu, Dt=Dt, Method=name), a, 1e-12, 0, "dP_packed_bed by %s with Dt" % name)
            expect(f(dp=d, voidage=e, vs=v, rho=rho, mu=mu, Dt=Dt, L=7.0), 7 * a, 1e-12, 0, what + ", Dt=%r, L=7)" % Dt)
            # half-size particles: the wall sees the particle size actually used
            expect(pb.dP_packed_bed(dp=2 * d, voidage=e, vs=v, rho=rho, mu=mu, Dt=Dt, sphericity=.5, Method=name), a, 1e-11, 0, "dP_packed_bed by %s with Dt and sphericity" % name)
        if name != "Guo, Sun, Zhang, Ding & Liu":
            expect(a, got, 1e-7, 0, what + "): the wall effect does not vanish in a very wide column")
    else:
        expect(pb.dP_packed_bed(dp=d, voidage=e, vs=v, rho=rho, mu=mu, Dt=10 * d, Method=name), got, 1e-12, 0, "dP_packed_bed by %s ignores the column" % name)
        need(got > 0, what + ") gave %r" % got)
        # more flow, more drop; a tighter bed, more drop
        need(f(dp=d, voidage=e, vs=v * 1.02, rho=rho, mu=mu) > got, what + "): does not grow with velocity")
        need(f(dp=d, voidage=e * .98, vs=v, rho=rho, mu=mu) > got, what + "): does not grow as the bed tightens")
        need(f(dp=d * .98, voidage=e, vs=v, rho=rho, mu=mu) > got, what + "): does not grow as the particles shrink")
    return got


def bed_default(d, e, v, fl, q):
    rho, mu = fl
    kw = dict(dp=d, voidage=e, vs=v, rho=rho, mu=mu)
    if q is None:
        want = BED["Erdim, Akgiray & Demir"][1](d, e, v, rho, mu)
    else:
        kw["Dt"] = d * q
        want = _harrison(d, e, v, rho, mu, d * q)
    expect(pb.dP_packed_bed(**kw), want, 1e-10, 0, "dP_packed_bed(%r)" % kw)
    expect(pb.dP_packed_bed(L=4.0, **kw), 4 * want, 1e-10, 0, "dP_packed_bed(%r, L=4)" % kw)
    ms = pb.dP_packed_bed_methods(**kw)
    names = set(BED) if q is not None else set(BED) - set(WALL)
    need(set(ms) == names and len(ms) == len(names), "dP_packed_bed_methods(%r) = %r" % (kw, ms))
    expect(pb.dP_packed_bed(Method=ms[0], **kw), want, 1e-12, 0, "the first listed method is the default")
    ok, r = attempt(pb.dP_packed_bed, Method="nonesuch", **kw)
    need(not ok and r == "ValueError", "an unknown method gave %r" % (r,))
    return want


def voidage(dp, q, s):
    Dt = dp * q
    what = "(Dp=%r, Dt=%r, sphericity=%r)" % (dp, Dt, s)
    a = pb.voidage_Benyahia_Oneil(dp, Dt, s)
    expect(a, .1504 + .2024 / s + 1.0814 / (q + .1226) ** 2, 1e-11, 0, "voidage_Benyahia_Oneil" + what)
    b = pb.voidage_Benyahia_Oneil_spherical(dp, Dt)
    expect(b, .39 + 1.74 / (q + 1.14) ** 2, 1e-11, 0, "voidage_Benyahia_Oneil_spherical" + what)
    c = pb.voidage_Benyahia_Oneil_cylindrical(dp, Dt, s)
    expect(c, .373 + 1.703 / (q + .611) ** 2, 1e-11, 0, "voidage_Benyahia_Oneil_cylindrical" + what)
    big = 1e7 * dp
    expect(pb.voidage_Benyahia_Oneil_spherical(dp, big), .39, 1e-9, 0, "voidage of spheres in a very wide column")
    expect(pb.voidage_Benyahia_Oneil_cylindrical(dp, big, s), .373, 1e-9, 0, "voidage of cylinders in a very wide column")
    need(pb.voidage_Benyahia_Oneil_spherical(dp, Dt * 1.01) < b and pb.voidage_Benyahia_Oneil_cylindrical(dp, Dt * 1.01, s) < c and pb.voidage_Benyahia_Oneil(dp, Dt * 1.01, s) < a, "voidage does not fall in a wider column")
    return a, b, c


# ---------------------------------------------------------------- demisters
def demister(S, e, v, fl, L):
    rho, mu = fl
    outs = []
    for f, (a, b, c0, c1, d) in ((pt.dP_demister_dry_Setekleiv_Svendsen, (10.29, 565., 74.9, 160.9, 45.33)), (pt.dP_demister_dry_Setekleiv_Svendsen_lit, (7.3, 320., 52.4, 161., 27.2))):
        x = S * L
        K = a - b / (69.6 * x - x * x - 779) - c0 / (c1 - 4.85 * x) + d * (mu * e * S * S * L / (rho * v)) ** .75
        got = f(S=S, voidage=e, vs=v, rho=rho, mu=mu, L=L)
        expect(got, K * rho * (v / e) ** 2, 1e-10, 1e-12 * rho * v * v, "%s(S=%r, voidage=%r, vs=%r, rho=%r, mu=%r, L=%r)" % (f.__name__, S, e, v, rho, mu, L))
        if L == 1.0:
            expect(f(S, e, v, rho, mu), got, 1e-13, 0, "default thickness")
        outs.append(got)
    return outs


def mesh(v, e, d, drop, L):
    got = pt.dP_demister_wet_ElDessouky(v, e, d, L)
    # published with the packing density in kg/m3 (stainless steel, 7999) and the wire in mm
    expect(got, 3.88178 * ((7999 * (1 - e)) ** .375798) * v ** .81317 * (d * 1e3) ** -1.56114147 * L, 3e-5, 0, "dP_demister_wet_ElDessouky(%r, %r, %r, %r)" % (v, e, d, L))
    eta = pt.separation_demister_ElDessouky(v, e, d, drop)
    want = 17.5047 * (d * 1e3) ** -.28264 * (7999 * (1 - e)) ** .099625 * v ** .106878 * (drop * 1e3) ** .383197 / 100
    expect(eta, min(1.0, want), 1e-4, 0, "separation_demister_ElDessouky(%r, %r, %r, %r)" % (v, e, d, drop))
    need(0 < eta <= 1, "separation efficiency %r" % eta)
    # wires: length per volume from the solid fraction, area from the length
    n = (1 - e) / (math.pi / 4 * d * d)
    expect(pt.specific_area_mesh(e, d), n * math.pi * d, 1e-11, 0, "specific_area_mesh(%r, %r)" % (e, d))
    H, D, rho = L * 1.7, .3 + L, 7999.0
    m = rho * (1 - e) * math.pi / 4 * D * D * H
    expect(pt.voidage_experimental(m=m, rho=rho, D=D, H=H), e, 1e-11, 1e-13, "voidage_experimental")
    return got, eta


# ---------------------------------------------------------------- packed towers
def fC(C, Re):
    return C[0] / Re + C[1] / math.sqrt(Re) + C[2]


def dry(Vg, rhog, mug, e, a, C, H):
    dp = 6 * (1 - e) / a
    return .75 * fC(C, Vg * rhog * dp / mug) * (1 - e) / e ** 4.65 * rhog * H / dp * Vg ** 2


def wet_res(P, Vg, Vl, rhog, rhol, mug, e, a, C):
    """operating equation per unit height: right-hand side minus P (Pa/m); nan past flooding"""
    dp = 6 * (1 - e) / a
    Re = Vg * rhog * dp / mug
    c = (-C[0] / Re - .5 * C[1] / math.sqrt(Re)) / fC(C, Re)
    h = .555 * (Vl * Vl * a / (g * e ** 4.65)) ** (1 / 3.) * (1 + 20 * (P / (rhol * g)) ** 2)
    if h >= e:
        return math.inf
    return dry(Vg, rhog, mug, e, a, C, 1.0) * ((1 - e + h) / (1 - e)) ** ((2 + c) / 3) * (e / (e - h)) ** 4.65 - P


def lowest(Vg, *a):
    """minimum over P of the residual (unimodal), by golden section on a bracket"""
    Vl, rhog, rhol, mug, e, ar, C = a
    h0 = .555 * (Vl * Vl * ar / (g * e ** 4.65)) ** (1 / 3.)
    lo, hi = 0.0, rhol * g * math.sqrt(max(e / h0 - 1, 1e-9) / 20)      # there the liquid fills the voids
    r = (math.sqrt(5) - 1) / 2
    x1, x2 = hi - r * (hi - lo), lo + r * (hi - lo)
    f1, f2 = wet_res(x1, Vg, *a), wet_res(x2, Vg, *a)
    for _ in range(90):
        if f1 < f2 or f1 == f2 == math.inf:
            hi, x2, f2 = x2, x1, f1
            x1 = hi - r * (hi - lo)
            f1 = wet_res(x1, Vg, *a)
        else:
            lo, x1, f1 = x1, x2, f2
            x2 = lo + r * (hi - lo)
            f2 = wet_res(x2, Vg, *a)
    return min(f1, f2), (lo + hi) / 2


def flood(*a):
    lo, hi = 1e-4, 100.0
    for _ in range(60):
        mid = math.sqrt(lo * hi)
        if lowest(mid, *a)[0] > 0:
            hi = mid
        else:
            lo = mid
        if hi / lo < 1 + 1e-10:
            break
    return math.sqrt(lo * hi)


PACK = [  # voidage, specific area, C1, C2, C3 (Stichlmair's table, random and structured)
    (.68, 260., 32., 7., 1.), (.94, 124., 40., 1., 2.5), (.91, 111., 85., 1.5, 2.), (.77, 240., 48., 8., 2.), (.96, 200., 2., 3., .9), (.85, 450., 1., 4., .25)]
FL = [(5., 1200., 5e-5), (1.2, 998., 1.8e-5), (30., 600., 1.2e-5)]


def stichlmair(p, fl, Vl, H):
    e, a = p[:2]
    C = p[2:]
    rhog, rhol, mug = fl
    kw = dict(rhog=rhog, mug=mug, voidage=e, specific_area=a, C1=C[0], C2=C[1], C3=C[2])
    args = (Vl, rhog, rhol, mug, e, a, C)
    Vf = flood(*args)
    what = "Vl=%r, rhol=%r, %r, H=%r" % (Vl, rhol, kw, H)
    n = []
    for x in (1e-3, .05, .3, .5, .7, .85, .93, .98):
        Vg = Vf * x
        want = dry(Vg, rhog, mug, e, a, C, 1.0)
        d = pt.Stichlmair_dry(Vg=Vg, H=H, **kw)
        expect(d, want * H, 1e-10, 0, "Stichlmair_dry(Vg=%r, %s)" % (Vg, what))
        if H == 1.0:
            expect(pt.Stichlmair_dry(Vg=Vg, **kw), want, 1e-10, 0, "Stichlmair_dry default height")
        ok, w = attempt(pt.Stichlmair_wet, Vg=Vg, Vl=Vl, rhol=rhol, H=H, **kw)
        need(ok, "Stichlmair_wet(Vg=%r, %s) at %r of flooding raised %s" % (Vg, what, x, w))
        P = w / H
        res = wet_res(P, Vg, *args)
        need(abs(res) <= 1e-6 * P, "Stichlmair_wet(Vg=%r, %s) = %r does not solve its equation (residual %r)" % (Vg, what, w, res))
        need(w >= d * (1 - 1e-9), "wet bed drop %r below the dry one %r" % (w, d))
        # the operating root, not the unstable one past the turning point
        turn = lowest(Vg, *args)[1]
        need(P <= turn * (1 + 1e-6), "Stichlmair_wet(Vg=%r, %s) = %r is the unstable root (turning point %r)" % (Vg, what, w, turn * H))
        if x <= .85:
            expect(pt.Stichlmair_wet(Vg=Vg, Vl=Vl * 1e-9, rhol=rhol, H=H, **kw), d, 1e-3, 0, "Stichlmair_wet without liquid is the dry bed")
        n.append(w)
    need(all(p < q for p, q in zip(n, n[1:])), "Stichlmair_wet does not grow with the gas velocity: %r" % n)
    ok, got = attempt(pt.Stichlmair_flood, Vl=Vl, rhol=rhol, H=H, **kw)
    need(ok, "Stichlmair_flood(%s) raised %s (flooding at %r)" % (what, got, Vf))
    expect(got, Vf, 1e-5, 0, "Stichlmair_flood(%s)" % what)
    return n + [got]


def robbins(L, G, rhol, rhog, mul, H, F):
    got = pt.Robbins(L=L, G=G, rhol=rhol, rhog=rhog, mul=mul, H=H, Fpd=F)
    lb, ft = .45359237, .3048
    l, gg = L / lb * ft * ft * 3600, G / lb * ft * ft * 3600
    rl, rg = rhol / lb * ft ** 3, rhog / lb * ft ** 3
    Lf = l * 62.4 / rl * math.sqrt(F / 20) * (mul * 1e3) ** .1
    Gf = gg * math.sqrt(.075 / rg) * math.sqrt(F / 20)
    A = 7.4e-8 * Gf ** 2 * 10 ** (2.7e-5 * Lf)
    P = A + .4 * (Lf / 20000) ** .1 * A ** 4
    expect(got, P * 249.08891 / ft * H, 2e-5, 0, "Robbins(L=%r, G=%r, rhol=%r, rhog=%r, mul=%r, H=%r, Fpd=%r)" % (L, G, rhol, rhog, mul, H, F))
    if F == 24.0:
        expect(pt.Robbins(L=L, G=G, rhol=rhol, rhog=rhog, mul=mul, H=H), got, 1e-13, 0, "default packing factor")
    need(pt.Robbins(L=L, G=G * 1.01, rhol=rhol, rhog=rhog, mul=mul, H=H, Fpd=F) > got, "Robbins does not grow with gas flow")
    need(pt.Robbins(L=L * 1.01, G=G, rhol=rhol, rhog=rhog, mul=mul, H=H, Fpd=F) > got, "Robbins does not grow with liquid flow")
    return got


def spaces(tier):
    T = tier == "thorough"
    ds = [1e-4, 8e-4, 5e-3, .02] if not T else [1e-5, 1e-4, 8e-4, 3e-3, .01, .05]
    es = [.2, .35, .399999, .4, .400001, .5, .7, .95] if not T else [.05, .2, .3, .35, .399999, .4, .400001, .45, .5, .6, .7, .85, .95, .99]
    vs = [1e-5, 1e-3, .1, 3.0] if not T else [1e-7, 1e-5, 1e-3, .01, .1, .7, 3.0, 30.0]
    fls = [(1000., 1e-3), (1.2, 1.8e-5), (850., .2)] + ([(50., 1.5e-5)] if T else [])
    M = ("packed_bed", "packed_tower")
    return [
        Space("beds", lambda: [(n, d, e, v, f) for n in BED for d in ds for e in es for v in vs for f in fls], lambda c: bed(*c)),
        Space("bed dispatcher", lambda: [(d, e, v, f, q) for d in ds for e in es for v in vs for f in fls for q in (None, 2.0, 30.0)], lambda c: bed_default(*c)),
        Space("voidage", lambda: [(d, q, s) for d in ds for q in (1.0, 1.5, 2.0, 5.0, 20.0, 1e3) for s in (.4, .6, .8, .9, 1.0)], lambda c: voidage(*c)),
        Space("dry demister", lambda: [(S, e, v, f, L) for S in (150., 250., 450., 600.) for e in (.9, .97, .99) for v in (.1, 1.0, 6.0) for f in fls for L in (.005, .02, .05, .1, .3, 1.0)], lambda c: demister(*c)),
        Space("mesh", lambda: [(v, e, d, q, L) for v in (.5, 2.0, 8.0) for e in (.9, .975, .99) for d in (1e-4, 2e-4, 3e-4) for q in (1e-5, 1e-3, 5e-3, .02) for L in (.1, 1.0)], lambda c: mesh(*c)),
        Space("Stichlmair", lambda: [(p, f, l, H) for p in PACK for f in FL for l in ((1e-4, 1e-3, 5e-3, .01, .02) if not T else (1e-5, 1e-4, 5e-4, 1e-3, 2e-3, 5e-3, .01, .02, .04)) for H in ((1.0, 2.5) if not T else (.2, 1.0, 2.5, 20.0))],
              lambda c: stichlmair(*c)),
        Space("Robbins", lambda: list(itertools.product((.5, 4.0, 12.2, 30.0), (.2, 1.0, 2.03), (600., 1000., 1200.), (1.2, 1.1853, 10.), (1e-4, 1e-3, .01), (1.0, 2.0), (15., 24.0, 60., 200.))), lambda c: robbins(*c)),
        conform_space("conformance", modules=M, tier=tier),
    ]
