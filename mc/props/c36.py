"""C36: two-phase pressure drop and flow regimes."""
import itertools
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
import fluids.two_phase as t
import rfluids.two_phase as rt
from fluids.constants import g
from fluids.friction import friction_factor

RULE = ("every correlation and flow-regime map over a lattice of quality, flow, diameter, roughness and fluid pairs with both sides of every regime limit, every subset of "
        "optional inputs, and every listed function over its declared calls moved through factors and thresholds; non-trivial when a value is returned")
ASSUMPTIONS = ["end-of-quality limits are demanded only of the models whose published form has them",
               "growth with flow is demanded away from laminar-turbulent and regime switches"]

FL = [(915.0, 2.67, 180e-6, 14e-6, 0.0487, 5e5, 22e6),      # water, steam
      (998.0, 1.2, 1.0e-3, 1.8e-5, 0.0724, 1.01e5, 22e6),   # water, air
      (1200.0, 30.0, 2.5e-4, 1.2e-5, 0.009, 7e5, 4.06e6),   # refrigerant
      (850.0, 80.0, 0.02, 1.5e-5, 0.025, 7e6, 2e7)]         # oil, gas
ALL = list(rt.two_phase_correlations)
TO_LO = ["Zhang_Webb", "Lockhart_Martinelli", "Bankoff", "Baroczy_Chisholm", "Chisholm", "Gronnerud", "Muller_Steinhagen_Heck", "Theissing", "Friedel", "Hwang_Kim", "Mishima_Hibiki",
         "Tran", "Zhang_Hibiki_Mishima", "Zhang_Hibiki_Mishima adiabatic gas", "Zhang_Hibiki_Mishima flow boiling", "Chisholm rough"]
TO_GO = {"Baroczy_Chisholm": 1, "Chisholm": 1, "Muller_Steinhagen_Heck": 1, "Theissing": 1, "Friedel": 1, "Hwang_Kim": 1, "Mishima_Hibiki": 1, "Tran": 4.3, "Xu_Fang": 1,
         "Zhang_Hibiki_Mishima": 1, "Zhang_Hibiki_Mishima adiabatic gas": 1, "Zhang_Hibiki_Mishima flow boiling": 1, "Chisholm rough": 1}
NEED = {"Zhang_Webb": ("mul", "P", "Pc"), "Lombardi_Pedrocchi": ("rhog", "sigma"), "Beggs-Brill": ("rhog", "mul", "mug", "sigma", "P", "angle")}
for k in ("Lockhart_Martinelli", "Bankoff", "Baroczy_Chisholm", "Chisholm", "Chisholm rough", "Gronnerud", "Jung_Radermacher", "Muller_Steinhagen_Heck", "Theissing", "Wang_Chiang_Lu", "Yu_France"):
    NEED[k] = ("rhog", "mul", "mug")
for k in ALL:
    NEED.setdefault(k, ("rhog", "mul", "mug", "sigma"))


def kw(fl, D, rough=0.0, L=1.0, angle=0.0):
    rhol, rhog, mul, mug, sigma, P, Pc = FL[fl]
    return dict(rhol=rhol, rhog=rhog, mul=mul, mug=mug, sigma=sigma, P=P, Pc=Pc, D=D, roughness=rough, L=L, angle=angle)


def single(m, D, rho, mu, rough, L=1.0):
    v = m / (rho * math.pi / 4 * D * D)
    return friction_factor(Re=rho * v * D / mu, eD=rough / D) * L / D * 0.5 * rho * v * v


def main(m, x, fl, D, rough, k):
    a = kw(fl, D, rough)
    what = "two_phase_dP(m=%r, x=%r, %r, Method=%r)" % (m, x, a, k)
    ok, want = attempt(rt.two_phase_dP, m=m, x=x, Method=k, **a)
    ok2, got = attempt(t.two_phase_dP, m=m, x=x, Method=k, **a)
    need(ok == ok2, what + ": %r, model %r" % (got, want))
    if not ok or isinstance(want, complex):
        return TRIVIAL
    expect(got, want, 1e-9, 0, what)
    # linear in the length of pipe
    for L in (2.0, 0.37, 1e-3):
        expect(t.two_phase_dP(m=m, x=x, Method=k, **dict(a, L=L)), got * L, 1e-8, 0, what + " over a length of %r" % L)
    # grows with flow
    if 0.05 <= x <= 0.95 and got > 0 and k != "Wang_Chiang_Lu":
        ok, up = attempt(t.two_phase_dP, m=m * 4, x=x, Method=k, **a)
        if ok:
            need(up > got, what + ": falls from %r to %r as the flow is quadrupled" % (got, up))
    return got


def ends(m, fl, D, rough, k):
    a = kw(fl, D, rough)
    lo = single(m, D, a["rhol"], a["mul"], rough)
    go = single(m, D, a["rhog"], a["mug"], rough)
    n = 0
    if k in TO_LO:
        tol = 0.12 if k in ("Lockhart_Martinelli", "Hwang_Kim", "Mishima_Hibiki", "Theissing") or k.startswith("Zhang_H") else 1e-3
        if k == "Lockhart_Martinelli":          # it has its own friction factors (smooth pipe)
            v = m / (a["rhol"] * math.pi / 4 * D * D)
            Re = a["rhol"] * v * D / a["mul"]
            lo = (64 / Re if Re < 2000 else 0.184 * Re ** -0.2) / D * 0.5 * a["rhol"] * v * v
        got = t.two_phase_dP(m=m, x=1e-12 if k != "Hwang_Kim" else 1e-14, Method=k, **a)
        expect(got, lo, tol, 0, "%s(m=%r, %r): nearly all liquid" % (k, m, a))
        n = got
    if k in TO_GO:
        got = t.two_phase_dP(m=m, x=1 - 1e-14 if k != "Friedel" else 1.0, Method=k, **a)
        expect(got, go * TO_GO[k], 2e-2 if k == "Hwang_Kim" else 5e-3, 0, "%s(m=%r, %r): nearly all vapor" % (k, m, a))
        n = got
    return n or TRIVIAL


def exact_ends(m, fl, D):
    a = kw(fl, D)
    A = {k: v for k, v in a.items() if k not in ("P", "Pc", "angle", "sigma")}
    lo, go = single(m, D, a["rhol"], a["mul"], 0), single(m, D, a["rhog"], a["mug"], 0)
    expect(t.Theissing(m=m, x=0, **A), lo, 1e-12, 0, "Theissing at x=0")
    expect(t.Theissing(m=m, x=1, **A), go, 1e-12, 0, "Theissing at x=1")
    expect(t.Muller_Steinhagen_Heck(m=m, x=0, **A), lo, 1e-12, 0, "MSH at x=0")
    expect(t.Muller_Steinhagen_Heck(m=m, x=1, **A), go, 1e-12, 0, "MSH at x=1")
    A.pop("roughness")
    for x, rho, mu in ((1.0, a["rhog"], a["mug"]),):
        v = m / (rho * math.pi / 4 * D * D)
        Re = rho * v * D / mu
        f = 64 / Re if Re < 2000 else 0.184 * Re ** -0.2
        expect(t.Lockhart_Martinelli(m=m, x=x, **A), f / D * 0.5 * rho * v * v, 1e-12, 0, "Lockhart_Martinelli at x=1")
    return lo, go


def subsets(opts):
    a = kw(0, 0.05)
    base = dict(m=0.6, x=0.1, rhol=a["rhol"], D=0.05, L=2.0, roughness=1e-5)
    given = {k: a[k] for k in opts}
    given.setdefault("angle", None)          # the pipe's angle has a default (horizontal)
    what = "two_phase_dP with %s" % ", ".join(opts)
    want = sorted(k for k in ALL if set(NEED[k]) <= set(opts))
    got = t.two_phase_dP_methods(**base, **given)
    need(sorted(got) == want, "two_phase_dP_methods with %s: %r, expected %r" % (", ".join(opts) or "nothing optional", sorted(got), want))
    vals = {}
    for k in ALL:
        ok, r = attempt(t.two_phase_dP, Method=k, **base, **given)
        need(ok == (k in want), "%s, Method=%r: %r" % (what, k, r))
        if ok:
            need(r == r and r > 0, "%s, Method=%r = %r" % (what, k, r))
            vals[k] = r
        else:
            need(r == "TypeError", "%s, Method=%r: %s" % (what, k, r))
    ok, r = attempt(t.two_phase_dP, **base, **given)
    o = set(opts)
    d = "Kim_Mudawar" if {"rhog", "mul", "mug", "sigma"} <= o else "Chisholm" if {"rhog", "mul", "mug"} <= o else "Zhang_Webb" if {"mul", "P", "Pc"} <= o else "Lombardi_Pedrocchi" if {"rhog", "sigma"} <= o else None
    if d is None:
        need(not ok and r == "ValueError", what + ": %r" % (r,))
    else:
        need(ok and r == vals[d], what + ": default is %r, %s gives %r" % (r, d, vals[d]))
    ok, r = attempt(t.two_phase_dP, Method="nothing", **base, **given)
    need(not ok and r == "ValueError", "unknown method: %r" % (r,))
    return len(want)


def direct(m, x, fl, D):
    """The named functions and the dispatcher agree."""
    a = kw(fl, D, 2e-5, 3.0)
    n = 0
    for k in ALL:
        name = k.split(" ")[0].replace("-", "_")
        f = getattr(t, name)
        args = {p: a[p] for p in f.__code__.co_varnames[:f.__code__.co_argcount] if p in a}
        extra = {}
        if k == "Chisholm rough":
            extra["rough_correction"] = True
        if k.startswith("Zhang_Hibiki_Mishima "):
            extra["flowtype"] = k[len("Zhang_Hibiki_Mishima "):]
        if k == "Beggs-Brill":
            extra["acceleration"] = False
        ok, r = attempt(f, m=m, x=x, **args, **extra)
        ok2, r2 = attempt(t.two_phase_dP, m=m, x=x, Method=k, **a)
        need(ok == ok2 and r == r2, "%s gives %r, two_phase_dP %r" % (k, r, r2))
        n += ok
    return n


def bb(m, x, fl, D, angle):
    """Beggs-Brill: gravity part, continuity through the transition band, acceleration term."""
    rhol, rhog, mul, mug, sigma, P, Pc = FL[fl]
    f = lambda **k: t.Beggs_Brill(**dict(dict(m=m, x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, sigma=sigma, P=P, D=D, angle=angle, roughness=2e-5, L=7.0, acceleration=False), **k))
    ok, a = attempt(f)
    if not ok:
        return TRIVIAL
    h = f(g=1e-300) if False else None
    # the friction part does not depend on gravity's sign through the pipe: at 0 degrees there is no gravity part
    if angle == 0:
        need(a > 0, "horizontal drop %r" % a)
        expect(f(angle=None), a, 1e-12, 0, "angle=None is horizontal")
    A = math.pi / 4 * D * D
    vsg, vsl = m * x / rhog / A, m * (1 - x) / rhol / A
    w = f(acceleration=True)
    Ek = 1 - a / w
    rhos = Ek * P / (vsg * (vsg + vsl))
    if Ek < 0.9 and Ek > 1e-6:
        lam = vsl / (vsl + vsg)
        need(angle < 0 or rhog * (1 - 1e-6) - 1e-9 <= rhos, "Beggs_Brill acceleration term implies a slip density of %r below the gas" % rhos)
        if angle == 0:
            need(rhos >= (rhol * lam + rhog * (1 - lam)) * 0.9999999, "slip density %r below no-slip" % rhos)
        # elevation part = g sin(angle) rhos L
        ele = g * math.sin(math.radians(angle)) * rhos * 7.0
        need(a - ele > 0, "Beggs_Brill(m=%r, x=%r, fluid %d, D=%r, angle=%r): friction part %r" % (m, x, fl, D, angle, a - ele))
    # P=None means one atmosphere
    expect(f(P=None, acceleration=True), f(P=101325.0, acceleration=True), 1e-12, 0, "P=None")
    return a


BB_L = [lambda l: 316 * l ** 0.302, lambda l: 9.252e-4 * l ** -2.4684, lambda l: 0.1 * l ** -1.4516, lambda l: 0.5 * l ** -6.738]


def bbedge(lam, i, s, angle):
    """Regime assignment on both sides of every Beggs-Brill boundary, against a transcription."""
    rhol, rhog, mul, mug, sigma, P, Pc = FL[1]
    D = 0.1
    Fr = BB_L[i](lam) * (1 + s)
    Vm = math.sqrt(Fr * g * D)
    if Vm > 1e4 or Vm < 1e-4:
        return TRIVIAL
    A = math.pi / 4 * D * D
    vsl, vsg = Vm * lam, Vm * (1 - lam)
    ml, mg = vsl * A * rhol, vsg * A * rhog
    m, x = ml + mg, mg / (ml + mg)
    k = dict(m=m, x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, sigma=sigma, P=P, D=D, angle=angle, roughness=1e-5, L=3.0)
    ok, got = attempt(t.Beggs_Brill, **k)
    want = bbref(**k)
    if abs(s) < 1e-6 or want is None:
        return TRIVIAL
    need(ok, "Beggs_Brill(%r): %r" % (k, got))
    expect(got, want, 1e-6, 0, "Beggs_Brill(%r)" % k)
    return got


def bbref(m, x, rhol, rhog, mul, mug, sigma, P, D, angle, roughness, L):
    A = math.pi / 4 * D * D
    vg, vl = m * x / rhog / A, m * (1 - x) / rhol / A
    vm = vg + vl
    lam = vl / vm
    Fr = vm * vm / g / D
    L1, L2, L3, L4 = [f(lam) for f in BB_L]
    if lam < 0.01 and Fr < L1 or lam >= 0.01 and Fr < L2:
        reg = "seg"
    elif lam >= 0.01 and L2 <= Fr <= L3:
        reg = "tra"
    elif 0.01 <= lam < 0.4 and L3 < Fr <= L1 or lam >= 0.4 and L3 < Fr <= L4:
        reg = "int"
    elif lam < 0.4 and Fr >= L1 or lam >= 0.4 and Fr > L4:
        reg = "dis"
    else:
        return None
    th = math.radians(angle)
    NL = vl * (rhol / (g * sigma)) ** 0.25

    def hold(r):
        a, b, c = {"seg": (.98, .4846, .0868), "int": (.845, .5351, .0173), "dis": (1.065, .5824, .0609)}[r]
        h = max(a * lam ** b / Fr ** c, lam)
        if th == 0:
            return h
        if th > 0:
            if r == "dis":
                return h
            d, e, f, gg = {"seg": (.011, -3.768, 3.539, -1.614), "int": (2.96, .305, -.4473, .0978)}[r]
        else:
            d, e, f, gg = 4.7, -.3692, .1244, -.5056
        C = max(0.0, (1 - lam) * math.log(d * lam ** e * NL ** f * Fr ** gg))
        s = math.sin(1.8 * th)
        return h * (1 + C * (s - s ** 3 / 3))
    if reg == "tra":
        w = (L3 - Fr) / (L3 - L2)
        H = w * hold("seg") + (1 - w) * hold("int")
    else:
        H = hold(reg)
    rs = rhol * H + rhog * (1 - H)
    rn = rhol * lam + rhog * (1 - lam)
    mn = mul * lam + mug * (1 - lam)
    fn = friction_factor(Re=rn * vm * D / mn, eD=roughness / D)
    y = lam / H ** 2
    if 1 < y < 1.2:
        S = math.log(2.2 * y - 1.2)
    else:
        ly = math.log(y)
        S = ly / (-0.0523 + 3.182 * ly - 0.8725 * ly ** 2 + 0.01853 * ly ** 4)
    S = min(S, 7.0)
    return (g * math.sin(th) * rs * L + fn * math.exp(S) * L / D * rn * vm * vm / 2) / (1 - rs * vm * vg / P)


def acc(m, D, s1, s2, s3):
    """Momentum change between states (quality, void fraction, densities) adds along the pipe and reverses."""
    f = lambda a, b: t.two_phase_dP_acceleration(m=m, D=D, xi=a[0], xo=b[0], alpha_i=a[1], alpha_o=b[1], rho_li=a[2], rho_gi=a[3], rho_lo=b[2], rho_go=b[3])
    G = m / (math.pi / 4 * D * D)
    mom = lambda a: G * G * ((1 - a[0]) ** 2 / (a[2] * (1 - a[1])) + a[0] ** 2 / (a[3] * a[1]))
    sc = max(map(mom, (s1, s2, s3)))
    expect(f(s1, s2), mom(s2) - mom(s1), 1e-10, 1e-13 * sc, "two_phase_dP_acceleration %r -> %r" % (s1, s2))
    expect(f(s1, s2) + f(s2, s3), f(s1, s3), 1e-9, 1e-12 * sc, "acceleration drop adds")
    d = t.two_phase_dP_acceleration(m=m, D=D, xi=s1[0], xo=s2[0], alpha_i=s1[1], alpha_o=s2[1], rho_li=s1[2], rho_gi=s1[3])
    expect(d, f(s1, (s2[0], s2[1], s1[2], s1[3])), 1e-12, 1e-13 * sc, "outlet densities default to the inlet's")
    # one density at a time
    d = t.two_phase_dP_acceleration(m=m, D=D, xi=s1[0], xo=s2[0], alpha_i=s1[1], alpha_o=s2[1], rho_li=s1[2], rho_gi=s1[3], rho_lo=s2[2])
    expect(d, f(s1, (s2[0], s2[1], s2[2], s1[3])), 1e-12, 1e-13 * sc, "outlet gas density defaults to the inlet's")
    d = t.two_phase_dP_acceleration(m=m, D=D, xi=s1[0], xo=s2[0], alpha_i=s1[1], alpha_o=s2[1], rho_li=s1[2], rho_gi=s1[3], rho_go=s2[3])
    expect(d, f(s1, (s2[0], s2[1], s1[2], s2[3])), 1e-12, 1e-13 * sc, "outlet liquid density defaults to the inlet's")
    return d


def accdz(m, D, x, fl, dvl, dvg, dx, dP, dA):
    rhol, rhog = FL[fl][:2]
    A = math.pi / 4 * D * D
    G = m / A
    vh = x / rhog + (1 - x) / rhol
    want = -G * G * (dP * (x * dvg + (1 - x) * dvl + (1 / rhog - 1 / rhol) * dx) - vh / A * dA)
    got = t.two_phase_dP_dz_acceleration(m=m, D=D, x=x, rhol=rhol, rhog=rhog, dv_dP_l=dvl, dv_dP_g=dvg, dx_dP=dx, dP_dL=dP, dA_dL=dA)
    expect(got, want, 1e-10, 1e-12 * abs(want) + 1e-300 + 1e-12 * G * G * vh / A * abs(dA), "two_phase_dP_dz_acceleration")
    return got


def grav(angle, z, ai, ao, rl, rg, rlo, rgo, gg):
    f = t.two_phase_dP_gravitational
    k = dict(angle=angle, z=z, alpha_i=ai, rho_li=rl, rho_gi=rg, alpha_o=ao, rho_lo=rlo, rho_go=rgo)
    if gg:
        k["g"] = gg
    G = gg or g
    di = ai * rg + (1 - ai) * rl
    a2 = ai if ao is None else ao
    do = a2 * (rg if rgo is None else rgo) + (1 - a2) * (rl if rlo is None else rlo)
    want = G * z * math.sin(math.radians(angle)) * (di + do) / 2
    sc = 1e-12 * G * abs(z) * (di + do)
    got = f(**k)
    expect(got, want, 1e-11, sc, "two_phase_dP_gravitational(%r)" % k)
    expect(f(**dict(k, angle=-angle)), -want, 1e-11, sc, "down against up")
    loc = t.two_phase_dP_dz_gravitational(angle=angle, alpha=ai, rhol=rl, rhog=rg, **({"g": gg} if gg else {}))
    expect(loc, G * math.sin(math.radians(angle)) * di, 1e-11, sc, "two_phase_dP_dz_gravitational")
    if ao is None and rlo is None and rgo is None:
        expect(got, loc * z, 1e-11, sc, "gradient times height")
    return got


def mandhane(vsl, vsg, fl, D):
    """vsl, vsg in ft/s: the Mandhane-Gregory-Aziz program."""
    rhol, rhog, mul, mug, sigma = FL[fl][:5]
    A = math.pi / 4 * D * D
    ml, mg = vsl * .3048 * A * rhol, vsg * .3048 * A * rhog
    m, x = ml + mg, mg / (ml + mg)
    got = t.Mandhane_Gregory_Aziz_regime(m=m, x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, sigma=sigma, D=D)
    expect(got[1], vsl, 1e-9, 0, "liquid velocity")
    expect(got[2], vsg, 1e-9, 0, "gas velocity")
    X = (rhog / 0.0808 / 16.018463) ** 0.333 * (rhol / 16.018463 * 72.4 / 62.4 / (sigma * 1e3)) ** .25 * (mug * 1e3 / 0.018) ** .2
    Y = (rhol / 16.018463 * 72.4 / 62.4 / (sigma * 1e3)) ** .25 * (mul * 1e3) ** .2

    def reg(e1, e2):
        l, gv = vsl * (1 + e1), vsg * (1 + e2)
        if l < 14 * Y:
            y1 = (14 * (l / .1) ** -.368 if l <= .1 else 14 * (l / .1) ** -.415 if l <= .2 else 10.5 * (l / .2) ** -.816 if l <= 1.15 else 2.5 if l <= 4.8 else 2.5 * (l / 4.8) ** .248) * X
            y4 = (70 * (l / .01) ** -.0675 if l <= .1 else 60 * (l / .1) ** -.415 if l <= .3 else 38 * (l / .3) ** .0813 if l <= .56 else 40 * (l / .56) ** .385 if l <= 1 else 50 * l ** .756 if l <= 2.5 else 100 * (l / 2.5) ** .463) * X
            if gv <= y1:
                return "elongated bubble" if l >= .5 / Y else "stratified"
            if gv <= y4:
                return "slug" if l > .3 * Y else "wave"
            return "annular mist"
        return "dispersed bubble" if gv <= 230 * (l / 14) ** .206 * X else "annular mist"
    ok = {reg(a, b) for a in (-1e-4, 0, 1e-4) for b in (-1e-4, 0, 1e-4)}      # unit conversions in the source carry five digits
    need(got[0] in ok, "Mandhane_Gregory_Aziz_regime at vsl=%r ft/s, vsg=%r ft/s, fluid %d: %r, program %r" % (vsl, vsg, fl, got[0], sorted(ok)))
    need(got[0] in t.Mandhane_Gregory_Aziz_regimes, "regime not in the table")
    return got[0]


def taitel(m, x, fl, D, angle, rough):
    rhol, rhog, mul, mug, sigma = FL[fl][:5]
    r, X, T, F, K = t.Taitel_Dukler_regime(m=m, x=x, rhol=rhol, rhog=rhog, mul=mul, mug=mug, D=D, angle=angle, roughness=rough)
    A = math.pi / 4 * D * D
    vl, vg = m * (1 - x) / rhol / A, m * x / rhog / A
    dl, dg = single(m * (1 - x), D, rhol, mul, rough), single(m * x, D, rhog, mug, rough)
    c = g * math.cos(math.radians(angle)) * (rhol - rhog)
    expect(X, math.sqrt(dl / dg), 1e-9, 0, "X")
    expect(T, math.sqrt(dl / c), 1e-9, 0, "T")
    expect(F, math.sqrt(rhog / (c * D)) * vg, 1e-9, 0, "F")
    expect(K, F * math.sqrt(D * rhol * vl / mul), 1e-9, 0, "K = F Re_ls^0.5")
    FA, TD, KC = rt.XA_interp_obj(X), rt.XD_interp_obj(X), rt.XC_interp_obj(X)
    if any(abs(a / b - 1) < 1e-6 for a, b in ((F, FA), (T, TD), (K, KC))) or abs(X - 1.7917) < 1e-6:
        return TRIVIAL
    want = ("annular" if X <= 1.7917 else "bubbly" if T >= TD else "intermittent") if F >= FA else "stratified wavy" if K >= KC else "stratified smooth"
    need(r == want, "Taitel_Dukler_regime(m=%r, x=%r, fluid %d, D=%r, angle=%r): %r, expected %r (X=%.4g T=%.4g F=%.4g K=%.4g)" % (m, x, fl, D, angle, r, want, X, T, F, K))
    return r


def kimf(Re):
    want = 64 / Re if Re < 2000 else 0.316 * Re ** -0.25 if Re < 20000 else 0.184 * Re ** -0.2
    expect(t.friction_factor_Kim_Mudawar(Re), want, 1e-12, 0, "friction_factor_Kim_Mudawar(%r)" % Re)
    return want


def spaces(tier):
    q = tier == "quick"
    xs = (1e-6, 1e-3, 0.01, 0.05, 0.2, 0.5, 0.8, 0.95, 0.99, 1 - 1e-6) if q else (1e-9, 1e-6, 1e-4, 1e-3, 3e-3, .01, .03, .05, .1, .2, .3, .4, .5, .6, .7, .8, .9, .95, .99, .999, 1 - 1e-6, 1 - 1e-9)
    ms = (1e-4, 3e-3, 0.05, 0.6, 8.0) if q else (1e-5, 1e-4, 1e-3, 3e-3, 1e-2, .03, .05, .1, .3, .6, 1.5, 4, 8., 25.)
    Ds = (1e-3, 0.01, 0.05, 0.3)
    fls = range(len(FL))
    opts = ("rhog", "mul", "mug", "sigma", "P", "Pc", "angle")
    st = [(0.1, 0.5, 900.0, 2.0), (0.5, 0.93, 880.0, 2.4), (0.9, 0.99, 800.0, 10.0), (0.02, 0.2, 1000.0, 1.1)]
    lg = lambda a, b, n: [a * (b / a) ** (i / (n - 1.0)) for i in range(n)]
    edges = [0.1, 0.2, 1.15, 4.8, 0.3, 0.56, 1.0, 2.5, 14.0, 0.5]
    vsl = sorted(lg(1e-3, 60, 25 if q else 70) + [e * (1 + s) for e in edges for s in (-1e-3, 1e-3)])
    return [
        Space("correlations", lambda: [(m, x, f, D, r, k) for k in ALL for m in ms for x in xs for f in fls for D in Ds for r in ((0.0,) if q else (0.0, 5e-5))], lambda c: main(*c)),
        Space("single-phase ends", lambda: [(m, f, D, r, k) for k in sorted(set(TO_LO) | set(TO_GO)) for m in ms for f in fls for D in Ds for r in (0.0, 5e-5)], lambda c: ends(*c)),
        Space("exact ends", lambda: [(m, f, D) for m in ms for f in fls for D in Ds], lambda c: exact_ends(*c)),
        Space("inputs to methods", lambda: [tuple(c) for n in range(8) for c in itertools.combinations(opts, n)], subsets),
        Space("named functions", lambda: [(m, x, f, D) for m in ms for x in xs for f in fls for D in Ds], lambda c: direct(*c)),
        Space("Beggs-Brill", lambda: [(m, x, f, D, a) for m in ms for x in xs for f in fls for D in (0.05, 0.3) for a in (0, 5, 30, 50, 90, -5, -30, -50, -90)], lambda c: bb(*c)),
        Space("Beggs-Brill regimes", lambda: [(l, i, s, a) for l in [1e-3, 5e-3, 9.999e-3, 0.01, 0.010001, .02, .05, .1, .2, .3, .3999, .4, .4001, .5, .7, .9, .99] for i in range(4)
                                              for s in (-.5, -.1, -1e-3, -1e-5, 1e-5, 1e-3, .1, .5) for a in (0, 10, 90, -10, -90)], lambda c: bbedge(*c)),
        Space("acceleration", lambda: [(m, D, a, b, c) for m in (0.1, 3.0) for D in (0.02, 0.3) for a in st for b in st for c in st], lambda c: acc(*c)),
        Space("acceleration gradient", lambda: [(m, D, x, f, a, b, c, d, e) for m in (0.1, 3.0) for D in (0.02,) for x in (0.0, .1, .9, 1.0) for f in (0, 2) for a in (0., -5e-12) for b in (0., -4e-7) for c in (0., -2e-7, 1e-7) for d in (-5e5, 12.) for e in (0., 1e-4, -1e-2)], lambda c: accdz(*c)),
        Space("gravity", lambda: [(a, z, ai, ao, rl, rg, rlo, rgo, G) for a in (0, 15, 45, 90, 120, -30) for z in (0.0, 2.0, 150.) for ai in (0., .3, 1.) for ao in (None, 0., .7) for rl, rg in ((1000., 1.2), (700., 90.)) for rlo in (None, 650.) for rgo in (None, 40.) for G in (None, 3.7)], lambda c: grav(*c)),
        Space("Mandhane map", lambda: [(a, b, f, D) for a in vsl for b in lg(0.05, 800, 30 if q else 90) for f in fls for D in (0.02, 0.3)], lambda c: mandhane(*c)),
        Space("Taitel-Dukler map", lambda: [(m, x, f, D, a, r) for m in (ms if q else lg(1e-5, 50, 25)) for x in xs for f in fls for D in Ds for a in (0, 10, -40) for r in (0., 1e-4)], lambda c: taitel(*c)),
        Space("Kim-Mudawar friction", lambda: [1., 1000., 1999.999, 2000., 2000.001, 5000., 19999.9, 20000., 20000.1, 1e6], kimf),
        conform_space("conformance", modules=["two_phase"], tier=tier),
    ]
