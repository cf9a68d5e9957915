"""C37: void fraction and two-phase mixture viscosity."""
import itertools
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
import fluids.two_phase_voidage as v
import rfluids.two_phase_voidage as rv
from fluids.constants import g

RULE = ("every correlation over a lattice of quality, flow, diameter, angle and fluid pairs with both sides of every regime limit, every subset of optional inputs, and every "
        "listed function over its declared calls moved through factors and thresholds; non-trivial when a value is returned")
ASSUMPTIONS = ["bounds 0..1, end limits and growth with quality are demanded only of the models whose published form has them"]

FL = [(915.0, 2.67, 180e-6, 14e-6, 0.0487, 5e5, 22e6), (998.0, 1.2, 1.0e-3, 1.8e-5, 0.0724, 1.01e5, 22e6), (1200.0, 30.0, 2.5e-4, 1.2e-5, 0.009, 7e5, 4.06e6), (850.0, 80.0, 0.02, 1.5e-5, 0.025, 7e6, 2e7)]
ALL = list(rv.two_phase_voidage_correlations)
# slip forms 1/(1 + (1-x)/x * ...): 0 at no gas, 1 at all gas, always growing
SLIP = ["Thom", "Zivi", "Smith", "Fauske", "Chisholm_voidage", "Turner Wallis", "homogeneous", "Baroczy", "Huq_Loth"]
# (also bounded and growing)
UNIT = SLIP + ["Chisholm Armand", "Armand", "Guzhov", "Gregory_Scott", "Xu Fang voidage", "Yashar", "Nicklin Wilkes Davidson", "Sun Duffey Peng", "Steiner", "Rouhani 1"]
GROW = SLIP + ["Chisholm Armand", "Armand", "Gregory_Scott", "Nicklin Wilkes Davidson", "Yashar", "Steiner", "Rouhani 1"]
VISC = ["Beattie Whalley", "Fourar Bories", "Duckler", "McAdams", "Cicchitti", "Lin Kwok"]
NEED = {"Thom": "mul mug", "Turner Wallis": "mul mug", "Guzhov": "m D", "Kawahara": "D", "Baroczy": "mul mug", "Tandon Varma Gupta": "mul mug m D", "Harms": "mul mug m D", "Domanski Didion": "mul mug",
        "Graham": "mul mug m D", "Yashar": "mul mug m D", "Kopte_Newell_Chato": "m D", "Steiner": "sigma m D", "Rouhani 1": "sigma m D", "Rouhani 2": "sigma m D", "Nicklin Wilkes Davidson": "m D",
        "Dix": "sigma m D", "Sun Duffey Peng": "sigma m D P Pc", "Xu Fang voidage": "m D", "Woldesemayat Ghajar": "sigma m D P"}


def kw(fl, D, m):
    rhol, rhog, mul, mug, sigma, P, Pc = FL[fl]
    return dict(rhol=rhol, rhog=rhog, mul=mul, mug=mug, sigma=sigma, P=P, Pc=Pc, D=D, m=m)


def hom(x, rl, rg):
    return (x / rg) / (x / rg + (1 - x) / rl)


def own(k, x, a, angle, G0):
    """The published formulas, written independently."""
    rl, rg, ml, mg, s, P, Pc, D, m = [a[i] for i in ("rhol", "rhog", "mul", "mug", "sigma", "P", "Pc", "D", "m")]
    G = 4 * m / math.pi / D ** 2
    X = (1 - x) / x
    ah = hom(x, rl, rg)
    slip = lambda A, p, q, r: 1 / (1 + A * X ** p * (rg / rl) ** q * (ml / mg) ** r)
    xtt = X ** .9 * (rg / rl) ** .5 * (ml / mg) ** .1
    ft = (G * G * x ** 3 / ((1 - x) * rg ** 2 * G0 * D)) ** .5
    vs, vl = G * x / rg, G * (1 - x) / rl
    drift = lambda C0, u: vs / (C0 * (vs + vl) + u)
    t4 = lambda c, L=1.0: c * (G0 * s * (rl - rg) / rl ** 2 * L) ** .25
    if k == "Thom": return slip(1, 1, .89, .18)
    if k == "Zivi": return slip(1, 1, 2 / 3.0, 0)
    if k == "Fauske": return slip(1, 1, .5, 0)
    if k == "Turner Wallis": return slip(1, .72, .4, .08)
    if k == "Baroczy": return slip(1, .74, .65, .13)
    if k == "homogeneous": return ah
    if k == "Smith": return 1 / (1 + X * rg / rl * (.4 + .6 * ((rl / rg + .4 * X) / (1 + .4 * X)) ** .5))
    if k == "Chisholm_voidage": return 1 / (1 + X * rg / rl * (1 - x * (1 - rl / rg)) ** .5)
    if k == "Chisholm Armand": return ah / (ah + (1 - ah) ** .5)
    if k == "Armand": return .833 * ah
    if k == "Nishino Yamazaki": return 1 - (X * rg / rl) ** .5 * ah ** .5
    if k == "Guzhov": return .81 * (1 - math.exp(-2.2 * (G * (x / rg + (1 - x) / rl) / (G0s * D) ** .5))) * ah
    if k == "Kawahara":
        if D > 250e-6: return .833 * ah
        c = .03 if D > 75e-6 else .02
        return c * ah ** .5 / (1 - (1 - c) * ah ** .5)
    if k == "Tandon Varma Gupta":
        R = G * D / ml
        F = .15 * (1 / xtt + 2.85 / xtt ** .476)
        return 1 - 1.928 / R ** .315 / F + .9293 / R ** .63 / F ** 2 if R < 1125 else 1 - .38 / R ** .088 / F + .0361 / R ** .176 / F ** 2
    if k == "Harms":
        R = G * D * (1 - x) / ml
        return (1 - 10.06 * R ** -.875 * (1.74 + .104 * R ** .5) ** 2 * (1.376 + 7.242 / xtt ** 1.655) ** -.5) ** 2
    if k == "Domanski Didion": return (1 + xtt ** .8) ** -.378 if xtt < 10 else .823 - .157 * math.log(xtt)
    if k == "Graham": return 0.0 if ft < .01032 else 1 - math.exp(-1 - .3 * math.log(ft) - .0328 * math.log(ft) ** 2)
    if k == "Yashar": return (1 + 1 / ft + xtt) ** -.321
    if k == "Huq_Loth": return 1 - 2 * (1 - x) ** 2 / (1 - 2 * x + (1 + 4 * x * (1 - x) * (rl / rg - 1)) ** .5)
    if k == "Kopte_Newell_Chato":
        l = math.log(ft)
        return ah if ft < .044 else 1.045 - math.exp(-1 - .342 * l - .0268 * l * l + .00597 * l ** 3)
    if k == "Steiner": return drift(1 + .12 * (1 - x), 1.18 * (1 - x) * (G0 * s * (rl - rg)) ** .25 / rl ** .5)
    if k == "Rouhani 1": return drift(1 + .2 * (1 - x), 1.18 * (1 - x) * (G0 * s * (rl - rg)) ** .25 / rl ** .5)
    if k == "Rouhani 2": return drift(1 + .2 * (1 - x) * (G0 * D) ** .25 * (rl / G) ** .5, 1.18 * (1 - x) * (G0 * s * (rl - rg)) ** .25 / rl ** .5)
    if k == "Nicklin Wilkes Davidson": return drift(1.2, .35 * (G0 * D) ** .5)
    if k == "Gregory_Scott": return drift(1.19, 0)
    if k == "Dix": return drift(vs / (vs + vl) * (1 + (vl / vs) ** ((rg / rl) ** .1)), t4(2.9))
    if k == "Sun Duffey Peng": return drift(1 / (.82 + .18 * P / Pc), t4(1.41))
    if k == "Xu Fang voidage": return 1 / (1 + (1 + 2 * (G * G / (G0 * D * rl * rl)) ** -.2 * ah ** 3.5) * X * rg / rl)
    if k == "Woldesemayat Ghajar":
        th = math.radians(angle)
        return vs / (vs * (1 + (vl / vs) ** ((rg / rl) ** .1)) + t4(2.9, D * (1 + math.cos(th))) * (1.22 + 1.22 * math.sin(th)) ** (101325 / P))
    raise KeyError(k)


G0s = g


def main(k, x, fl, D, m, angle, grav):
    a = kw(fl, D, m)
    extra = {}
    if angle:
        extra["angle"] = angle
    G0 = g
    if grav:
        extra["g"] = G0 = grav
    what = "liquid_gas_voidage(x=%r, %r, %r, Method=%r)" % (x, a, extra, k)
    if k == "Guzhov" and grav:
        return TRIVIAL
    want = own(k, x, a, angle, G0)
    if isinstance(want, complex):
        return TRIVIAL
    got = v.liquid_gas_voidage(x=x, Method=k, **a, **extra)
    expect(got, want, 1e-8, 1e-11, what)
    if k in UNIT:
        need(-1e-12 <= got <= 1 + 1e-12, what + " = %r is not a fraction" % got)
    # every slip model lies at or below the homogeneous one for liquid denser than gas (gas is not slower)
    if k in ("Zivi", "Smith", "Fauske", "Chisholm_voidage", "homogeneous", "Chisholm Armand", "Armand", "Gregory_Scott", "Nicklin Wilkes Davidson", "Xu Fang voidage"):
        need(got <= hom(x, a["rhol"], a["rhog"]) * (1 + 1e-9), what + " exceeds the homogeneous void fraction")
    if k in GROW and x < 0.99:
        up = v.liquid_gas_voidage(x=x * 1.01, Method=k, **a, **extra)
        need(up > got, what + " does not grow with quality: %r then %r" % (got, up))
    return got


def ends(k, fl, D, m):
    a = kw(fl, D, m)
    lo = v.liquid_gas_voidage(x=1e-15, Method=k, **a)
    hi = v.liquid_gas_voidage(x=1 - 1e-14, Method=k, **a)
    need(0 <= lo < 2e-6, "%s: void fraction %r without gas" % (k, lo))
    need(1 - 1e-4 < hi <= 1, "%s: void fraction %r without liquid" % (k, hi))
    return lo, hi


def homo(x, rl, rg):
    got = v.homogeneous(x, rl, rg)
    expect(got, hom(x, rl, rg), 1e-12, 0, "homogeneous(%r, %r, %r)" % (x, rl, rg))
    need(v.homogeneous(0.0, rl, rg) == 0 and v.homogeneous(1.0, rl, rg) == 1 and v.homogeneous(0, rl, rg) == 0 and v.homogeneous(1, rl, rg) == 1, "ends")
    # mixture density agrees with the mass balance, and the measured-density form inverts it
    rho = v.density_two_phase(got, rl, rg)
    expect(rho, 1 / (x / rg + (1 - x) / rl), 1e-11, 0, "density_two_phase of the homogeneous void fraction")
    expect(v.two_phase_voidage_experimental(rho, rl, rg), got, 1e-9, 1e-12, "two_phase_voidage_experimental inverts density_two_phase")
    return got


def dens(al, rl, rg):
    rho = v.density_two_phase(al, rl, rg)
    expect(rho, al * rg + (1 - al) * rl, 1e-13, 0, "density_two_phase(%r, %r, %r)" % (al, rl, rg))
    expect(v.two_phase_voidage_experimental(rho, rl, rg), al, 1e-9, 1e-10 * max(rl, rg) / abs(rl - rg), "two_phase_voidage_experimental inverts density_two_phase")
    return rho


def xtt(x, fl, px, pr, pm, n):
    rl, rg, ml, mg = FL[fl][:4]
    X = (1 - x) / x
    if n is not None:
        got = v.Lockhart_Martinelli_Xtt(x, rl, rg, ml, mg, pr if False else 0.9, pr, 0.1, n)
        want = X ** ((2 - n) / 2.0) * (rg / rl) ** pr * (ml / mg) ** (n / 2.0)
    else:
        got = v.Lockhart_Martinelli_Xtt(x, rl, rg, ml, mg, pow_x=px, pow_rho=pr, pow_mu=pm)
        want = X ** px * (rg / rl) ** pr * (ml / mg) ** pm
    expect(got, want, 1e-11, 0, "Lockhart_Martinelli_Xtt(x=%r, n=%r)" % (x, n))
    if (px, pr, pm, n) == (0.9, 0.5, 0.1, None):
        expect(v.Lockhart_Martinelli_Xtt(x, rl, rg, ml, mg), want, 1e-11, 0, "default powers")
        expect(v.Lockhart_Martinelli_Xtt(x, rl, rg, ml, mg, n=0.2), want, 1e-11, 0, "n=0.2 (smooth turbulent) equals the default powers")
    return got


def visc(x, fl):
    rl, rg, ml, mg = FL[fl][:4]
    al = hom(x, rl, rg)
    want = {"Beattie Whalley": ml * (1 - al) * (1 + 2.5 * al) + mg * al, "McAdams": 1 / (x / mg + (1 - x) / ml), "Cicchitti": x * mg + (1 - x) * ml, "Lin Kwok": ml * mg / (mg + x ** 1.4 * (ml - mg)),
            "Fourar Bories": ((x * mg / rg) ** .5 + ((1 - x) * ml / rl) ** .5) ** 2 / (x / rg + (1 - x) / rl), "Duckler": (x * mg / rg + (1 - x) * ml / rl) / (x / rg + (1 - x) / rl)}
    need(sorted(want) == sorted(v.liquid_gas_viscosity_correlations), "correlations %r" % sorted(v.liquid_gas_viscosity_correlations))
    for k, w in want.items():
        got = v.gas_liquid_viscosity(x, ml, mg, rl, rg, Method=k)
        expect(got, w, 1e-11, 0, "gas_liquid_viscosity(x=%r, fluid %d, Method=%r)" % (x, fl, k))
        f = getattr(v, k.replace(" ", "_"))
        args = dict(x=x, mul=ml, mug=mg)
        if v.liquid_gas_viscosity_correlations[k][1]:
            args.update(rhol=rl, rhog=rg)
        expect(f(**args), w, 1e-11, 0, k)
        if x in (0.0, 1.0):
            expect(got, mg if x else ml, 1e-12, 0, "%s at x=%r" % (k, x))
        if k not in ("Beattie Whalley", "Fourar Bories"):
            need(min(ml, mg) * (1 - 1e-12) <= got <= max(ml, mg) * (1 + 1e-12), "%s: %r not between the phases" % (k, got))
    need(v.gas_liquid_viscosity(x, ml, mg) == v.gas_liquid_viscosity(x, ml, mg, Method="McAdams"), "default is McAdams")
    need(v.gas_liquid_viscosity(x, ml, mg, rl, rg) == v.gas_liquid_viscosity(x, ml, mg, Method="McAdams"), "default is McAdams with densities too")
    for a, b in ((None, None), (rl, None), (None, rg), (rl, rg)):
        got = v.gas_liquid_viscosity_methods(a, b)
        full = a is not None and b is not None
        need(sorted(got) == sorted(VISC if full else ["McAdams", "Cicchitti", "Lin Kwok"]), "gas_liquid_viscosity_methods(%r, %r) = %r" % (a, b, got))
        for k in VISC:
            ok, r = attempt(v.gas_liquid_viscosity, x, ml, mg, a, b, k)
            need(ok == (k in got), "gas_liquid_viscosity(rhol=%r, rhog=%r, Method=%r): %r" % (a, b, k, r))
            need(ok or r == "TypeError", "gas_liquid_viscosity without density: %r" % r)
    ok, r = attempt(v.gas_liquid_viscosity, x, ml, mg, rl, rg, "nothing")
    need(not ok and r == "ValueError", "unknown method: %r" % (r,))
    return tuple(sorted(want.values()))


def subsets(opts):
    a = kw(0, 0.05, 0.6)
    given = {k: a[k] for k in opts}
    base = dict(x=0.3, rhol=a["rhol"], rhog=a["rhog"])
    want = sorted(k for k in ALL if set(NEED.get(k, "").split()) <= set(opts))
    got = v.liquid_gas_voidage_methods(**base, **given)
    need(sorted(got) == want, "liquid_gas_voidage_methods with %s: missing %s, unexpected %s" % (", ".join(opts) or "nothing optional", sorted(set(want) - set(got)), sorted(set(got) - set(want))))
    for k in ALL:
        ok, r = attempt(v.liquid_gas_voidage, Method=k, **base, **given)
        need(ok == (k in want), "liquid_gas_voidage with %s, Method=%r: %r" % (", ".join(opts), k, r))
        need(ok or r == "TypeError", "liquid_gas_voidage with %s, Method=%r: %r" % (", ".join(opts), k, r))
    need(v.liquid_gas_voidage(**base, **given) == v.liquid_gas_voidage(Method="homogeneous", **base), "the default is the homogeneous model")
    ok, r = attempt(v.liquid_gas_voidage, Method="nothing", **base, **given)
    need(not ok and r == "ValueError", "unknown method: %r" % (r,))
    return len(want)


def spaces(tier):
    q = tier == "quick"
    xs = (1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 0.95, 0.99, 0.999, 1 - 1e-6)
    if not q:
        xs = sorted(set(xs) | {i / 50.0 for i in range(1, 50)} | {10 ** -(i / 4.0) for i in range(4, 28)})
    ms = (1e-4, 3e-3, 0.05, 0.6, 8.0)
    Ds = (5e-5, 7.5e-5, 7.6e-5, 2.5e-4, 2.51e-4, 1e-3, 0.01, 0.05, 0.3)
    fls = range(len(FL))
    opts = ("D", "m", "mul", "mug", "sigma", "P", "Pc")
    rr = [(1000.0, 1.2), (900.0, 90.0), (500.0, 499.0), (1.0, 5.0)]
    return [
        Space("published formulas", lambda: [(k, x, f, D, m, 0, None) for k in ALL for x in xs for f in fls for D in Ds for m in ms], lambda c: main(*c)),
        Space("angle and gravity", lambda: [(k, x, f, D, m, an, gr) for k in ALL for x in (1e-3, .1, .5, .9) for f in fls for D in (1e-3, .05) for m in (1e-3, .6) for an in (0, 10, 90, -45, -90) for gr in (None, 3.7)], lambda c: main(*c)),
        Space("ends", lambda: [(k, f, D, m) for k in SLIP if k not in ("Turner Wallis", "Huq_Loth", "Baroczy") for f in fls for D in Ds[3:] for m in ms], lambda c: ends(*c)),
        Space("homogeneous model", lambda: [(x, a, b) for x in tuple(xs) + (0.0, 1.0) for a, b in rr], lambda c: homo(*c)),
        Space("density", lambda: [(i / 20.0, a, b) for i in range(21) for a, b in rr], lambda c: dens(*c)),
        Space("Xtt", lambda: [(x, f, px, pr, pm, n) for x in xs for f in fls for px, pr, pm in ((.9, .5, .1), (.74, .65, .13), (1.0, .5, .0)) for n in (None, 0.2, 0.25, 1.0, 0.0)], lambda c: xtt(*c)),
        Space("mixture viscosity", lambda: [(x, f) for x in tuple(xs) + (0.0, 1.0) for f in fls], lambda c: visc(*c)),
        Space("inputs to methods", lambda: [tuple(c) for n in range(8) for c in itertools.combinations(opts, n)], subsets),
        conform_space("conformance", modules=["two_phase_voidage"], tier=tier),
    ]
