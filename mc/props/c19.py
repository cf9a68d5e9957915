"""C19: dimensionless groups and elementary converters equal their definitions on every
route through their optional arguments."""
import itertools
import math
from fractions import Fraction as Fr

from ..core import Space, Violation, need, expect, attempt, close, TRIVIAL
from ..grid import ref_space, Rejects, Skip, spread, harvest
import fluids.core as fc

RULE = ("every point of the argument lattice of every function of the group (declared values plus the constants the "
        "current source compares with), and every subset of the optional arguments; a case is non-trivial when the "
        "defining expression is finite there")
ASSUMPTIONS = ["definitions transcribed from the documentation; IEEE double arithmetic, relative tolerance 1e-9"]

G = 9.80665
RGAS = 8.31446261815324


def sq(x):
    if x < 0:
        raise Skip
    return math.sqrt(x)


DEF = {  # name: (argument names, definition)
    "thermal_diffusivity": ("k rho Cp", lambda k, rho, Cp: k / rho / Cp),
    "c_ideal_gas": ("T k MW", lambda T, k, MW: sq(k * RGAS * T / (MW / 1000.0))),
    "Peclet_mass": ("V L D", lambda V, L, D: V * L / D),
    "Fourier_mass": ("t L D", lambda t, L, D: t * D / L ** 2),
    "Weber": ("V L rho sigma", lambda V, L, rho, s: rho * V ** 2 * L / s),
    "Mach": ("V c", lambda V, c: V / c),
    "Confinement": ("D rhol rhog sigma g", lambda D, rl, rg, s, g: sq(s / (g * (rl - rg))) / D),
    "Morton": ("rhol rhog mul sigma g", lambda rl, rg, mul, s, g: g * mul ** 4 * (rl - rg) / (rl ** 2 * s ** 3)),
    "Knudsen": ("path L", lambda p, L: p / L),
    "Bond": ("rhol rhog sigma L", lambda rl, rg, s, L: G * (rl - rg) * L ** 2 / s),
    "Eotvos": ("rhol rhog sigma L", lambda rl, rg, s, L: G * (rl - rg) * L ** 2 / s),
    "Rayleigh": ("Pr Gr", lambda Pr, Gr: Pr * Gr),
    "Strouhal": ("f L V", lambda f, L, V: f * L / V),
    "Nusselt": ("h L k", lambda h, L, k: h * L / k),
    "Sherwood": ("K L D", lambda K, L, D: K * L / D),
    "Biot": ("h L k", lambda h, L, k: h * L / k),
    "Stanton": ("h V rho Cp", lambda h, V, rho, Cp: h / (rho * Cp * V)),
    "Euler": ("dP rho V", lambda dP, rho, V: dP / (rho * V ** 2)),
    "Cavitation": ("P Psat rho V", lambda P, Ps, rho, V: (P - Ps) / (rho * V ** 2 / 2)),
    "Eckert": ("V Cp dT", lambda V, Cp, dT: V ** 2 / (Cp * dT)),
    "Jakob": ("Cp Hvap Te", lambda Cp, Hvap, Te: Cp * Te / Hvap),
    "Power_number": ("P L N rho", lambda P, L, N, rho: P / (rho * N ** 3 * L ** 5)),
    "Drag": ("F A V rho", lambda F, A, V, rho: F / (A * rho * V ** 2 / 2)),
    "Stokes_number": ("V Dp D rhop mu", lambda V, Dp, D, rhop, mu: rhop * V * Dp ** 2 / (18 * mu * D)),
    "Capillary": ("V mu sigma", lambda V, mu, s: mu * V / s),
    "Archimedes": ("L rhof rhop mu g", lambda L, rf, rp, mu, g: g * L ** 3 * rf * (rp - rf) / mu ** 2),
    "Ohnesorge": ("L rho mu sigma", lambda L, rho, mu, s: mu / sq(rho * s * L)),
    "Suratman": ("L rho mu sigma", lambda L, rho, mu, s: rho * s * L / mu ** 2),
    "Hagen": ("Re fd", lambda Re, fd: fd / 2 * Re ** 2),
    "Bejan_L": ("dP L mu alpha", lambda dP, L, mu, a: dP * L ** 2 / (mu * a)),
    "Bejan_p": ("dP K mu alpha", lambda dP, K, mu, a: dP * K / (mu * a)),
    "Boiling": ("G q Hvap", lambda g, q, h: q / (g * h)),
    "Dean": ("Re Di D", lambda Re, Di, D: sq(Di / D) * Re),
    "relative_roughness": ("D roughness", lambda D, e: e / D),
    "K_from_f": ("fd L D", lambda f, L, D: f * L / D),
    "f_from_K": ("K L D", lambda K, L, D: K * D / L),
    "K_from_L_equiv": ("L_D fd", lambda r, f: r * f),
    "L_equiv_from_K": ("K fd", lambda K, f: K / f),
    "L_from_K": ("K D fd", lambda K, D, f: K * D / f),
    "dP_from_K": ("K rho V", lambda K, rho, V: K * rho * V ** 2 / 2),
    "head_from_K": ("K V g", lambda K, V, g: K * V ** 2 / 2 / g),
    "head_from_P": ("P rho g", lambda P, rho, g: P / (rho * g)),
    "P_from_head": ("head rho g", lambda h, rho, g: h * rho * g),
    "Froude": ("V L g squared", lambda V, L, g, s: (V / sq(L * g)) ** (2 if s else 1)),
    "Froude_densimetric": ("V L rho1 rho2 heavy g",
                           lambda V, L, r1, r2, h, g: V / sq(g * L) * sq((r1 if h else r2) / (r1 - r2))),
    "gravity": ("latitude H", lambda lat, H: 9.780356 * (1 + 0.0052885 * math.sin(math.radians(lat)) ** 2 - 0.0000059 *
                                                         math.sin(math.radians(2 * lat)) ** 2) - 3.086e-6 * H),
}
DEFAULTS = {"g": G, "fd": 0.015, "roughness": 1.52e-06, "T2": 0.0}

P4 = [0.0, 1.9e-7, 0.0153, 1.0, 2.45, 37.0, 8812.5, 6.1e6, 3.3e9]
P5 = [0.0, 1.9e-7, 0.0153, 2.45, 998.7, 3.1e7]
SPECIAL = {"latitude": [-90.0, -45.0, -0.001, 0.0, 30.0, 45.0, 61.3, 90.0, 180.0], "H": [-400.0, 0.0, 1.0, 8848.0, 3e4, 1e6],
           "squared": [False, True], "heavy": [True, False], "g": [G, 1.62, 24.8]}


def lists(argn):
    n = len(argn)
    out = {}
    for a in argn:
        if a in SPECIAL:
            out[a] = SPECIAL[a]
        else:
            out[a] = P4 if n <= 4 else P5
    return out


def sub_routes(fname, target, fixed, opt, routes):
    """Every subset of the optional arguments `opt`, given mutually consistent values: the
    sufficient ones give `target`, the others raise."""
    f = getattr(fc, fname)
    fx = list(fixed)

    def cases():
        vals = [P5[1:] + [1.0]] * (len(fx))
        for fv in itertools.product(*vals):
            for rho, Cp, k, mu in itertools.product([0.7, 1.0, 998.0], [1.0, 4180.0], [1.0, 0.025, 401.0], [1e-5, 1.0, 0.9]):
                for r in range(len(opt) + 1):
                    for s in itertools.combinations(opt, r):
                        yield fv, (rho, Cp, k, mu), s

    def run(case):
        fv, (rho, Cp, k, mu), s = case
        pool = {"rho": rho, "Cp": Cp, "k": k, "mu": mu, "nu": mu / rho, "alpha": k / (rho * Cp)}
        kw = dict(zip(fx, fv))
        want = target(pool, **kw)
        ok, got = attempt(f, **kw, **{a: pool[a] for a in s})
        suff = any(set(r) <= set(s) for r in routes)
        if not suff:
            need(not ok, "%s(%s) with only %s given: returned %r although the inputs do not determine it" % (fname, kw, s, got))
            return "!rejected"
        need(ok, "%s(%s) with %s given raised %s" % (fname, kw, s, got))
        return expect(got, want, 1e-9, 0, "%s(%s; %s)" % (fname, kw, {a: pool[a] for a in s}))

    return Space("routes:" + fname, cases, run, rule="all subsets of %s with consistent values" % (opt,))


ROUTES = [
    ("Reynolds", lambda p, V, D: V * D * p["rho"] / p["mu"], "V D", "rho mu nu", ["rho mu", "nu"]),
    ("Peclet_heat", lambda p, V, L: V * L / p["alpha"], "V L", "rho Cp k alpha", ["rho Cp k", "alpha"]),
    ("Fourier_heat", lambda p, t, L: t * p["alpha"] / L ** 2, "t L", "rho Cp k alpha", ["rho Cp k", "alpha"]),
    ("Graetz_heat", lambda p, V, D, x: V * D ** 2 / (x * p["alpha"]), "V D x", "rho Cp k alpha", ["rho Cp k", "alpha"]),
    ("Schmidt", lambda p, D: p["nu"] / D, "D", "mu nu rho", ["rho mu", "nu"]),
    ("Lewis", lambda p, D: p["alpha"] / D, "D", "alpha Cp k rho", ["k Cp rho", "alpha"]),
    ("Prandtl", lambda p: p["Cp"] * p["mu"] / p["k"], "", "Cp k mu nu rho alpha", ["k Cp mu", "nu rho Cp k", "nu alpha"]),
    ("Grashof", lambda p, L, beta, T1, T2: G * beta * abs(T1 - T2) * L ** 3 / p["nu"] ** 2, "L beta T1 T2", "rho mu nu",
     ["rho mu", "nu"]),
]

# exact temperature scales
ZC = Fr("273.15")
TO_K = {"C": lambda x: x + ZC, "F": lambda x: (x - 32) * Fr(5, 9) + ZC, "K": lambda x: x, "R": lambda x: x * Fr(5, 9)}
FROM_K = {"C": lambda x: x - ZC, "F": lambda x: (x - ZC) * Fr(9, 5) + 32, "K": lambda x: x, "R": lambda x: x * Fr(9, 5)}
TV = [-459.67, -273.15, -100.0, -40.0, -32.0, -17.7, -1.0, -1e-6, 0.0, 1e-6, 0.01, 1.0, 25.0, 32.0, 37.0, 100.0, 212.0, 255.372,
      273.15, 298.15, 300.0, 459.67, 491.67, 671.67, 1000.0, 5778.0, 1e6, -1e6]


def temp_space():
    def cases():
        cs = harvest(*[getattr(fc, a + "2" + b) for a in "CFKR" for b in "CFKR" if a != b])
        vals = TV + spread(cs, -1e7, 1e7)
        for a in "CFKR":
            for b in "CFKR":
                if a != b:
                    for x in vals:
                        for kind in ("float", "int", "array"):
                            if kind == "int" and x != int(x):
                                continue
                            yield a, b, x, kind

    def run(case):
        import numpy as np
        a, b, x, kind = case
        f = getattr(fc, a + "2" + b)
        g = getattr(fc, b + "2" + a)
        want = float(FROM_K[b](TO_K[a](Fr(x))))
        v = int(x) if kind == "int" else np.array([x, x]) if kind == "array" else x
        got = f(v)
        if kind == "array":
            need(len(got) == 2 and got[0] == got[1], "array conversion differs between entries")
            got = float(got[0])
        scale = abs(x) + 700.0
        need(abs(got - want) <= 1e-12 * scale, "%s2%s(%r) = %r, exact %r" % (a, b, v, got, want))
        back = float(g(got))
        need(abs(back - x) <= 2e-12 * scale, "%s2%s(%s2%s(%r)) = %r" % (b, a, a, b, x, back))
        return got
    return Space("temperature scales", cases, run, rule="all 12 ordered pairs of C, F, K, R x values x int/float/array")


def nu_mu():
    V = [None, 0.0, 1e-6, 0.5, 1.0, 2.0, 3e4]

    def cases():
        return itertools.product([1e-3, 0.5, 1.0, 998.0], V, V)

    def run(c):
        rho, mu, nu = c
        ok, got = attempt(fc.nu_mu_converter, rho, mu=mu, nu=nu)
        if (mu is None) == (nu is None):
            need(not ok, "nu_mu_converter(%r, mu=%r, nu=%r) returned %r" % (rho, mu, nu, got))
            return "!rejected"
        need(ok, "nu_mu_converter(%r, mu=%r, nu=%r) raised %r" % (rho, mu, nu, got))
        return expect(got, mu / rho if nu is None else nu * rho, 1e-9, 0, "nu_mu_converter%r" % (c,))
    return Space("nu_mu_converter", cases, run)


def inverses():
    PAIRS = [("K_from_f", "f_from_K", lambda x, a, b: ((x, a, b), lambda y: (y, a, b))),
             ("K_from_L_equiv", "L_equiv_from_K", lambda x, a, b: ((x, a), lambda y: (y, a))),
             ("head_from_P", "P_from_head", lambda x, a, b: ((x, a), lambda y: (y, a))),
             ("head_from_P", "P_from_head", lambda x, a, b: ((x, a, b), lambda y: (y, a, b))),
             ("P_from_head", "head_from_P", lambda x, a, b: ((x, a, b), lambda y: (y, a, b)))]
    P = [v for v in P4 if v]

    def cases():
        for i in range(len(PAIRS)):
            yield from ((i, x, a, b) for x in P4 for a in P for b in P)

    def run(c):
        i, x, a, b = c
        f, g, m = PAIRS[i]
        args, back = m(x, a, b)
        y = getattr(fc, f)(*args)
        return expect(getattr(fc, g)(*back(y)), x, 1e-9, 0, "%s o %s at %r" % (g, f, args))
    return Space("inverse pairs", cases, run)


def engauge():
    """Every file of at most 3 curves (blocks of a header and 0-2 points separated by blank lines)."""
    blocks = [[(h, pts)] for h in ("a,1", "x,-2.5") for pts in ((), ((1.0, 2.0),), ((0.5, -1.0), (3.0, 1e-3)))]
    flatblocks = [b[0] for b in blocks]

    def cases():
        for n in (1, 2, 3):
            for bs in itertools.product(flatblocks, repeat=n):
                for lead in (0, 1):
                    for sep in (1, 2):
                        for nl in ("", "\n"):
                            for flat in (False, True):
                                yield bs, lead, sep, nl, flat

    def run(c):
        bs, lead, sep, nl, flat = c
        if not all(p for _, p in bs):
            return TRIVIAL          # a curve without points is outside the file format
        lines = [nl] * lead
        for h, pts in bs:
            lines.append(h + nl)
            lines += ["%r,%r" % p + nl for p in pts]
            lines += [nl] * sep
        before = list(lines)
        got = fc.Engauge_2d_parser(lines, flat=flat)
        need(lines == before, "input lines were changed")
        zs = [float(h.split(",")[1]) for h, _ in bs]
        xs = [[p[0] for p in pts] for _, pts in bs]
        ys = [[p[1] for p in pts] for _, pts in bs]
        if flat:
            want = ([z for z, x in zip(zs, xs) for _ in x], [v for x in xs for v in x], [v for y in ys for v in y])
        else:
            want = (zs, xs, ys)
        return expect(list(map(list, got)), list(map(list, want)), 0, 0, "Engauge_2d_parser")
    return Space("Engauge_2d_parser", cases, run)


def spaces(tier):
    out = []
    for name, (argn, ref) in DEF.items():
        argn = argn.split()
        f = getattr(fc, name)
        dims = lists(argn)
        bounds = {a: (0.0, 1e10) for a in argn if a not in SPECIAL or a == "g"}
        bounds["latitude"] = (-180.0, 180.0)
        bounds["H"] = (-1e4, 1e6)

        def call(*a, f=f, argn=argn):
            return f(**dict(zip(argn, a)))
        out.append(ref_space(name, call, ref, dims, bounds=bounds, under=[f]))
        dflt = [a for a in argn if a in DEFAULTS and not (a == "fd" and name in ("Hagen", "K_from_f"))]
        if dflt:
            rest = [a for a in argn if a not in dflt]

            def call2(*a, f=f, rest=rest):
                return f(**dict(zip(rest, a)))

            def ref2(*a, ref=ref, rest=rest, argn=argn):
                d = dict(DEFAULTS)
                d.update(zip(rest, a))
                return ref(*[d[x] for x in argn])
            out.append(ref_space(name + " (defaults)", call2, ref2, {a: dims[a] for a in rest}, bounds=bounds, under=[f]))
    for f, t, fixed, opt, routes in ROUTES:
        out.append(sub_routes(f, t, fixed.split(), opt.split(), [r.split() for r in routes]))
    out += [temp_space(), nu_mu(), inverses(), engauge()]
    return out
