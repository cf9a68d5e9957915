"""C20: Darcy friction factors for straight pipes."""
import math

from ..core import Space, Violation, need, expect, attempt, close, TRIVIAL, logspace
from ..grid import ref_space, inv_space, harvest, spread, lattice, Skip, Rejects
from ..conform import conform_space
import fluids.friction as f

RULE = ("every (Re, eD) of the lattice (declared decades plus every constant the current source compares with, both sides) x every "
        "correlation and option; plus the conformance lattice of every public function of the group; non-trivial when a value is defined")
ASSUMPTIONS = ["published formulas transcribed from the documentation", "Colebrook residual evaluated in 60-digit arithmetic"]
lg = math.log10
ln = math.log

# published formulas: Darcy factor
FORM = {
    "Blasius": None,
    "Moody": lambda R, e: 4 * (1.375e-3 * (1 + (2e4 * e + 1e6 / R) ** (1 / 3.0))),
    "Alshul_1952": lambda R, e: 0.11 * (68 / R + e) ** 0.25,
    "Wood_1966": lambda R, e: 0.094 * e ** 0.225 + 0.53 * e + 88 * e ** 0.4 * R ** (-1.62 * e ** 0.134),
    "Churchill_1973": lambda R, e: (-2 * lg(e / 3.7 + (7 / R) ** 0.9)) ** -2,
    "Eck_1973": lambda R, e: (-2 * lg(e / 3.715 + 15 / R)) ** -2,
    "Jain_1976": lambda R, e: 4 * (2.28 - 4 * lg(e + (29.843 / R) ** 0.9)) ** -2,
    "Swamee_Jain_1976": lambda R, e: 4 * (-4 * lg((6.97 / R) ** 0.9 + e / 3.7)) ** -2,
    "Churchill_1977": lambda R, e: 8 * ((8 / R) ** 12 + ((2.457 * ln(1 / ((7 / R) ** 0.9 + 0.27 * e))) ** 16 + (37530 / R) ** 16) ** -1.5) ** (1 / 12.0),
    "Chen_1979": lambda R, e: 4 * (-4 * lg(e / 3.7065 - 5.0452 / R * lg(e ** 1.1098 / 2.8257 + (7.149 / R) ** 0.8981))) ** -2,
    "Round_1980": lambda R, e: 4 * (-3.6 * lg(R / (0.135 * R * e + 6.5))) ** -2,
    "Shacham_1980": lambda R, e: 4 * (-4 * lg(e / 3.7 - 5.02 / R * lg(e / 3.7 + 14.5 / R))) ** -2,
    "Barr_1981": lambda R, e: (-2 * lg(e / 3.7 + 4.518 * lg(R / 7) / (R * (1 + R ** 0.52 / 29 * e ** 0.7)))) ** -2,
    "Zigrang_Sylvester_1": lambda R, e: 4 * (-4 * lg(e / 3.7 - 5.02 / R * lg(e / 3.7 + 13 / R))) ** -2,
    "Zigrang_Sylvester_2": lambda R, e: 4 * (-4 * lg(e / 3.7 - 5.02 / R * lg(e / 3.7 - 5.02 / R * lg(e / 3.7 + 13 / R)))) ** -2,
    "Haaland": lambda R, e: 4 * (-3.6 * lg(6.9 / R + (e / 3.7) ** 1.11)) ** -2,
    "Tsal_1989": lambda R, e: (lambda A: A if A >= 0.018 else 0.0028 + 0.85 * A)(0.11 * (68 / R + e) ** 0.25),
    "Manadilli_1997": lambda R, e: (-2 * lg(e / 3.7 + 95 / R ** 0.983 - 96.82 / R)) ** -2,
    "Romeo_2002": lambda R, e: (-2 * lg(e / 3.7065 - 5.0272 / R * lg(e / 3.827 - 4.567 / R * lg((e / 7.7918) ** 0.9924 + (5.3326 / (208.815 + R)) ** 0.9345)))) ** -2,
    "Sonnad_Goudar_2006": lambda R, e: (lambda S: (0.8686 * ln(0.4587 * R / S ** (S / (S + 1)))) ** -2)(0.124 * e * R + ln(0.4587 * R)),
    "Rao_Kumar_2007": lambda R, e: (2 * lg(1 / (2 * e * (1 - 0.55 * math.exp(-0.33 * ln(R / 6.5) ** 2)) * (0.444 / R + 0.135)))) ** -2
    if False else (lambda b: (2 * lg(1 / (2 * e * b * (0.444 / R + 0.135)))) ** -2)(1 - 0.55 * math.exp(-0.33 * ln(R / 6.5) ** 2)),
    "Buzzelli_2008": lambda R, e: (lambda B1: (lambda B2: (B1 - (B1 + 2 * lg(B2 / R)) / (1 + 2.18 / B2)) ** -2)(e / 3.7 * R + 2.51 * B1))(
        (0.774 * ln(R) - 1.41) / (1 + 1.32 * math.sqrt(e))),
    "Avci_Karagoz_2009": lambda R, e: 6.4 / (ln(R) - ln(1 + 0.01 * R * e * (1 + 10 * math.sqrt(e)))) ** 2.4,
    "Papaevangelo_2010": lambda R, e: (0.2479 - 0.0000947 * (7 - ln(R)) ** 4) / lg(e / 3.615 + 7.366 / R ** 0.9142) ** 2,
    "Brkic_2011_1": lambda R, e: (lambda b: (-2 * lg(10 ** (-0.4343 * b) + e / 3.71)) ** -2)(ln(R / (1.816 * ln(1.1 * R / ln(1 + 1.1 * R))))),
    "Brkic_2011_2": lambda R, e: (lambda b: (-2 * lg(2.18 * b / R + e / 3.71)) ** -2)(ln(R / (1.816 * ln(1.1 * R / ln(1 + 1.1 * R))))),
    "Fang_2011": lambda R, e: 1.613 * ln(0.234 * e ** 1.1007 - 60.525 / R ** 1.1105 + 56.291 / R ** 1.0712) ** -2,
    "Serghides_1": lambda R, e: (lambda A, B, C: (A - (B - A) ** 2 / (C - 2 * B + A)) ** -2)(*_serg(R, e)),
    "Serghides_2": lambda R, e: (lambda A, B, C: (4.781 - (A - 4.781) ** 2 / (B - 2 * A + 4.781)) ** -2)(*_serg(R, e)),
}
del FORM["Blasius"]


def _serg(R, e):
    A = -2 * lg(e / 3.7 + 12 / R)
    B = -2 * lg(e / 3.7 + 2.51 * A / R)
    return A, B, -2 * lg(e / 3.7 + 2.51 * B / R)


RES = [1e-2, 1.0, 64.0, 500.0, 2039.0, 2040.0, 2041.0, 2500.0, 3000.0, 4000.0, 4e3 * 1.0001, 5e3, 5245.0, 9e3, 1e4, 3.3e4, 1e5, 7.7e5, 1e6, 2e6, 1e7, 3e7, 5e7, 1e8, 1.5e8, 4e8, 1e9, 1e10]
EDS = [0.0, 1e-9, 1e-7, 1e-6, 1e-5, 4e-5, 1e-4, 6e-4, 1e-3, 3e-3, 0.01, 0.03, 0.04, 0.05, 0.07, 0.1]


def form_spaces():
    sp = []
    for n, g in FORM.items():
        def ref(R, e, g=g):
            try:
                v = g(R, e)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                raise Skip
            if isinstance(v, complex) or v != v or v > 1e6:
                raise Skip
            return v
        sp.append(ref_space(n, getattr(f, n), ref, {"Re": RES, "eD": EDS}, under=[getattr(f, n)], rtol=1e-7, cap_pairs=4000))
    return sp


def residual_sign(fd, Re, eD):
    """Is fd within rel of the root of the Colebrook equation?  sign of the residual at fd."""
    from mpmath import mp, mpf
    with mp.workdps(60):
        s = 1 / mp.sqrt(mpf(fd))
        return s + 2 * mp.log10(mpf(eD) / mpf("3.7") + mpf("2.51") / mpf(Re) * s)


def colebrook_case(Re, eD, which):
    if which == "Clamond":
        if Re < 10:
            return TRIVIAL
        fd = f.Clamond(Re, eD)
        rel = 1e-12 if Re > 2000 else 1e-7
    elif which == "fast":
        if Re < 4000:
            return TRIVIAL
        fd = f.Clamond(Re, eD, True)
        rel = 2e-3
    elif which == "dispatch":
        if Re < f.LAMINAR_TRANSITION_PIPE:
            return TRIVIAL
        fd, rel = f.friction_factor(Re, eD), 1e-12
    elif which == "dispatch Colebrook":
        if Re < f.LAMINAR_TRANSITION_PIPE:
            return TRIVIAL
        fd, rel = f.friction_factor(Re, eD, Method="Colebrook"), 1e-11
    else:
        if Re < 1.0:
            return TRIVIAL
        fd = f.Colebrook(Re, eD, which)
        rel = {None: 1e-11, 0: 1e-12 + 2e-17 * eD * Re, -1: 1e-7 if Re < 2000 else 1e-11, 1e-6: 1e-4, 1e-10: 1e-7}[which]
        if which == -1 and Re <= 10:
            rel = 1e-9
    need(isinstance(fd, float) and fd > 0, "%s(%g, %g) = %r" % (which, Re, eD, fd))
    a, b = residual_sign(fd * (1 - rel), Re, eD), residual_sign(fd * (1 + rel), Re, eD)
    # residual falls with f
    need(a >= 0 >= b, "Colebrook[%s](%.17g, %.17g) = %.17g is not within %g of the root" % (which, Re, eD, fd, rel))
    return fd


def disp_case(Re, eD, M, Darcy):
    got = f.friction_factor(Re, eD, M, Darcy)
    if Re < f.LAMINAR_TRANSITION_PIPE or M == "laminar":
        want = 64.0 / Re
    else:
        own = "Clamond" if M is None else M
        try:
            want = getattr(f, own)(Re, eD)
        except (ValueError, ZeroDivisionError):
            return TRIVIAL
    if isinstance(want, complex):
        return TRIVIAL
    if not Darcy:
        want /= 4
    expect(got, want, 1e-9, 0, "friction_factor(%r, %r, %r, %r)" % (Re, eD, M, Darcy))
    return got


def disp_safe(*a):
    try:
        return disp_case(*a)
    except (ValueError, ZeroDivisionError) as e:
        try:
            getattr(f, a[2])(a[0], a[1])
        except Exception:
            return TRIVIAL
        raise


def listing(Re, eD, check):
    ms = f.friction_factor_methods(Re, eD, check)
    need(len(set(ms)) == len(ms), "duplicate methods %r" % (ms,))
    if check and Re < f.LAMINAR_TRANSITION_PIPE:
        need(ms == ["laminar"], "laminar listing %r" % (ms,))
    else:
        need("Colebrook" in ms and "Clamond" in ms, "listing %r lacks the exact solutions" % (ms,))
        if not check:
            need("laminar" in ms and set(FORM) <= set(ms), "full listing misses %r" % (set(FORM) - set(ms)))
    known = None
    for m in ms:
        if check is False and m not in ("laminar", "Clamond", "Colebrook"):
            continue
        try:
            v = f.friction_factor(Re, eD, m)
        except ZeroDivisionError:
            if m == "Rao_Kumar_2007" and eD == 0:
                known = ("friction_factor_methods lists Rao_Kumar_2007 at eD=0", "Rao_Kumar_2007 is listed for eD=0, where it divides by zero")
                continue
            raise
        need(isinstance(v, float) and (v > 0 or m == "Papaevangelo_2010") or v == 0 and m == "Wood_1966", "friction_factor(%g, %g, %s) = %r" % (Re, eD, m, v))
        if check and m not in ("laminar",) and Re > 4000:
            ex = f.Clamond(Re, eD)
            if abs(v - ex) > 0.45 * ex:
                if m == "Papaevangelo_2010" and close(v, (0.2479 - 0.0000947 * (7 - ln(Re)) ** 4) / lg(eD / 3.615 + 7.366 / Re ** 0.9142) ** 2, 1e-9, 0):
                    known = ("Papaevangelo_2010 natural logarithm", "Papaevangelo_2010 takes ln(Re) where the correlation has log10(Re)")
                    continue
                if m in ("Eck_1973", "Rao_Kumar_2007", "Alshul_1952", "Brkic_2011_1"):       # approximations with no stated range
                    need(abs(v - ex) <= 1.5 * ex, "method %s listed for Re=%g eD=%g gives %g, exact %g" % (m, Re, eD, v, ex))
                    continue
                raise Violation("method %s listed for Re=%g eD=%g gives %g, exact %g" % (m, Re, eD, v, ex))
    if known:
        raise Violation(known[1], key=known[0])
    return sorted(ms)


def cont(n):
    fun = getattr(f, n)

    def case(Re, eD):
        if Re < 2040:
            return TRIVIAL
        try:
            a, b = fun(Re, eD), fun(Re * (1 + 1e-9), eD * (1 + 1e-9))
        except (ValueError, ZeroDivisionError, OverflowError):
            return TRIVIAL
        if isinstance(a, complex) or a > 10 or a == 0 or b == 0:
            return TRIVIAL
        need(abs(a - b) <= 1e-6 * abs(a), "%s jumps at Re=%.12g eD=%.12g: %.12g to %.12g" % (n, Re, eD, a, b))
        return a
    return case


def misc(c):
    k, x = c
    if k == "laminar":
        expect(f.friction_laminar(x), 64 / x, 1e-12, 0, "friction_laminar(%r)" % x)
    elif k == "Blasius":
        expect(f.Blasius(x), 0.3164 / x ** 0.25, 1e-10, 0, "Blasius(%r)" % x)
    elif k == "vonKarman":
        expect(f.von_Karman(x), (-2 * lg(x / 3.7)) ** -2, 1e-10, 0, "von_Karman(%r)" % x)
        # limit of Colebrook at infinite Re
        expect(f.von_Karman(x), f.Colebrook(1e15, x), 1e-4, 0, "von_Karman limit at %r" % x)
    elif k == "PvKN":
        fd = f.Prandtl_von_Karman_Nikuradse(x)
        a, b = residual_sign(fd * (1 - 1e-10), x, 0.0), residual_sign(fd * (1 + 1e-10), x, 0.0)
        need(a >= 0 >= b, "Prandtl_von_Karman_Nikuradse(%r) = %r is not the smooth-pipe root" % (x, fd))
    elif k == "transmission":
        expect(f.transmission_factor(fd=x), 2 / math.sqrt(x), 1e-12, 0, "transmission_factor")
        expect(f.transmission_factor(F=f.transmission_factor(fd=x)), x, 1e-12, 0, "transmission_factor round trip")
    elif k == "Crane":
        v = f.ft_Crane(x)
        # fully turbulent Colebrook-type value in the steel pipe roughness of the documentation
        want = f.Clamond(7.5e6 * x, 3.4126825352925e-5 * x ** -1.0112, x >= 0.01)
        expect(v, want, 1e-9, 0, "ft_Crane(%r)" % x)
    return x


def spaces(tier):
    T = tier == "thorough"
    res = RES + ([10 ** (3.3 + i * 0.05) for i in range(120)] if T else [10 ** (3.3 + i * 0.33) for i in range(20)])
    eds = EDS + ([10 ** (-7 + i * 0.1) for i in range(60)] if T else [10 ** (-6.6 + i * 0.43) for i in range(13)])
    sp = form_spaces()
    sp.append(inv_space("colebrook_root", colebrook_case, {"Re": res, "eD": eds, "which": ["Clamond", "fast", "dispatch", "dispatch Colebrook", None, 0, -1, 1e-6, 1e-10]}))
    meths = list(FORM) + ["Clamond", "Colebrook", "laminar", None]
    sp.append(inv_space("dispatcher", disp_safe, {"Re": RES, "eD": EDS, "Method": meths, "Darcy": [True, False]}, under=[f.friction_factor], bounds={"Re": (1.0, 1e9), "eD": (0.0, 0.1)}))
    sp.append(inv_space("listing", listing, {"Re": RES[2:], "eD": EDS, "check": [True, False]}, under=[f.friction_factor_methods], bounds={"Re": (1.0, 1e9), "eD": (0.0, 0.1)}))
    for n in [k for k in FORM if k != "Tsal_1989"] + ["Clamond", "Colebrook"]:
        sp.append(inv_space("continuity_" + n, cont(n), {"Re": res, "eD": EDS[1:]}, under=[getattr(f, n)], bounds={"Re": (2040.0, 1e9), "eD": (1e-9, 0.1)}))
    sp.append(Space("simple", lambda: [(k, x) for k, xs in (("laminar", RES), ("Blasius", RES), ("vonKarman", EDS[1:]), ("PvKN", [r for r in res if r > 100]),
                                                             ("transmission", [1e-3, 0.0185, 0.2, 5.0]), ("Crane", [1e-3, 5e-3, 0.0099, 0.01, 0.0101, 0.03, 0.1, 0.5, 2.0]))
                                       for x in xs], misc))
    sp.append(conform_space("model", ["friction"], only={"friction." + n for n in list(FORM) + [
        "Blasius", "Clamond", "Colebrook", "friction_factor", "friction_factor_methods", "friction_laminar", "ft_Crane", "von_Karman",
        "Prandtl_von_Karman_Nikuradse", "transmission_factor"]}, tier=tier))
    return sp
