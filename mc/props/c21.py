"""C21: curved pipe and plate friction, roughness tables, one-phase pressure drops."""
import math

from ..core import Space, Violation, need, expect, attempt, close, TRIVIAL
from ..grid import ref_space, inv_space, Skip, Rejects
from ..conform import conform_space
import fluids.friction as f

RULE = ("every point of the Re x diameters x roughness lattice (declared values plus the constants the current source compares with) x every "
        "method and flag; every entry of the roughness tables x every option; plus the conformance lattice of the group")
ASSUMPTIONS = ["published formulas transcribed from the documentation", "the straight-pipe factor inside the curved-pipe formulas is the library's (decided by C20)"]
ln, lg, sq = math.log, math.log10, math.sqrt

RES = [1.0, 30.0, 500.0, 1999.0, 2000.0, 2039.9, 2100.0, 5e3, 9e3, 2.1e4, 2.2e4, 2.3e4, 1e5, 1e6, 1e7]
DI = [0.005, 0.02, 0.1]
DC = [0.05, 0.2, 1.0, 10.0, 300.0]
EPS = [0.0, 1e-6, 1e-4]


def De(Re, Di, Dc):
    return Re * sq(Di / Dc)


def fdl(Re):
    return 64 / Re


def ff(Re, e, Di):
    return f.friction_factor(Re=Re, eD=e / Di)


LAM = {
    "White": ("helical_laminar_fd_White", lambda R, a, D: fdl(R) if De(R, a, D) < 11.6 else fdl(R) / (1 - (1 - (11.6 / De(R, a, D)) ** 0.45) ** (1 / 0.45))),
    "Mori Nakayama laminar": ("helical_laminar_fd_Mori_Nakayama", lambda R, a, D: fdl(R) * 1.405296 if De(R, a, D) < 42.328036 else
                              fdl(R) * 0.108 * sq(De(R, a, D)) / (1 - 3.253 / sq(De(R, a, D)))),
    "Schmidt laminar": ("helical_laminar_fd_Schmidt", lambda R, a, D: fdl(R) * (1 + 0.14 * (a / D) ** 0.97 * R ** (1 - 0.644 * (a / D) ** 0.312))),
}
TUR = {
    "Schmidt turbulent": ("helical_turbulent_fd_Schmidt", True, lambda R, a, D, e: ff(R, e, a) * (1 + 28800 / R * (a / D) ** 0.62 if R < 2.2e4 else
                                                                                                 1 + 0.0823 * (1 + a / D) * (a / D) ** 0.53 * R ** 0.25)),
    "Mori Nakayama turbulent": ("helical_turbulent_fd_Mori_Nakayama", False, lambda R, a, D, e: 0.3 * (D / a) ** -0.5 * (R * (a / D) ** 2) ** -0.2 * (1 + 0.112 * (R * (a / D) ** 2) ** -0.2)),
    "Prasad": ("helical_turbulent_fd_Prasad", True, lambda R, a, D, e: ff(R, e, a) * (1 + 0.18 * (R * (a / D) ** 2) ** 0.25)),
    "Czop": ("helical_turbulent_fd_Czop", False, lambda R, a, D, e: 0.096 * De(R, a, D) ** -0.1517),
    "Guo": ("helical_turbulent_fd_Guo", False, lambda R, a, D, e: 0.638 * R ** -0.15 * (a / D) ** 0.51),
    "Ju": ("helical_turbulent_fd_Ju", True, lambda R, a, D, e: ff(R, e, a) * (1 + 0.11 * R ** 0.23 * (a / D) ** 0.14)),
    "Mandal Nigam": ("helical_turbulent_fd_Mandal_Nigam", True, lambda R, a, D, e: ff(R, e, a) * (1 + 0.03 * De(R, a, D) ** 0.27)),
    "Srinivasan turbulent": ("helical_turbulent_fd_Srinivasan", False, lambda R, a, D, e: 0.336 / De(R, a, D) ** 0.2),
}
CRIT = {
    "Seth Stahel": ("helical_transition_Re_Seth_Stahel", lambda a, D: 1900 * (1 + 8 * sq(a / D))),
    "Ito": ("helical_transition_Re_Ito", lambda a, D: 20000 * (a / D) ** 0.32),
    "Kubair Kuloor": ("helical_transition_Re_Kubair_Kuloor", lambda a, D: 12730 * (a / D) ** 0.2),
    "Kutateladze Borishanskii": ("helical_transition_Re_Kutateladze_Borishanskii", lambda a, D: 2300 + 10500 * (a / D) ** 0.3),
    "Schmidt": ("helical_transition_Re_Schmidt", lambda a, D: 2300 * (1 + 8.6 * (a / D) ** 0.45)),
    "Srinivasan": ("helical_transition_Re_Srinivasan", lambda a, D: 2100 * (1 + 12 * sq(a / D))),
}


def curved(Re, Di, Dc, e, Method, Rec, lam, tur, Darcy):
    """Re may be ('crit', k): k times the critical Reynolds number."""
    crit = CRIT[Rec][1](Di, Dc)
    if isinstance(Re, tuple):
        Re = crit * Re[1]
    kw = {}
    if Rec != "Schmidt":
        kw["Rec_method"] = Rec
    if lam != "Schmidt laminar":
        kw["laminar_method"] = lam
    if tur != "Schmidt turbulent":
        kw["turbulent_method"] = tur
    if not Darcy:
        kw["Darcy"] = False
    got = f.friction_factor_curved(Re, Di, Dc, roughness=e, Method=Method, **kw)
    M = Method or (lam if Re < crit else tur)
    want = LAM[M][1](Re, Di, Dc) if M in LAM else TUR[M][2](Re, Di, Dc, e)
    if not Darcy:
        want /= 4
    expect(got, want, 1e-9, 0, "friction_factor_curved(%r, %r, %r, %r, %r, %s)" % (Re, Di, Dc, e, Method, kw))
    need(got > 0, "not positive")
    if Method is None and Rec == "Schmidt":
        ms = f.friction_factor_curved_methods(Re, Di, Dc, e, True)
        need(sorted(ms) == sorted(LAM if Re < crit else TUR), "listing at Re=%r (critical %r): %r" % (Re, crit, ms))
        ms = f.friction_factor_curved_methods(Re, Di, Dc, e, False)
        need(sorted(ms) == sorted(list(LAM) + list(TUR)), "full listing %r" % (ms,))
    return got


def limit(Re, Di, name):
    """A very large coil is a straight pipe (formulas that multiply a straight factor); more curvature, more friction."""
    fn = getattr(f, (LAM.get(name) or TUR[name])[0])
    straight = 64 / Re if name in LAM else f.friction_factor(Re=Re, eD=0)
    a = fn(Re, Di, Di * 1e60)
    if name in ("White", "Schmidt laminar", "Schmidt turbulent", "Prasad", "Mandal Nigam", "Ju"):
        tol = {"Ju": 1e-5}.get(name, 1e-4)
        need(close(a, straight, tol, 0), "%s at Re=%g in a straight pipe: %r, straight factor %r" % (name, Re, a, straight))
    last = None
    for k in (2000.0, 200.0, 40.0, 10.0, 4.0):
        v = fn(Re, Di, Di * k)
        if name not in ("Mori Nakayama laminar",):
            need(last is None or v >= last * (1 - 1e-9) or name == "Czop", "%s: friction falls with curvature at Re=%g" % (name, Re)) if name not in ("Czop", "Srinivasan turbulent") and not (name == "Mori Nakayama turbulent" and Re < 1e4) and not (name in LAM and Re > 1e4) else None
        last = v
    return a


def kumar(Re, b):
    # coefficient table of the documentation
    for lim, rows in ((30, ((10, 50.0, 1.0), (100, 19.4, 0.589), (None, 2.99, 0.183))), (45, ((15, 47.0, 1.0), (300, 18.29, 0.652), (None, 1.441, 0.206))),
                      (50, ((20, 34.0, 1.0), (300, 11.25, 0.631), (None, 0.772, 0.161))), (60, ((40, 24.0, 1.0), (400, 3.24, 0.457), (None, 0.76, 0.215))),
                      (None, ((50, 24.0, 1.0), (500, 2.8, 0.451), (None, 0.639, 0.213)))):
        if lim is None or b <= lim:
            for R, C, p in rows:
                if R is None or Re <= R:
                    return 4 * C * Re ** -p


def martin99(Re, b):
    p = math.radians(b)
    f0, f1 = (16 / Re, 149 / Re + 0.9625) if Re < 2000 else ((1.56 * ln(Re) - 3) ** -2, 9.75 / Re ** 0.289)
    r = math.cos(p) / sq(0.045 * math.tan(p) + 0.09 * math.sin(p) + f0 / math.cos(p)) + (1 - math.cos(p)) / sq(3.8 * f1)
    return 4 * r ** -2


def martinvdi(Re, b):
    p = math.radians(b)
    f0, f1 = (64 / Re, 597 / Re + 3.85) if Re < 2000 else ((1.8 * lg(Re) - 1.5) ** -2, 39 / Re ** 0.289)
    r = math.cos(p) / sq(0.18 * math.tan(p) + 0.36 * math.sin(p) + f0 / math.cos(p)) + (1 - math.cos(p)) / sq(3.8 * f1)
    return r ** -2


def muley(Re, b, p):
    return 4 * (2.917 - 0.1277 * b + 2.016e-3 * b ** 2) * (5.474 - 19.02 * p + 18.93 * p ** 2 - 5.341 * p ** 3) * Re ** -(0.2 + 0.0577 * math.sin(math.pi * b / 45 + 2.1))


def rough_cases():
    import rfluids.friction as r
    for name in list(r._roughness) + list(r.HHR_roughness):
        for opt in (None, True, False):
            yield "std", name, None, opt
    for name in r._Farshad_roughness:
        for D in (None, 0.02, 0.05, 0.3, 1.1):
            yield "far", name, D, None


def rough_case(c):
    import rfluids.friction as r
    kind, name, D, opt = c
    got = f.material_roughness(name, D=D, optimism=opt)
    if kind == "far":
        e0, A, B = r._Farshad_roughness[name]
        want = e0 if D is None else A * (D / 0.0254) ** (B + 1) * 0.0254
        expect(f.roughness_Farshad(name, D), want, 1e-12, 0, "roughness_Farshad(%r, %r)" % (name, D))
        if D is not None:
            expect(f.roughness_Farshad(None, D, (A, B)), want, 1e-12, 0, "roughness_Farshad coefficients")
    elif name in r._roughness:
        want = r._roughness[name]
    else:
        lo, hi, av = r.HHR_roughness[name]
        order = {None: (av, hi, lo), True: (lo, av, hi), False: (hi, av, lo)}[opt]
        want = next(x for x in order if x)
    expect(got, want, 1e-12, 0, "material_roughness(%r, D=%r, optimism=%r)" % (name, D, opt))
    if kind == "std":
        need(f.nearest_material_roughness(name, clean=None) == name, "nearest_material_roughness(%r) = %r" % (name, f.nearest_material_roughness(name, clean=None)))
    return got


def dP(m, rho, mu, D, e, L, M):
    V = m / (math.pi / 4 * D * D * rho)
    Re = rho * V * D / mu
    return f.friction_factor(Re=Re, eD=e / D, Method=M) * L / D * rho * V * V / 2


def dP_call(m, rho, mu, D, e, L, M):
    return f.one_phase_dP(m, rho, mu, D, e, L, M)


def acc(m, D, ro, ri, Di):
    Di = D if Di is None else Di
    vo, vi = m / ro / (math.pi / 4 * D * D), m / ri / (math.pi / 4 * Di * Di)
    return (ro + ri) / 4 * (vo * vo - vi * vi)


def accz(m, D, rho, dv, dp, dA):
    A = math.pi / 4 * D * D
    return -(m / A) ** 2 * (dp * dv - dA / (rho * A))


def spaces(tier):
    T = tier == "thorough"
    sp = []
    for n, (fn, g) in LAM.items():
        sp.append(ref_space(fn, getattr(f, fn), g, {"Re": RES, "Di": DI, "Dc": DC}, under=[getattr(f, fn)]))
    for n, (fn, rough, g) in TUR.items():
        if rough:
            sp.append(ref_space(fn, getattr(f, fn), g, {"Re": RES, "Di": DI, "Dc": DC, "e": EPS}, under=[getattr(f, fn)]))
        else:
            sp.append(ref_space(fn, getattr(f, fn), lambda R, a, D, g=g: g(R, a, D, 0), {"Re": RES, "Di": DI, "Dc": DC}, under=[getattr(f, fn)]))
    for n, (fn, g) in CRIT.items():
        sp.append(ref_space(fn, getattr(f, fn), g, {"Di": DI, "Dc": DC}, hv=False))
        sp.append(ref_space("helical_Re_crit_" + n.split()[0], lambda a, D, n=n: f.helical_Re_crit(a, D, n), g, {"Di": DI, "Dc": DC}, hv=False))
    crits = [("crit", 0.3), ("crit", 1 - 1e-9), ("crit", 1 + 1e-9), ("crit", 2.0), 500.0, 1e5]
    sp.append(inv_space("friction_factor_curved", curved,
                        {"Re": crits, "Di": [0.02, 0.1] if not T else DI, "Dc": [0.2, 1.0, 30.0], "e": [0.0, 1e-4], "Method": [None] + list(LAM) + list(TUR),
                         "Rec": list(CRIT), "lam": list(LAM), "tur": list(TUR) if T else ["Schmidt turbulent", "Prasad", "Czop", "Srinivasan turbulent"], "Darcy": [True, False]}))
    sp.append(Space("curved_rejects", lambda: [("M", "nope"), ("R", "nope"), ("T", "nope")], lambda c: need(
        not attempt(f.friction_factor_curved, 1e5, 0.02, 0.5, **{"MRT" and {"M": "Method", "R": "Rec_method", "T": "turbulent_method"}[c[0]]: c[1]})[0],
        "unknown curved method accepted")))
    sp.append(inv_space("straight_limit", limit, {"Re": [100.0, 1000.0, 5e3, 3e4, 1e6], "Di": DI, "name": list(LAM) + list(TUR)}))
    PRE = [5.0, 10.0, 15.0, 20.0, 40.0, 50.0, 99.0, 150.0, 300.0, 350.0, 400.0, 450.0, 500.0, 600.0, 1500.0, 1999.0, 2000.0, 2500.0, 2e4]
    B = [5.0, 29.0, 30.0, 31.0, 44.0, 45.0, 46.0, 50.0, 55.0, 60.0, 62.0, 65.0, 70.0, 80.0]
    sp.append(ref_space("friction_plate_Kumar", f.friction_plate_Kumar, kumar, {"Re": PRE, "chevron": B}))
    sp.append(ref_space("friction_plate_Martin_1999", f.friction_plate_Martin_1999, martin99, {"Re": PRE, "chevron": B}))
    sp.append(ref_space("friction_plate_Martin_VDI", f.friction_plate_Martin_VDI, martinvdi, {"Re": PRE, "chevron": B}))
    sp.append(ref_space("friction_plate_Muley_Manglik", f.friction_plate_Muley_Manglik, muley, {"Re": PRE, "chevron": B, "phi": [1.0, 1.15, 1.29, 1.5]}))
    sp.append(Space("roughness", lambda: list(rough_cases()), rough_case))
    ms = [0.001, 0.02, 1.3, 60.0, -2.0]
    sp.append(ref_space("one_phase_dP", dP_call, dP, {"m": ms[:4], "rho": [1.2, 900.0], "mu": [1.8e-5, 1e-3, 0.5], "D": [0.01, 0.07, 0.5], "e": [0.0, 1e-5, 1e-3],
                                                     "L": [0.0, 1.0, 250.0], "M": [None, "Clamond", "Haaland", "Colebrook"]}))
    sp.append(ref_space("one_phase_dP_acceleration", f.one_phase_dP_acceleration, acc, {"m": ms, "D": [0.05, 0.4], "ro": [1.0, 827.1, 900.0], "ri": [1.0, 827.1, 850.0], "Di": [None, 0.05, 0.07]},
                        hv=False, atol=1e-9))
    sp.append(ref_space("one_phase_dP_dz_acceleration", f.one_phase_dP_dz_acceleration, accz, {"m": ms, "D": [0.05, 0.4], "rho": [1.0, 827.1], "dv": [-1.1e-5, 0.0, 2e-6],
                                                                                            "dp": [-2e5, 0.0, 30.0], "dA": [0.0, 1e-4, -0.02]}, hv=False))
    sp.append(ref_space("one_phase_dP_gravitational", f.one_phase_dP_gravitational, lambda a, rho, L, g: g * L * rho * math.sin(math.radians(a)),
                        {"angle": [-90.0, -30.0, 0.0, 7.0, 45.0, 90.0], "rho": [2.6, 998.0], "L": [0.0, 1.0, 4.0], "g": [9.80665, 1.6]}, hv=False, atol=1e-12))
    sp.append(conform_space("model", ["friction"], only={"friction." + n for n in [a for a, _ in LAM.values()] + [a[0] for a in TUR.values()] + [a for a, _ in CRIT.values()] + [
        "helical_Re_crit", "friction_factor_curved", "friction_factor_curved_methods", "friction_plate_Kumar", "friction_plate_Martin_1999", "friction_plate_Martin_VDI",
        "friction_plate_Muley_Manglik", "roughness_Farshad", "one_phase_dP", "one_phase_dP_acceleration", "one_phase_dP_dz_acceleration", "one_phase_dP_gravitational"]}, tier=tier))
    return sp
