"""C17: functions that solve for whichever variable is left out."""
import itertools
import math

import fluids
import fluids.compressible as c
import fluids.control_valve as cv
import fluids.core as core
import fluids.friction as fr
import fluids.geometry as geo
import fluids.open_flow as of
import fluids.piping  # noqa: F401

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
from . import c25, c28

RULE = ("every pipeline equation x gas x conditions x diameter x length x pressure ratio, solved for each of its five variables; every subset of the five variables given; "
        "the same for every other function that takes all but one of its variables; non-trivial when the forward call returns a value")
ASSUMPTIONS = ["the outlet pressure is below the inlet pressure and the flow is not choked", "pipe diameters of 20 mm to 2 m"]

MI, INCH, FT, LB, PSI = 1609.344, 0.0254, 0.3048, 0.45359237, 6894.757293168361
MUU = LB / FT          # lb/(ft s)


# Published forms in their own customary units, from the cited references.
def _metric(lead, c1, c2, c3, c4):
    """Q [m3/d] = lead E (Ts/Ps)^c1 [(P1^2-P2^2)/(L SG^c2 Tavg Z)]^c3 D^c4 in kPa, km, mm"""
    def f(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E):
        return lead / 86400.0 * E * (Ts / (Ps / 1e3)) ** c1 * ((P1 * P1 - P2 * P2) / 1e6 / (L / 1e3 * SG ** c2 * T * Z)) ** c3 * (D * 1e3) ** c4
    return f


def _spitz_h(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E):
    return 125.1060 * E * Ts / Ps * math.sqrt((P1 * P1 - P2 * P2) / (L * SG * T * Z * (1 + 0.09144 / D + 150.0 / 127 * D))) * D ** 2.5


def _spitz_l(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E):
    return 125.1060 * E * Ts / Ps * math.sqrt(2 * (P1 - P2) * (Ps + 1210) / (L * SG * T * Z * (1 + 0.09144 / D + 150.0 / 127 * D))) * D ** 2.5


def _oli(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E):
    d = D / INCH
    q = 42 * 24 * (d ** 2.5 + d ** 3 / 30) * (14.4 / (Ps / PSI)) * (Ts * 1.8 / 520) * math.sqrt(0.6 / SG * 520 / (T * 1.8) * (P1 * P1 - P2 * P2) / PSI ** 2 / (L / MI))
    return q * FT ** 3 / 86400          # 42 gal... per day: the leading 42 x 24 gives ft3/day


def _thousand(lead, c2, c3, c4, c1):
    """1000 ft3/h, inches, psi, feet, Rankine, lb/ft/s"""
    def f(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E):
        q = lead * (Ts * 1.8) / (Ps / PSI) * E * ((P1 * P1 - P2 * P2) / PSI ** 2 / (T * 1.8 * L / FT * Z)) ** c2 * (D / INCH) ** c3 / (SG ** c4 * (mu / MUU) ** c1)
        return q * 1e3 * FT ** 3 / 3600
    return f


LINES = {
    # name: (takes viscosity, default E, reference, tolerance)
    "Panhandle_A": (0, .92, _metric(4.5965e-3, 1.0788, .8539, .5394, 2.6182), 2e-5),
    "Panhandle_B": (0, .92, _metric(1.002e-2, 1.02, .961, .51, 2.53), 1e-4),
    "Weymouth": (0, .92, _metric(3.7435e-3, 1, 1, .5, 2.667), 2e-5),
    "Spitzglass_high": (0, 1.0, _spitz_h, 1e-6),
    "Spitzglass_low": (0, 1.0, _spitz_l, 1e-6),
    "Oliphant": (0, .92, _oli, 1e-4),
    "Fritzsche": (0, 1.0, None, 0),
    "Muller": (1, 1.0, _thousand(.4937, .575, 2.725, .425, .15), 2e-4),
    "IGT": (1, 1.0, _thousand(.6643, 5 / 9., 8 / 3., 4 / 9., 1 / 9.), 2e-4),
}
VARS = ("Q", "D", "P1", "P2", "L")


def fritz(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E):
    return 93.500 * E * Ts / Ps * ((P1 * P1 - P2 * P2) / (SG ** .8587 * T * L * Z)) ** .538 * D ** 2.69


def line(name, D, L, P1, x, gas, std):
    """one pipeline state: x = P2/P1"""
    f = getattr(c, name)
    visc, E0, ref, tol = LINES[name]
    SG, T, mu, Z, E = gas
    Ts, Ps = std
    P2 = P1 * x
    base = dict(SG=SG, Tavg=T)
    if visc:
        base["mu"] = mu
    if name != "Oliphant":
        base.update(Zavg=Z, E=E)
    base.update(Ts=Ts, Ps=Ps)
    Q = f(D=D, L=L, P1=P1, P2=P2, **base)
    what = "%s(D=%r, L=%r, P1=%r, P2=%r, %r)" % (name, D, L, P1, P2, base)
    need(Q > 0 and math.isfinite(Q), what + " gave %r" % Q)
    if ref is None:
        expect(Q, fritz(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E), 1e-5, 0, what)
    else:
        expect(Q, ref(SG, T, mu, L, D, P1, P2, Ts, Ps, Z, E), tol, 0, what)
    full = dict(Q=Q, D=D, P1=P1, P2=P2, L=L)
    for v in VARS[1:]:
        given = {k: w for k, w in full.items() if k != v}
        ok, got = attempt(f, **base, **given)
        need(ok, "%s with %s left out raised %s (answer %r)" % (what, v, got, full[v]))
        # an ill-conditioned unknown: P1 when P1 is nearly P2 etc. is fine, the defect cancels
        t = 1e-8
        if v in ("P1", "P2") and x < 1e-3:
            t = 1e-4 if v == "P2" else 1e-8
        if v == "P2" and x < 0.05:
            t = max(t, 1e-11 / x / x)
        expect(got, full[v], t, 0, "%s with %s left out" % (what, v), )
    # positional order of the variables: L, D, P1, P2, Q
    pos = [SG, T] + ([mu] if visc else [])
    kw = {k: v for k, v in base.items() if k not in ("SG", "Tavg", "mu")}
    expect(f(*(pos + [L, D, P1, P2]), **kw), Q, 1e-13, 0, what + " positionally")
    return Q


def line_default(name, D, L, P1, x):
    f = getattr(c, name)
    visc, E0, ref, tol = LINES[name]
    base = dict(SG=.65, Tavg=300.0)
    if visc:
        base["mu"] = 1.1e-5
    a = f(D=D, L=L, P1=P1, P2=P1 * x, **base)
    full = dict(base, Ts=288.7, Ps=101325.0, Zavg=1.0, E=E0)
    expect(f(D=D, L=L, P1=P1, P2=P1 * x, **full), a, 1e-13, 0, name + ": documented defaults Ts=288.7, Ps=101325, Zavg=1, E=%r" % E0)
    # monotone: more flow for a larger bore, a shorter line, a lower outlet pressure
    need(f(D=D * 1.01, L=L, P1=P1, P2=P1 * x, **base) > a, name + ": flow does not grow with diameter")
    need(f(D=D, L=L * 1.01, P1=P1, P2=P1 * x, **base) < a, name + ": flow does not fall with length")
    need(f(D=D, L=L, P1=P1, P2=P1 * x * .999, **base) > a, name + ": flow does not grow as the outlet pressure falls")
    need(f(D=D, L=L, P1=P1 * 1.01, P2=P1 * x, **base) > a, name + ": flow does not grow with the inlet pressure")
    return a


def line_subsets(name, given):
    f = getattr(c, name)
    base = dict(SG=.65, Tavg=300.0)
    if LINES[name][0]:
        base["mu"] = 1.1e-5
    vals = dict(D=.34, L=160e3, P1=90e5, P2=20e5)
    vals["Q"] = f(**base, **vals)
    ok, r = attempt(f, **base, **{k: vals[k] for k in given})
    if len(given) == 4:
        need(ok, "%s given %s: %r" % (name, given, r))
        miss = [k for k in VARS if k not in given][0]
        expect(r, vals[miss], 1e-8, 0, "%s given %s" % (name, given))
        return r
    need(not ok and r == "ValueError", "%s given %s: %r instead of a ValueError" % (name, given, r))
    return "!" + r


# ------------------------------------------------------------------ other functions
def iso(fd, D, L, P1, x, rho):
    P2 = P1 * x
    Pc = c.P_isothermal_critical_flow(P=P1, fd=fd, D=D, L=L)
    if P2 < Pc * 1.0005:
        return TRIVIAL
    what = "isothermal_gas(rho=%r, fd=%r, P1=%r, P2=%r, L=%r, D=%r)" % (rho, fd, P1, P2, L, D)
    m = c.isothermal_gas(rho=rho, fd=fd, P1=P1, P2=P2, L=L, D=D)
    want = math.sqrt((math.pi / 4 * D * D) ** 2 * rho / (P1 * (fd * L / D + 2 * math.log(P1 / P2))) * (P1 * P1 - P2 * P2))
    expect(m, want, 1e-11, 0, what)
    full = dict(P1=P1, P2=P2, L=L, D=D, m=m)
    for v in ("P1", "P2", "L", "D"):
        given = {k: w for k, w in full.items() if k != v}
        ok, got = attempt(c.isothermal_gas, rho=rho, fd=fd, **given)
        need(ok, "%s with %s left out raised %s" % (what, v, got))
        back = dict(given, **{v: got})
        del back["m"]
        okb, mb = attempt(c.isothermal_gas, rho=rho, fd=fd, **back)
        if not okb:
            # the answer may sit a rounding error beyond the choking point
            need(abs(got / full[v] - 1) < 1e-5, "%s with %s left out gave %r, which the forward call rejects" % (what, v, got))
            continue
        expect(mb, m, 1e-6, 0, "%s with %s left out gave %r" % (what, v, got))
    return m


ISO_VARS = ("P1", "P2", "L", "D", "m")


def iso_subsets(given):
    vals = dict(P1=1e6, P2=9e5, L=1000.0, D=.5)
    vals["m"] = c.isothermal_gas(rho=11.3, fd=.00185, **vals)
    ok, r = attempt(c.isothermal_gas, rho=11.3, fd=.00185, **{k: vals[k] for k in given})
    if len(given) == 4:
        need(ok, "isothermal_gas given %s: %r" % (given, r))
        expect(r, vals[[k for k in ISO_VARS if k not in given][0]], 1e-7, 0, "isothermal_gas given %s" % (given,))
        return r
    need(not ok and r == "ValueError", "isothermal_gas given %s: %r instead of a ValueError" % (given, r))
    return "!" + r


def comp_subsets(given):
    vals = dict(P1=1e5, P2=4e5, eta=.78)
    vals["W"] = c.isentropic_work_compression(T1=300.0, k=1.4, **vals)
    ok, r = attempt(c.isentropic_work_compression, T1=300.0, k=1.4, **{k: vals[k] for k in given})
    if len(given) == 3:
        need(ok, "isentropic_work_compression given %s: %r" % (given, r))
        expect(r, vals[[k for k in ("P1", "P2", "W", "eta") if k not in given][0]], 1e-9, 0, "isentropic_work_compression given %s" % (given,))
        return r
    need(not ok and r == "ValueError", "isentropic_work_compression given %s: %r instead of a ValueError" % (given, r))
    return "!" + r


def eff_subsets(fn, given):
    vals = dict(isentropic_efficiency=dict(eta_s=.78, eta_p=.8), polytropic_exponent=dict(n=1.5, eta_p=.8))[fn]
    f = getattr(c, fn)
    base = dict(k=1.4)
    if fn == "isentropic_efficiency":
        base.update(P1=1e5, P2=5e5)
    ok, r = attempt(f, **base, **{k: vals[k] for k in given})
    if len(given) == 1:
        need(ok, "%s given %s: %r" % (fn, given, r))
        other = [k for k in vals if k not in given][0]
        expect(f(**base, **{other: r}), vals[given[0]], 1e-10, 0, "%s given %s and back" % (fn, given))
        return r
    need(not ok and r == "ValueError", "%s given %s: %r instead of a ValueError" % (fn, given, r))
    return "!" + r


def pitch(angle, p):
    a = math.radians(angle)
    full = dict(angle=angle, pitch=p, pitch_parallel=p * math.cos(a), pitch_normal=p * math.sin(a))
    outs = []
    for n in range(5):
        for given in itertools.combinations(("angle", "pitch", "pitch_parallel", "pitch_normal"), n):
            ok, r = attempt(geo.pitch_angle_solver, **{k: full[k] for k in given})
            if n < 2:
                need(not ok and r == "ValueError", "pitch_angle_solver given %s: %r" % (given, r))
                continue
            if angle == 0 and "pitch_normal" in given and "pitch" not in given or angle == 90 and given == ("angle", "pitch_parallel"):
                continue
            need(ok, "pitch_angle_solver given %s of %r: %r" % (given, full, r))
            for k, g in zip(("angle", "pitch", "pitch_parallel", "pitch_normal"), r):
                expect(g, full[k], 1e-7, 1e-6 if k == "angle" else 1e-7 * p, "pitch_angle_solver given %s of %r: %s" % (given, full, k))
            outs.append(r)
    return outs


def choke(kind, P1, a, b):
    if kind == "g":
        P2 = cv.control_valve_choke_P_g(xT=a, gamma=b, P1=P1)
        expect(P2, P1 * (1 - b / 1.4 * a), 1e-12, 1e-12 * P1, "control_valve_choke_P_g(xT=%r, gamma=%r, P1=%r)" % (a, b, P1))
        if P2 > 0:
            expect(cv.control_valve_choke_P_g(xT=a, gamma=b, P2=P2), P1, 1e-9, 0, "control_valve_choke_P_g inverts")
        for extra in ({}, dict(P1=P1, P2=P2)):
            ok, r = attempt(cv.control_valve_choke_P_g, xT=a, gamma=b, **extra)
            need(not ok and r == "ValueError", "control_valve_choke_P_g given %r: %r" % (sorted(extra), r))
        return P2
    Psat, FL = a
    Pc = b
    FF = .96 - .28 * math.sqrt(Psat / Pc)
    ok, P2 = attempt(cv.control_valve_choke_P_l, Psat, Pc, FL, P1=P1)
    want = FF * FL * FL * Psat - FL * FL * P1 + P1
    if want > P1 * (1 + 1e-9):
        need(not ok and P2 == "ValueError", "control_valve_choke_P_l(%r, %r, %r, P1=%r) where choking is impossible: %r" % (Psat, Pc, FL, P1, P2))
    elif want < P1 * (1 - 1e-9):
        need(ok, "control_valve_choke_P_l(%r, %r, %r, P1=%r): %r" % (Psat, Pc, FL, P1, P2))
        expect(P2, want, 1e-11, 1e-11 * P1, "control_valve_choke_P_l(%r, %r, %r, P1=%r)" % (Psat, Pc, FL, P1))
    P2 = cv.control_valve_choke_P_l(Psat, Pc, FL, P1=P1, check_choking=False)
    expect(P2, want, 1e-11, 1e-11 * P1, "control_valve_choke_P_l unchecked")
    if FL < 1:
        expect(cv.control_valve_choke_P_l(Psat, Pc, FL, P2=P2, check_choking=False), P1, 1e-8, 0, "control_valve_choke_P_l inverts")
    for extra in ({}, dict(P1=P1, P2=P2)):
        ok, r = attempt(cv.control_valve_choke_P_l, Psat, Pc, FL, **extra)
        need(not ok and r == "ValueError", "control_valve_choke_P_l given %r: %r" % (sorted(extra), r))
    return P2


def simple(x, y, z):
    """Elementary pairs: pressure and head, viscosities, resistance coefficients and lengths, transmission factor, valve coefficients."""
    P = core.P_from_head(x * 10, y * 1000)
    expect(P, x * 10 * y * 1000 * 9.80665, 1e-12, 0, "P_from_head(%r, %r)" % (x * 10, y * 1000))
    expect(core.head_from_P(P, y * 1000), x * 10, 1e-12, 0, "head_from_P inverts P_from_head")
    expect(core.head_from_P(core.P_from_head(x, y, 1.62), y, g=1.62), x, 1e-12, 0, "head_from_P inverts P_from_head, other gravity")
    K = x * z
    h = core.head_from_K(K, y)
    expect(h, K * y * y / (2 * 9.80665), 1e-12, 0, "head_from_K(%r, %r)" % (K, y))
    expect(core.P_from_head(h, z), core.dP_from_K(K, z, y), 1e-12, 0, "dP_from_K is rho g head_from_K")
    expect(core.K_from_f(x, y, z), x * y / z, 1e-12, 0, "K_from_f")
    expect(core.L_from_K(core.K_from_f(x, y, z), z, x), y, 1e-12, 0, "L_from_K inverts K_from_f")
    expect(core.f_from_K(core.K_from_f(x, y, z), y, z), x, 1e-12, 0, "f_from_K inverts K_from_f")
    expect(core.K_from_L_equiv(x, y), x * y, 1e-12, 0, "K_from_L_equiv")
    expect(core.L_equiv_from_K(core.K_from_L_equiv(x, y), y), x, 1e-12, 0, "L_equiv_from_K inverts")
    nu = core.nu_mu_converter(rho=y, mu=x)
    expect(nu, x / y, 1e-13, 0, "nu_mu_converter(mu)")
    expect(core.nu_mu_converter(rho=y, nu=nu), x, 1e-13, 0, "nu_mu_converter(nu)")
    for extra in ({}, dict(mu=x, nu=nu)):
        ok, r = attempt(core.nu_mu_converter, rho=y, **extra)
        need(not ok and r == "ValueError", "nu_mu_converter given %r: %r" % (sorted(extra), r))
    F = fr.transmission_factor(fd=x)
    expect(F, 2 / math.sqrt(x), 1e-12, 0, "transmission_factor(fd)")
    expect(fr.transmission_factor(F=F), x, 1e-12, 0, "transmission_factor(F)")
    ok, r = attempt(fr.transmission_factor)
    need(not ok and r == "ValueError", "transmission_factor(): %r" % r)
    ff = fluids.fittings
    D = z * .05
    for to, fro in (("K_to_Kv", "Kv_to_K"), ("K_to_Cv", "Cv_to_K")):
        expect(getattr(ff, fro)(getattr(ff, to)(x * 10, D), D), x * 10, 1e-11, 0, "%s inverts %s" % (fro, to))
    expect(ff.Kv_to_Cv(ff.Cv_to_Kv(x)), x, 1e-12, 0, "Kv_to_Cv inverts Cv_to_Kv")
    # channel coefficients and velocities
    n, Rh, S = .03 * x, y, .001 * z
    C = of.n_Manning_to_C_Chezy(n, Rh)
    expect(of.C_Chezy_to_n_Manning(C, Rh), n, 1e-12, 0, "C_Chezy_to_n_Manning inverts")
    expect(of.V_Chezy(Rh, S, C), of.V_Manning(Rh, S, n), 1e-11, 0, "V_Chezy and V_Manning with converted coefficients")
    V = of.V_Manning(Rh, S, n)
    expect(V, Rh ** (2 / 3.) * math.sqrt(S) / n, 1e-12, 0, "V_Manning")
    return P


def named(mod, space, name, tier):
    s = [s for s in mod.spaces(tier) if s.name == space][0]
    s.name = name
    return s


def spaces(tier):
    T = tier == "thorough"
    gases = [(.65, 300.0, 1.1e-5, 1.0, .92), (.6, 288.7, 1.0e-5, .87, 1.0), (1.5, 410.0, 2.2e-5, .6, .75)]
    stds = [(288.7, 101325.0), (273.15, 1e5)]
    Ds = [.02, .05, .1, .34, .5, 1.0, 2.0] if T else [.02, .1, .34, 1.0, 2.0]
    Ls = [1.0, 100.0, 1e4, 160e3, 1e6] if T else [10.0, 1e4, 160e3]
    Ps = [1.2e5, 5e5, 9e6] if not T else [1.05e5, 1.5e5, 1e6, 9e6, 2.5e7]
    xs = [1e-3, .05, .22, .6, .9, .99, .9999, 1 - 1e-7] if T else [.05, .22, .9, .9999]
    xyz = [1e-3, .02, .3, 1.0, 4.7, 60.0] if not T else [1e-6, 1e-3, .02, .3, 1.0, 4.7, 60.0, 1e3]
    sub = [g for n in range(6) for g in itertools.combinations(VARS, n)]
    return [
        Space("gas lines", lambda: [(n, D, L, P, x, g, s) for n in LINES for D in Ds for L in Ls for P in Ps for x in xs for g in gases for s in stds], lambda a: line(*a)),
        Space("gas lines, defaults", lambda: [(n, D, L, P, x) for n in LINES for D in Ds for L in Ls for P in Ps for x in xs if x < .99], lambda a: line_default(*a)),
        Space("gas lines, given subsets", lambda: [(n, g) for n in LINES for g in sub], lambda a: line_subsets(*a)),
        Space("isothermal gas", lambda: [(fd, D, L, P, x, r) for fd in (.0019, .012, .05) for D in Ds for L in Ls for P in Ps for x in xs for r in (1.2, 11.3, 80.0)], lambda a: iso(*a)),
        Space("isothermal gas, given subsets", lambda: [tuple(g) for n in range(6) for g in itertools.combinations(ISO_VARS, n)], iso_subsets),
        Space("compression, given subsets", lambda: [tuple(g) for n in range(5) for g in itertools.combinations(("P1", "P2", "W", "eta"), n)], comp_subsets),
        Space("efficiencies, given subsets", lambda: [(f, tuple(g)) for f, v in (("isentropic_efficiency", ("eta_s", "eta_p")), ("polytropic_exponent", ("n", "eta_p"))) for n in range(3)
                                                      for g in itertools.combinations(v, n)], lambda a: eff_subsets(*a)),
        Space("pitch and angle", lambda: [(a, p) for a in (0.0, 1e-3, 15.0, 30.0, 45.0, 60.0, 75.0, 89.999, 90.0) for p in (1e-3, .025, 1.0, 30.0)], lambda a: pitch(*a)),
        Space("valve choke pressures", lambda: [("g", P, x, k) for P in Ps for x in (.1, .3, .7, .8) for k in (1.1, 1.4, 1.667)] +
              [("l", P, (ps, FL), pc) for P in Ps for ps in (1e3, 7e4, 5e5) for FL in (.5, .6, .9, .95) for pc in (3e6, 22e6)], lambda a: choke(*a)),
        Space("elementary pairs", lambda: [(x, y, z) for x in xyz for y in xyz for z in xyz], lambda a: simple(*a)),
        named(c25, "solver", "flow meters", tier),
        named(c28, "constructor routes", "tanks", tier),
        conform_space("conformance", modules=("compressible",), only={"compressible." + n for n in list(LINES) + ["isentropic_work_compression", "isothermal_gas", "isentropic_efficiency", "polytropic_exponent"]},
                      cap=1500 if not T else 12000, tier=tier),
    ]
