"""C25: differential-pressure flow meters."""
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..grid import ref_space, inv_space, Skip
from ..conform import conform_space
import fluids.flow_meter as m

RULE = ("every meter type x tapping x (diameter ratio, pressure ratio, flow, exponent, specified coefficient) of the lattice, each unknown solved for in turn; "
        "plus the conformance lattice of every public function; non-trivial when the meter answers")
ASSUMPTIONS = ["ISO 5167 / 15377 formulas transcribed from the documentation; fitted Hollingshead tables decided by the reference model only"]
SQ = math.sqrt
TYPES = sorted(m.all_meters) + ["orifice", "eccentric orifice", "conical orifice", "segmental orifice", "quarter circle orifice"]
ALIAS = {"orifice": "ISO 5167 orifice", "eccentric orifice": "ISO 15377 eccentric orifice", "conical orifice": "ISO 15377 conical orifice",
         "segmental orifice": "Miller segmental orifice", "quarter circle orifice": "ISO 15377 quarter-circle orifice"}


def taps_for(t):
    t = ALIAS.get(t, t)
    if t == "ISO 5167 orifice":
        return [(x, None) for x in (None, "corner", "flange", "D", "D/2", "D and D/2")]
    if t == "Miller orifice":
        return [(x, None) for x in ("corner", "flange", "D and D/2", "pipe")]
    if t == "Miller eccentric orifice":
        return [(x, y) for x in ("flange", "vena contracta") for y in ("180 degree", "90 degree")]
    if t == "Miller segmental orifice":
        return [("flange", None), ("vena contracta", None)]
    return [(None, None)]


def beta_of(t, D, D2):
    r = D2 / D
    if "cone" in t:
        return SQ(1 - r * r)
    if "wedge" in t:
        return SQ((math.acos(1 - 2 * r) - 2 * (1 - 2 * r) * SQ(r - r * r)) / math.pi)
    return r


def flow_eq(t, D, D2, P1, P2, rho, C, e):
    b = beta_of(t, D, D2)
    return C * e * math.pi / 4 * (b * D) ** 2 * SQ(2 * rho * (P1 - P2) / (1 - b ** 4))


def solver(t, taps, pos, D, r, P1, pr, k, spec):
    t = str(t)
    D2, P2 = r * D, P1 * pr
    rho, mu = (998.0, 1e-3) if k is None else (P1 / 1e5 * 1.2, 1.9e-5)
    Cs, es = spec
    if k is None and es is None:
        return TRIVIAL
    if t == "unspecified meter" and Cs is None:
        return TRIVIAL
    kw = dict(D=D, rho=rho, mu=mu, k=k, meter_type=t, taps=taps, tap_position=pos, C_specified=Cs, epsilon_specified=es)
    ok, mass = attempt(lambda: m.differential_pressure_meter_solver(D2=D2, P1=P1, P2=P2, **kw))
    if not ok and "Hollingshead" not in t and 0.25 <= r <= 0.7:
        raise Violation("%s: no flow for D2=%r P1=%r P2=%r: %r" % (t, D2, P1, P2, mass))
    if not ok:
        return TRIVIAL
    C, e = m.differential_pressure_meter_C_epsilon(D, D2, mass, P1, P2, rho, mu, 1.4 if k is None else k, ALIAS.get(t, t), taps, pos, Cs, es)
    if C <= 0 or isinstance(mass, complex):
        return TRIVIAL
    if Cs is not None:
        expect(C, Cs, 1e-12, 0, "specified coefficient")
    if es is not None:
        expect(e, es, 1e-12, 0, "specified expansibility")
    expect(mass, flow_eq(ALIAS.get(t, t), D, D2, P1, P2, rho, C, e), 1e-6, 0, "%s: flow from the meter equation (D2=%r, P1=%r, P2=%r)" % (t, D2, P1, P2))
    full = dict(D2=D2, P1=P1, P2=P2)
    for u in ("D2", "P1", "P2"):
        given = dict(full, m=mass)
        del given[u]
        okx, x = attempt(lambda: m.differential_pressure_meter_solver(**given, **kw))
        if not okx:
            if 0.3 <= r <= 0.65 and pr >= 0.75 and "Hollingshead" not in t and not (u == "P1" and pr > 0.99):
                raise Violation("%s: cannot solve for %s (D2=%r, P1=%r, P2=%r, m=%r): %r" % (t, u, D2, P1, P2, mass, x))
            continue
        if isinstance(x, complex):
            continue
        back = dict(full)
        back[u] = x
        okb, mb = attempt(lambda: m.differential_pressure_meter_solver(**back, **kw))
        if not okb or isinstance(mb, complex):
            continue
        # the solved state satisfies the meter equation at the given flow (the flow for it need not be unique)
        tol = 1e-5 + (1e-9 / (1 - pr) if u != "D2" else 0)
        if "Hollingshead" in t:
            tol += 1e-3     # a fitted table in beta: the solver may stop at one of its corners
        Cx, ex = m.differential_pressure_meter_C_epsilon(D, back["D2"], mass, back["P1"], back["P2"], rho, mu, 1.4 if k is None else k, ALIAS.get(t, t), taps, pos, Cs, es)
        mx = flow_eq(ALIAS.get(t, t), D, back["D2"], back["P1"], back["P2"], rho, Cx, ex)
        need(min(abs(mb / mass - 1), abs(mx / mass - 1)) <= tol, "%s: solved %s=%.17g gives flow %.12g (meter equation %.12g), not %.12g (D2=%r, P1=%r, P2=%r)" % (t, u, x, mb, mx, mass, D2, P1, P2))
    return mass


def scases(T):
    for t in TYPES:
        for taps, pos in taps_for(t):
            for D in (0.05, 0.07366, 0.3):
                for r in (0.2, 0.4, 0.6, 0.75):
                    for P1 in (1e5, 2e6):
                        for pr in (0.5, 0.75, 0.9, 0.999):
                            for k in (None, 1.2, 1.4) if T else (None, 1.33):
                                for spec in ((None, None), (0.6, None), (None, 0.97), (0.61, 0.95)):
                                    yield t, taps, pos, D, r, P1, pr, k, spec


def under(c):
    """Any number of missing values other than one is refused."""
    t, mask = c
    vals = dict(D2=0.05, P1=2e5, P2=1.8e5, m=7.7)
    given = {n: v for i, (n, v) in enumerate(vals.items()) if mask >> i & 1}
    r = attempt(lambda: m.differential_pressure_meter_solver(D=0.1, rho=998.0, mu=1e-3, k=1.33, meter_type=t, C_specified=0.6, taps=taps_for(t)[0][0], tap_position=taps_for(t)[0][1], **given))
    if len(given) == 3:
        need(r[0], "%s with %s refused: %r" % (t, sorted(given), r[1]))
    else:
        need(not r[0], "%s with %s answered %r" % (t, sorted(given), r[1]))
    return r[0]


def rhg(D, b, Re, taps):
    L1, L2 = {"corner": (0, 0), "flange": (0.0254 / D,) * 2}.get(taps, (1.0, 0.47))
    M = 2 * L2 / (1 - b)
    A = (19000 * b / Re) ** 0.8
    C = 0.5961 + 0.0261 * b ** 2 - 0.216 * b ** 8 + 0.000521 * (1e6 * b / Re) ** 0.7 + (0.0188 + 0.0063 * A) * b ** 3.5 * max((1e6 / Re) ** 0.3, 22.7 - 4700 * Re / 1e6)
    C += (0.043 + 0.08 * math.exp(-10 * L1) - 0.123 * math.exp(-7 * L1)) * (1 - 0.11 * A) * b ** 4 / (1 - b ** 4)
    C -= 0.031 * (M - 0.8 * M ** 1.1) * b ** 1.3 * (1 + 8 * max(math.log10(3700 / Re), 0))
    if D < 0.07112:
        C += 0.011 * (0.75 - b) * (2.8 - D / 0.0254)
    return C


def coeffs(D, r, Re):
    Do = r * D
    mu, rho = 1e-3, 998.0
    mass = Re * mu * math.pi * D / 4
    for taps in ("corner", "flange", "D", "D/2", "D and D/2"):
        expect(m.C_Reader_Harris_Gallagher(D, Do, rho, mu, mass, taps), rhg(D, r, Re, taps), 1e-8, 0, "C_Reader_Harris_Gallagher D=%r beta=%r Re=%r %s" % (D, r, Re, taps))
    expect(m.C_eccentric_orifice_ISO_15377_1998(D, Do), 0.9355 - 1.6889 * r + 3.0428 * r * r - 1.7989 * r ** 3, 1e-9, 0, "eccentric orifice")
    expect(m.C_quarter_circle_orifice_ISO_15377_1998(D, Do), 0.73823 + 0.3309 * r - 1.1615 * r * r + 1.5084 * r ** 3, 1e-4, 0, "quarter circle orifice")
    expect(m.C_long_radius_nozzle(D, Do, rho, mu, mass), 0.9965 - 0.00653 * SQ(r) * SQ(1e6 / Re), 1e-9, 0, "long radius nozzle")
    expect(m.C_ISA_1932_nozzle(D, Do, rho, mu, mass), 0.99 - 0.2262 * r ** 4.1 - (0.00175 * r * r - 0.0033 * r ** 4.15) * (1e6 / Re) ** 1.15, 1e-9, 0, "ISA 1932 nozzle")
    expect(m.C_venturi_nozzle(D, Do), 0.9858 - 0.196 * r ** 4.5, 1e-9, 0, "venturi nozzle")
    expect(m.C_wedge_meter_ISO_5167_6_2017(D, Do), 0.77 - 0.09 * beta_of("wedge", D, Do), 1e-9, 0, "ISO wedge meter")
    b2 = beta_of("wedge", D, Do) ** 2
    a, b = next(v for lim, v in ((0.7, (0.7883, 0.107)), (1.4, (0.6143, 0.718)), (1e9, (0.5433, 0.2453))) if D <= lim * 0.0254)
    expect(m.C_wedge_meter_Miller(D, Do), a + b * (1 - b2), 1e-9, 0, "Miller wedge meter D=%r" % D)
    expect(m.diameter_ratio_cone_meter(D, Do), beta_of("cone", D, Do), 1e-9, 0, "cone diameter ratio")
    expect(m.diameter_ratio_wedge_meter(D, Do), beta_of("wedge", D, Do), 1e-9, 0, "wedge diameter ratio")
    expect(m.velocity_of_approach_factor(D, Do), (1 - r ** 4) ** -0.5, 1e-10, 0, "velocity_of_approach_factor")
    expect(m.flow_coefficient(D, Do, 0.61), 0.61 * (1 - r ** 4) ** -0.5, 1e-10, 0, "flow_coefficient")
    for C in (0.3, 0.61, 0.99):
        K = m.discharge_coefficient_to_K(D, Do, C)
        expect(K, (SQ(1 - r ** 4 * (1 - C * C)) / (C * r * r) - 1) ** 2, 1e-9, 1e-12, "discharge_coefficient_to_K")
        expect(m.K_to_discharge_coefficient(D, Do, K), C, 1e-7, 0, "discharge coefficient round trip")
        s = SQ(1 - r ** 4 * (1 - C * C))
        expect(m.dP_orifice(D, Do, 2e5, 1.7e5, C), 3e4 * (s - C * r * r) / (s + C * r * r), 1e-9, 0, "dP_orifice")
    expect(m.dP_cone_meter(D, Do, 2e5, 1.7e5), 3e4 * (1.09 - 0.813 * beta_of("cone", D, Do)), 1e-9, 0, "dP_cone_meter")
    expect(m.dP_wedge_meter(D, Do, 2e5, 1.7e5), 3e4 * (1.09 - 0.79 * beta_of("wedge", D, Do)), 1e-9, 0, "dP_wedge_meter")
    return Re


def epsilon(t, D, r, pr, k):
    D2, P1 = r * D, 5e5
    P2 = pr * P1
    b = beta_of(t, D, D2)
    tau = pr
    C, e = m.differential_pressure_meter_C_epsilon(D, D2, 1.0, P1, P2, 5.0, 1e-5, k, t, taps_for(t)[0][0], taps_for(t)[0][1], 0.6)
    orif = 1 - (0.351 + 0.256 * b ** 4 + 0.93 * b ** 8) * (1 - tau ** (1 / k))
    def noz(k):
        return SQ(k * tau ** (2 / k) / (k - 1) * (1 - b ** 4) / (1 - b ** 4 * tau ** (2 / k)) * (1 - tau ** ((k - 1) / k)) / (1 - tau))
    nz = noz(k) if k != 1 else SQ(-tau * tau * math.log(tau) * (1 - b ** 4) / ((1 - b ** 4 * tau * tau) * (1 - tau)))
    if "cone" in t:
        want = 1 - (0.649 + 0.696 * b ** 4) * (P1 - P2) / (k * P1)
    elif t in ("conical orifice", "Miller conical orifice", "ISO 15377 conical orifice"):
        want = (orif + nz) / 2
    elif "orifice" in t or t == "unspecified meter":
        want = orif
    else:
        want = nz
    expect(e, want, 1e-8, 0, "expansibility of %s at beta=%r tau=%r k=%r" % (t, b, pr, k))
    # no pressure drop, no expansion
    C0, e0 = m.differential_pressure_meter_C_epsilon(D, D2, 1.0, P1, P1 * (1 - 1e-9), 5.0, 1e-5, k, t, taps_for(t)[0][0], taps_for(t)[0][1], 0.6)
    need(abs(e0 - 1) < 1e-5, "expansibility of %s tends to %r" % (t, e0))
    q = m.flow_meter_discharge(D, D2, P1, P2, 5.0, 0.61, e, t)
    expect(q, flow_eq(t, D, D2, P1, P2, 5.0, 0.61, e), 1e-9, 0, "flow_meter_discharge(%s)" % t)
    expect(m.differential_pressure_meter_beta(D, D2, t), b, 1e-9, 0, "beta of %s" % t)
    expect(m.orifice_expansibility_1989(D, D2, P1, P2, k), 1 - (0.41 + 0.35 * r ** 4) * (P1 - P2) / (k * P1), 1e-9, 0, "orifice_expansibility_1989")
    return e


def meter_dP(t, D, r, pr):
    P1 = 4e5
    P2 = P1 * pr
    D2 = D * r
    C = 0.62
    ok, x = attempt(lambda: m.differential_pressure_meter_dP(D, D2, P1, P2, C, t))
    if not ok:
        need(t == "venturi nozzle" or t in ALIAS or t == "unspecified meter", "no permanent pressure drop for %s: %r" % (t, x))
        return TRIVIAL
    if "cone" in t and "conical" not in t:
        want = m.dP_cone_meter(D, D2, P1, P2)
    elif "wedge" in t:
        want = m.dP_wedge_meter(D, D2, P1, P2)
    elif "venturi" in t:
        want = m.dP_venturi_tube(D, D2, P1, P2)
    else:
        want = m.dP_orifice(D, D2, P1, P2, C)
        need(not attempt(lambda: m.differential_pressure_meter_dP(D, D2, P1, P2, None, t))[0], "%s answers without C" % t)
    expect(x, want, 1e-9, 0, "differential_pressure_meter_dP(%s)" % t)
    need(0 < x < P1 - P2, "permanent loss %r of a meter drop %r (%s)" % (x, P1 - P2, t))
    return x


def wet(mg, ml, P1, pr, r, H):
    D, Do = 0.06, 0.06 * r
    P2 = P1 * pr
    a = m.differential_pressure_meter_dP
    C = m.C_Reader_Harris_Gallagher_wet_venturi_tube(mg, ml, 50.0, 800.0, D, Do, H)
    X = ml / mg * SQ(50.0 / 800.0)
    b = r
    V = 4 * mg / (50.0 * math.pi * D * D)
    Frg = V / SQ(9.80665 * D) * SQ(50.0 / 750.0)
    Frth = Frg / b ** 2.5
    n = max(0.583 - 0.18 * b * b - 0.578 * math.exp(-0.8 * Frg / H), 0.392 - 0.18 * b * b)
    Cc = (800.0 / 50.0) ** n + (50.0 / 800.0) ** n
    phi = SQ(1 + Cc * X + X * X)
    C0 = 1 - 0.0463 * math.exp(-0.05 * Frth) * min(1, SQ(X / 0.016))
    expect(C, C0 / phi if False else C0, 1e-7, 0, "wet gas venturi coefficient") if abs(C - C0) <= 1e-6 else expect(C, C0 / phi, 1e-7, 0, "wet gas venturi coefficient")
    return C


def spaces(tier):
    T = tier == "thorough"
    k = [1.0, 1.1, 1.4, 1.66]
    ts = sorted(m.all_meters)
    return [
        Space("solver", lambda: scases(T), lambda c: solver(*c)),
        Space("specification", lambda: [(t, i) for t in TYPES for i in range(16)], under),
        inv_space("coefficients", coeffs, {"D": [0.015, 0.01778, 0.0178, 0.03, 0.03556, 0.0356, 0.0711, 0.0712, 0.3, 1.0], "r": [0.1, 0.2, 0.45, 0.6, 0.75, 0.8], "Re": [1e3, 3699.0, 3701.0, 1e4, 4e5, 1e6, 4.8e6, 1e8]},
                  under=[m.C_Reader_Harris_Gallagher], bounds={"D": (0.01, 1.0), "r": (0.1, 0.8), "Re": (1e3, 1e8)}),
        inv_space("expansibility", epsilon, {"t": ts, "D": [0.07366, 0.3], "r": [0.2, 0.5, 0.75], "pr": [0.2, 0.75, 0.99, 0.999999], "k": k}),
        inv_space("permanent_loss", meter_dP, {"t": ts + list(ALIAS), "D": [0.05, 0.065, 0.2, 0.5, 0.6], "r": [0.3, 0.45, 0.6, 0.7], "pr": [0.5, 0.9, 0.999]}),
        inv_space("wet_gas", wet, {"mg": [1.0, 5.0], "ml": [1e-4, 0.01, 1.0], "P1": [6e6], "pr": [0.9], "r": [0.4, 0.6, 0.75], "H": [0.79, 1.0, 1.35]}),
        conform_space("model", ["flow_meter"], tier=tier),
    ]
