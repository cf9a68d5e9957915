"""C23: control valve sizing."""
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..grid import ref_space, inv_space, Skip
from ..conform import conform_space
import fluids.control_valve as v

RULE = ("every (flow, pressures, diameters, recovery factor, viscosity, flags) of the lattice: the sized coefficient is put back into the IEC 60534 flow equation; "
        "plus the conformance lattice of every public function; non-trivial when a coefficient is returned")
ASSUMPTIONS = ["IEC 60534-2-1 equations and constants transcribed from the documentation"]
SQ = math.sqrt
N1, N2, N4, N5, N9, N18, N32 = 0.1, 0.0016, 0.0707, 0.0018, 24.6, 0.865, 140.0
R = 8.31446261815324


def loss(d, D1=None, D2=None):
    z = 0.0
    if D1:
        z += 0.5 * (1 - (d / D1) ** 2) ** 2 + 1 - (d / D1) ** 4
    if D2:
        z += (1 - (d / D2) ** 2) ** 2 - (1 - (d / D2) ** 4)
    return z


def rev(nu, Q, D1, FL, Fd, C):
    return N4 * Fd * Q / nu / SQ(C * FL) * (FL * FL * C * C / N2 / D1 ** 4 + 1) ** 0.25


def fr(FL, C, d, Re, full):
    if full:
        n = N2 / min(C / d / d, 0.04) ** 2
        a, b = 1 + 0.33 * SQ(FL) / n ** 0.25 * math.log10(Re / 1e4), 0.026 / FL * SQ(n * Re)
        return b if Re < 10 else min(a, b)
    n = 1 + N32 * (C / d / d) ** (2 / 3.0)
    a, b = 1 + 0.33 * SQ(FL) / n ** 0.25 * math.log10(Re / 1e4), min(0.026 / FL * SQ(n * Re), 1)
    return b if Re < 10 else min(a, b)


LIQ = dict(rho=965.4, Psat=70.1e3, Pc=22120e3)


def pipes(shape, d):
    return {"none": (None, None, None), "same": (d, d, d), "reduced": (d * 1.5, d * 2, d), "in": (d * 1.5, d, d), "out": (d, d * 1.5, d), "larger valve": (d * 0.8, d * 0.8, d)}[shape]


def laminar_ok(C, Ct, nu, Q, D1, FL, Fd, d):
    """C must be the first of 1.3^k Ct which is large enough for its own Reynolds factor."""
    c = Ct
    for k in range(400):
        c *= 1.3
        Re = rev(nu, Q, D1, FL, Fd, c)
        F = fr(FL, c, d, Re, not c / (d * d) > 0.016 * N18)
        if Ct_next(c, k, Ct, F):
            return c
    raise Skip


def Ct_next(c, k, Ct, F):
    return (c / 1.3) / F < c


def both(fn, kw):
    """With and without full output; the dictionary's Kv is the plain result."""
    a = attempt(lambda: fn(**kw))
    b = attempt(lambda: fn(full_output=True, **kw))
    if not a[0] and not b[0] and kw["d"] and kw["D1"] <= kw["d"]:
        raise Skip          # static-regain piping losses with a coefficient far beyond the valve's size
    need(a[0] and b[0], "full_output changes whether %s(%r) answers: %r, %r" % (fn.__name__, kw, a, b))
    need(isinstance(b[1], dict) and abs(b[1]["Kv"] - a[1]) <= 1e-12 * abs(a[1]), "full_output changes the result of %s: %r, %r" % (fn.__name__, a[1], b[1].get("Kv")))
    return a[1], b[1]


def liquid(Q, P1, P2, shape, d, FL, Fd, mu, ach, alam):
    D1, D2, dd = pipes(shape, d)
    kw = dict(LIQ, mu=mu, P1=P1, P2=P2, Q=Q, D1=D1, D2=D2, d=dd, FL=FL, Fd=Fd, allow_choked=ach, allow_laminar=alam)
    C, ans = both(v.size_control_valve_l, kw)
    p1, dP, psat, pc = P1 / 1e3, (P1 - P2) / 1e3, 70.1, 22120.0
    q = Q * 3600
    FF = 0.96 - 0.28 * SQ(psat / pc)
    s = 965.4 / 999.10329075702327
    Ct = q / N1 * SQ(s / dP)
    lim = FL * FL * (p1 - FF * psat)
    if abs(dP / lim - 1) < 1e-9:
        return TRIVIAL
    choked = dP >= lim
    if choked and ach:
        Ct = q / N1 / FL * SQ(s / (p1 - FF * psat))
    expect(ans["FF"], FF, 1e-9, 0, "FF")
    need(bool(ans["choked"]) == choked, "choked reported %r at dP=%r limit %r" % (ans["choked"], dP, lim))
    if dd is None:
        expect(C, Ct, 1e-6, 0, "liquid valve without geometry")
        return C
    D1, D2, dd = D1 * 1e3, D2 * 1e3, dd * 1e3
    nu = mu / 965.4
    Re = rev(nu, q, D1, FL, Fd, Ct)
    if abs(Re / 1e4 - 1) < 1e-3:
        return TRIVIAL
    need(bool(ans["laminar"]) == (Re <= 1e4), "laminar reported %r at Rev=%r" % (ans["laminar"], Re))
    if Re <= 1e4 and alam:
        expect(C, laminar_ok(C, Ct, nu, q, D1, FL, Fd, dd), 1e-4, 0, "laminar liquid valve")
        return C
    if shape == "same":
        expect(C, Ct, 1e-6, 0, "liquid valve in line-size pipe")
        return C
    if "warning" in ans:
        return "warned"
    # the returned C must be the standard's coefficient at the F_P, F_LP of a C within 1 %
    def g(c):
        FP = (1 + loss(dd, D1, D2) / N2 * (c / dd ** 2) ** 2) ** -0.5
        FLP = FL / SQ(1 + FL ** 2 / N2 * (0 if dd > D1 else loss(dd, D1)) * (c / dd ** 2) ** 2)
        if ach and dP >= (FLP / FP) ** 2 * (p1 - FF * psat):
            return q / N1 / FLP * SQ(s / (p1 - FF * psat))
        return q / N1 / FP * SQ(s / dP)
    c, n = Ct, 0
    while True:
        nx = g(c)
        if c / nx >= 0.99 or n >= 20:
            break
        c, n = nx, n + 1
    expect(C, nx, 1e-6, 0, "liquid valve with fittings (FP from %r)" % c)
    return C


def gas(Q, P1, P2, shape, d, FL, Fd, xT, gamma, mu, ach, alam):
    D1, D2, dd = pipes(shape, d)
    T, MW, Z = 433.0, 44.01, 0.988
    kw = dict(T=T, MW=MW, Z=Z, gamma=gamma, mu=mu, P1=P1, P2=P2, Q=Q, D1=D1, D2=D2, d=dd, FL=FL, Fd=Fd, xT=xT, allow_choked=ach, allow_laminar=alam)
    C, ans = both(v.size_control_valve_g, kw)
    p1 = P1 / 1e3
    q = Q * 3600
    rho = MW * 1e-3 * P1 / (Z * R * T)
    x = (P1 - P2) / P1
    Fg = gamma / 1.4
    Y = max(1 - x / (3 * Fg * xT), 2 / 3.0)
    if abs(x / (Fg * xT) - 1) < 1e-9:
        return TRIVIAL
    ch = x >= Fg * xT
    Ct = q / (N9 * p1 * Y) * SQ(MW * T * Z / (Fg * xT if ch and ach else x))
    expect(ans["Y"], Y, 1e-9, 0, "expansion factor")
    if dd is None:
        expect(C, Ct, 1e-6, 0, "gas valve without geometry")
        return C
    D1, D2, dd = D1 * 1e3, D2 * 1e3, dd * 1e3
    nu = mu / rho
    Re = rev(nu, q, D1, FL, Fd, Ct)
    if abs(Re / 1e4 - 1) < 1e-3:
        return TRIVIAL
    need(bool(ans["laminar"]) == (Re <= 1e4), "laminar reported %r at Rev=%r" % (ans["laminar"], Re))
    if Re <= 1e4 and alam:
        expect(C, laminar_ok(C, Ct, nu, q, D1, FL, Fd, dd), 1e-4, 0, "laminar gas valve")
        return C
    if shape == "same":
        expect(C, Ct, 1e-6, 0, "gas valve in line-size pipe")
        return C
    if "warning" in ans:
        return "warned"
    def g(c):
        a = (c / dd ** 2) ** 2
        FP = (1 + loss(dd, D1, D2) / N2 * a) ** -0.5
        xTP = xT / FP ** 2 / (1 + xT * loss(dd, D1) / N5 * a)
        return q / (N9 * FP * p1 * Y) * SQ(MW * T * Z / (Fg * xTP if ach and x >= Fg * xTP else x))
    c, n = Ct, 0
    while True:
        nx = g(c)
        if c / nx >= 0.99 or n >= 20:
            break
        c, n = nx, n + 1
    expect(C, nx, 1e-6, 0, "gas valve with fittings")
    return C


def choke(FL, P1, Psat, xT, gamma):
    Pc = 22120e3
    FF = 0.96 - 0.28 * SQ(Psat / Pc)
    r = attempt(lambda: v.control_valve_choke_P_l(Psat, Pc, FL, P1=P1))
    P2 = P1 - FL * FL * (P1 - FF * Psat)
    if P1 < FF * Psat:
        need(not r[0], "choking pressure %r for an upstream pressure below the vapor limit" % (r,))
    else:
        expect(r[1], P2, 1e-9, 1e-3, "control_valve_choke_P_l")
        if FL != 1.0:
            expect(v.control_valve_choke_P_l(Psat, Pc, FL, P2=P2), P1, 1e-7, 0, "control_valve_choke_P_l inverse")
        for k, w in ((0.999999, False), (1.000001, True)):
            need(v.is_choked_turbulent_l(dP=(P1 - P2) * k, P1=P1, Psat=Psat, FF=FF, FL=FL) is w, "liquid choking at the limit x %r" % k)
            need(v.is_choked_turbulent_l(dP=(P1 - P2) * k, P1=P1, Psat=Psat, FF=FF, FLP=FL * 0.8, FP=0.8) is w, "liquid choking with fittings at the limit x %r" % k)
    g = v.control_valve_choke_P_g(xT=xT, gamma=gamma, P1=P1)
    expect(g, P1 * (1 - gamma / 1.4 * xT), 1e-9, 1e-6 * P1, "control_valve_choke_P_g")
    if g > 0:
        expect(v.control_valve_choke_P_g(xT=xT, gamma=gamma, P2=g), P1, 1e-7, 0, "control_valve_choke_P_g inverse")
    x = gamma / 1.4 * xT
    for k, w in ((0.999999, False), (1.000001, True)):
        need(v.is_choked_turbulent_g(x * k, gamma / 1.4, xT=xT) is w and v.is_choked_turbulent_g(x * k, gamma / 1.4, xTP=xT) is w, "gas choking at the limit x %r" % k)
    expect(v.cavitation_index(P1, P1 / 2, Psat), (P1 - Psat) / (P1 / 2), 1e-9, 0, "cavitation_index")
    return P2


def helpers(c):
    k = c[0]
    if k == "Rev":
        expect(v.Reynolds_valve(*c[1:]), rev(*c[1:]), 1e-9, 0, "Reynolds_valve%r" % (c[1:],))
    elif k == "loss":
        expect(v.loss_coefficient_piping(c[1], c[2], c[3]), loss(*c[1:]), 1e-9, 1e-12, "loss_coefficient_piping%r" % (c[1:],))
    elif k == "FR":
        FL, C, d, Re, full = c[1:]
        expect(v.Reynolds_factor(FL, C, d, Re, full), fr(FL, C, d, Re, full), 1e-9, 0, "Reynolds_factor%r" % (c[1:],))
    elif k == "coef":
        sc = ("Cv", "Kv", "Av")
        from math import sqrt
        unit = {"Kv": 1.0, "Cv": 1 / 0.8649775, "Av": 1 / 36023.0}
        for a in sc:
            for b in sc:
                x = v.convert_flow_coefficient(c[1], a, b)
                expect(x, c[1] * unit[b] / unit[a], 2e-3, 0, "convert_flow_coefficient %s to %s" % (a, b))
                expect(v.convert_flow_coefficient(x, b, a), c[1], 1e-9, 0, "convert_flow_coefficient round trip")
                for m in sc:
                    expect(v.convert_flow_coefficient(v.convert_flow_coefficient(c[1], a, m), m, b), x, 1e-9, 0, "convert_flow_coefficient through %s" % m)
        for bad in ("cv", "kv", "", None):
            need(attempt(lambda: v.convert_flow_coefficient(c[1], bad, "Kv"))[0] is False, "scale %r accepted" % (bad,))
    elif k == "char":
        for fn in (v.Cv_char_quick_opening, v.Cv_char_linear, v.Cv_char_equal_percentage):
            a, b = float(fn(c[1])), float(fn(min(1.0, c[1] + 0.01)))
            need(-1e-3 <= a <= 1.001 and b >= a - 2e-3, "valve characteristic not rising within [0, 1] at %r: %r %r" % (c[1], a, b))
        expect(v.Cv_char_linear(c[1]), c[1], 1e-12, 1e-12, "linear characteristic")
        import rfluids.control_valve as r
        for n in ("Cv_char_quick_opening", "Cv_char_equal_percentage"):
            expect(float(getattr(v, n)(c[1])), float(getattr(r, n)(c[1])), 1e-7, 1e-9, n)
    return c


def hcases():
    for nu in (1e-7, 1e-5, 3e-3):
        for Q in (1.0, 360.0):
            for D in (50.0, 200.0):
                for FL in (0.5, 0.9, 1.0):
                    for Fd in (0.1, 1.0):
                        for C in (1.0, 240.0):
                            yield "Rev", nu, Q, D, FL, Fd, C
    for d in (0.05, 0.1):
        for D1 in (None, 0.05, 0.08, 0.2):
            for D2 in (None, 0.05, 0.1, 0.25):
                yield "loss", d, D1, D2
    for FL in (0.5, 0.9):
        for C in (0.1, 5.0, 200.0):
            for d in (10.0, 50.0, 200.0):
                for Re in (0.1, 9.99, 10.0, 10.01, 500.0, 9999.0):
                    for full in (True, False):
                        yield "FR", FL, C, d, Re, full
    for x in (1e-3, 1.0, 250.0):
        yield "coef", x
    for i in range(101):
        yield "char", i / 100.0


def sk(fn, c):
    try:
        return fn(*c)
    except Skip:
        return TRIVIAL


def spaces(tier):
    T = tier == "thorough"
    qs = [1e-7, 1e-5, 1e-3, 0.01, 0.1] + ([3e-6, 1e-4, 3e-3, 0.03, 1.0] if T else [])
    ps = [(680e3, 220e3), (680e3, 600e3), (2e6, 1.9e6), (500e3, 10e3)]
    def lcases():
        for Q in qs:
            for P1, P2 in ps:
                for sh in ("none", "same", "reduced", "in", "out", "larger valve"):
                    for d in (0.01, 0.05, 0.1, 0.4):
                        for FL in (0.6, 0.9):
                            for Fd in (0.1, 0.46, 1.0):
                                for mu in (3e-4, 0.05, 8.0):
                                    for a in (True, False):
                                        for b in (True, False):
                                            yield Q, P1, P2, sh, d, FL, Fd, mu, a, b
    def gcases():
        for Q in [x * 10 for x in qs]:
            for P1, P2 in ps:
                for sh in ("none", "same", "reduced", "in", "out", "larger valve"):
                    for d in (0.01, 0.05, 0.4):
                        for FL in (0.6, 0.9):
                            for Fd in (0.1, 0.42):
                                for xT in (0.15, 0.6):
                                    for gam in (1.1, 1.4, 1.66):
                                        for mu in (2e-5, 1e-3):
                                            for a in (True, False):
                                                for b in (True, False):
                                                    yield Q, P1, P2, sh, d, FL, Fd, xT, gam, mu, a, b
    return [
        Space("liquid", lcases, lambda c: sk(liquid, c)),
        Space("gas", gcases, lambda c: sk(gas, c)),
        inv_space("choke", choke, {"FL": [0.3, 0.6, 0.9, 1.0], "P1": [60e3, 7e5, 2e7], "Psat": [1e3, 7e4, 1e6], "xT": [0.1, 0.6, 0.9], "gamma": [1.05, 1.4, 1.667]}),
        Space("helpers", lambda: list(hcases()), helpers),
        conform_space("model", ["control_valve"], tier=tier, cap=2500 if tier == "quick" else None),
    ]
