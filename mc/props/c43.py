"""C43: gas dynamics identities."""
import itertools
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
import fluids.compressible as c
from fluids.constants import R

RULE = ("every relation over a lattice of heat-capacity ratio, pressure ratio, temperature, efficiency, friction and length, every choice of unknown, and both sides of the critical point; "
        "every listed function over its declared calls moved through factors and thresholds; non-trivial when a value is returned")
ASSUMPTIONS = ["heat-capacity ratios above 1 (1.01 to 1.67 and beyond), positive absolute pressures and temperatures"]

KS = (1.01, 1.1, 1.289, 1.4, 1.667, 2.0)


def critical(k, P, T):
    r = c.P_critical_flow(P, k) / P
    want = (2 / (k + 1)) ** (k / (k - 1))
    expect(r, want, 1e-12, 0, "P_critical_flow(P=%r, k=%r)/P" % (P, k))
    t = c.T_critical_flow(T, k) / T
    expect(t, 2 / (k + 1), 1e-13, 0, "T_critical_flow(T=%r, k=%r)/T" % (T, k))
    expect(r, t ** (k / (k - 1)), 1e-11, 0, "critical pressure and temperature on one isentrope")
    # at that state the gas moves at the speed of sound: T0 = T + V^2/(2 Cp), V^2 = k R T / M
    M = 0.028
    Tc = t * T
    V = math.sqrt(k * R * Tc / M)
    Cp = k / (k - 1) * R / M
    expect(c.T_stagnation_ideal(Tc, V, Cp), T, 1e-11, 0, "sonic velocity at the critical temperature brings back the stagnation temperature")
    expect(c.stagnation_energy(V), V * V / 2, 1e-13, 0, "stagnation_energy")
    expect(c.T_stagnation_ideal(Tc, V, Cp), Tc + c.stagnation_energy(V) / Cp, 1e-13, 0, "T_stagnation_ideal uses the stagnation energy")
    Pc = c.P_critical_flow(P, k)
    for f in (0.1, 0.5, 1 - 1e-9, 1 - 1e-12):
        need(c.is_critical_flow(P, Pc * f, k) is True or c.is_critical_flow(P, Pc * f, k) == True, "is_critical_flow(%r, %r, %r) below the critical pressure" % (P, Pc * f, k))
    for f in (1 + 1e-12, 1 + 1e-9, 1.5, 1.0 / r):
        need(not c.is_critical_flow(P, Pc * f, k), "is_critical_flow(%r, %r, %r) above the critical pressure" % (P, Pc * f, k))
    return r, t


def stag(k, P, T, x):
    """x = stagnation over static pressure"""
    Ts = c.T_stagnation(T, P, P * x, k)
    expect(Ts, T * x ** ((k - 1) / k), 1e-12, 0, "T_stagnation(T=%r, P=%r, Pst=%r, k=%r)" % (T, P, P * x, k))
    expect(c.P_stagnation(P, T, Ts, k), P * x, 1e-10, 0, "P_stagnation inverts T_stagnation")
    expect(c.isentropic_T_rise_compression(T, P, P * x, k), Ts, 1e-12, 0, "isentropic compression reaches the stagnation temperature")
    expect(c.isentropic_T_rise_compression(T, P, P * x, k, 1), Ts, 1e-12, 0, "eta=1")
    for eta in (0.5, 0.78, 0.99):
        T2 = c.isentropic_T_rise_compression(T, P, P * x, k, eta)
        expect((T2 - T) * eta, Ts - T, 1e-10, 1e-11 * T, "temperature rise times efficiency")
        expect(c.isentropic_T_rise_compression(T, P, P * x, k, eta=eta), T2, 1e-14, 0, "eta by name")
        # energy balance: ideal-gas work equals Cp dT
        W = c.isentropic_work_compression(T1=T, k=k, P1=P, P2=P * x, eta=eta)
        expect(W, k / (k - 1) * R * (T2 - T), 1e-9, 1e-9 * R * T, "work of compression equals Cp times the temperature rise")
    return Ts


def work(k, T, P, x, Z, eta):
    what = "isentropic_work_compression(T1=%r, k=%r, Z=%r, P1=%r, P2=%r, eta=%r)" % (T, k, Z, P, P * x, eta)
    W = c.isentropic_work_compression(T1=T, k=k, Z=Z, P1=P, P2=P * x, eta=eta)
    want = k / (k - 1) * Z * R * T * math.expm1((k - 1) / k * math.log(x)) / eta
    expect(W, want, 1e-10, 1e-11 * R * T, what)
    if Z == 1.0:
        expect(c.isentropic_work_compression(T1=T, k=k, P1=P, P2=P * x, eta=eta), W, 1e-14, 0, "default Z")
    if x != 1:
        expect(c.isentropic_work_compression(T1=T, k=k, Z=Z, P2=P * x, W=W, eta=eta), P, 1e-9, 0, what + " solved for P1")
        expect(c.isentropic_work_compression(T1=T, k=k, Z=Z, P1=P, W=W, eta=eta), P * x, 1e-9, 0, what + " solved for P2")
        expect(c.isentropic_work_compression(T1=T, k=k, Z=Z, P1=P, P2=P * x, W=W), eta, 1e-9, 0, what + " solved for eta")
    # isothermal work: the least of all, the limit k -> 1
    iso = c.isothermal_work_compression(P, P * x, T, Z)
    expect(iso, Z * R * T * math.log(x), 1e-12, 1e-13 * R * T, "isothermal_work_compression(%r, %r, %r, %r)" % (P, P * x, T, Z))
    if Z == 1.0:
        expect(c.isothermal_work_compression(P, P * x, T), iso, 1e-14, 0, "default Z")
    if x > 1:
        need(W * eta >= iso * (1 - 1e-10), "isentropic work below the isothermal work")
    near = c.isentropic_work_compression(T1=T, k=1 + 1e-6, Z=Z, P1=P, P2=P * x, eta=1.0)
    expect(near, iso, 1e-4, 1e-8 * R * T, "isentropic work as k approaches 1")
    # staging adds for the isothermal process
    mid = P * x ** 0.37
    expect(c.isothermal_work_compression(P, mid, T, Z) + c.isothermal_work_compression(mid, P * x, T, Z), iso, 1e-10, 1e-11 * R * T, "isothermal stages add")
    return W


def bad_work(given):
    k = dict(T1=300.0, k=1.4)
    k.update({n: v for n, v in (("P1", 1e5), ("P2", 4e5), ("W", 5000.0), ("eta", 0.8)) if n in given})
    ok, r = attempt(c.isentropic_work_compression, **k)
    n = len(given)
    if n == 3:
        need(ok, "isentropic_work_compression with %s: %r" % (given, r))
    elif n < 3:
        need(not ok and r == "ValueError", "isentropic_work_compression with only %s gave %r" % (given, r))
    else:
        return TRIVIAL
    return repr(r)


def eff(k, x, e):
    s = c.isentropic_efficiency(P1=1e5, P2=1e5 * x, k=k, eta_p=e)
    want = math.expm1((k - 1) / k * math.log(x)) / math.expm1((k - 1) / (k * e) * math.log(x))
    expect(s, want, 1e-9, 0, "isentropic_efficiency(k=%r, P2/P1=%r, eta_p=%r)" % (k, x, e))
    expect(c.isentropic_efficiency(P1=1e5, P2=1e5 * x, k=k, eta_s=s), e, 1e-7, 0, "isentropic_efficiency inverts between polytropic and isentropic")
    if x > 1.0001:
        need(s < e if e < 1 else abs(s - 1) < 1e-12, "isentropic efficiency %r of a compression not below the polytropic %r" % (s, e))
    # small stages: the polytropic efficiency is the isentropic efficiency of an infinitesimal stage
    expect(c.isentropic_efficiency(P1=1e5, P2=1e5 * (1 + 1e-6), k=k, eta_p=e), e, 1e-5, 0, "infinitesimal stage")
    # scale of pressure does not matter
    expect(c.isentropic_efficiency(P1=7.0, P2=7.0 * x, k=k, eta_p=e), s, 1e-9, 0, "pressure scale")
    n = c.polytropic_exponent(k, eta_p=e)
    if k * (1 - e) < 0.98:
        expect((n - 1) / n, (k - 1) / (k * e), 1e-9, 0, "polytropic_exponent(%r, eta_p=%r)" % (k, e))
        expect(c.polytropic_exponent(k, n=n), e, 1e-9, 0, "polytropic_exponent inverts")
    for f, a in ((c.isentropic_efficiency, dict(P1=1e5, P2=2e5, k=k)), (c.polytropic_exponent, dict(k=k))):
        ok, r = attempt(f, **a)
        need(not ok and r == "ValueError", "%s without either efficiency: %r" % (f.__name__, r))
    return s, n


def G2(P1, P2, fd, LD):
    """dimensionless isothermal mass flux squared G^2 / (rho1 P1)"""
    r = P2 / P1
    return (1 - r * r) / (fd * LD - 2 * math.log(r))


def crit_r(K):
    """r with 1/r^2 - 1 + 2 ln r = K by bisection on ln r"""
    lo, hi = 0.0, 1.0
    f = lambda u: math.expm1(2 * u) - 2 * u - K
    while f(hi) < 0:
        hi *= 2
    for _ in range(200):
        mid = (lo + hi) / 2
        if f(mid) < 0:
            lo = mid
        else:
            hi = mid
    return math.exp(-hi)


def iso_crit(P, fd, D, L):
    what = "P_isothermal_critical_flow(P=%r, fd=%r, D=%r, L=%r)" % (P, fd, D, L)
    K = fd * L / D
    got = c.P_isothermal_critical_flow(P=P, fd=fd, D=D, L=L)
    r = crit_r(K)
    if K > 1e7:
        # exp underflows in the closed form; the answer tends to 0 and cannot be demanded accurately
        return TRIVIAL
    tol = 1e-7 if K > 1e-4 else 1e-3
    expect(got / P, r, tol, 1e-12, what + "/P")
    up = c.P_upstream_isothermal_critical_flow(P=P, fd=fd, D=D, L=L)
    expect(up / P, 1 / r, tol, 0, "P_upstream_isothermal_critical_flow")
    expect(c.P_isothermal_critical_flow(P=up, fd=fd, D=D, L=L), P, 1e-7 if K > 1e-4 else 1e-3, 0, "upstream and downstream critical pressures invert")
    # the flux is largest there
    for s in (1e-2, 1e-1):
        if K > 1e-3:
            need(G2(P, got, fd, L / D) >= G2(P, min(got * (1 + s), P * (1 - 1e-9)), fd, L / D) and G2(P, got, fd, L / D) >= G2(P, got * (1 - s), fd, L / D), what + " is not where the flow is largest")
    return got


def iso(rho, fd, P1, r, L, D):
    """forward, and every unknown back"""
    K = fd * L / D
    rc = crit_r(K)
    P2 = P1 * (rc + (1 - rc) * r)
    base = dict(rho=rho, fd=fd)
    what = "isothermal_gas(rho=%r, fd=%r, P1=%r, P2=%r, L=%r, D=%r)" % (rho, fd, P1, P2, L, D)
    A = math.pi / 4 * D * D
    m = c.isothermal_gas(P1=P1, P2=P2, L=L, D=D, **base)
    expect(m, A * math.sqrt(rho * P1 * G2(P1, P2, fd, L / D)), 1e-7, 0, what)
    cond = 1 - P2 / P1
    expect(c.isothermal_gas(P1=P1, P2=P2, D=D, m=m, **base), L, 1e-6 / max(cond, 1e-3), 0, what + " solved for L")
    if r >= 0.02:
        P1b = c.isothermal_gas(P2=P2, L=L, D=D, m=m, **base)
        # note: rho is the density at the inlet conditions given by the caller, so P1 enters the flow only through the formula
        expect(c.isothermal_gas(P1=P1b, P2=P2, L=L, D=D, **base), m, 1e-6, 0, what + " solved for P1 (%r): flow at that pressure" % P1b)
        P2b = c.isothermal_gas(P1=P1, L=L, D=D, m=m, **base)
        expect(P2b, P2, 1e-5, 0, what + " solved for P2")
        expect(c.isothermal_gas(P1=P1, P2=P2b, L=L, D=D, **base), m, 1e-4, 0, "flow at that P2")
    if r >= 0.1 and 0.02 < D < 3:
        ok, Db = attempt(c.isothermal_gas, P1=P1, P2=P2, L=L, m=m, **base)
        if ok:
            expect(c.isothermal_gas(P1=P1, P2=P2, L=L, D=Db, **base), m, 1e-6, 0, what + " solved for D (%r)" % Db)
            expect(Db, D, 1e-5, 0, what + " solved for D")
    # choking: no flow is invented beyond the critical pressure, nor backwards
    for bad in (P1 * rc * (1 - 1e-6), P1 * rc * 0.5, P1 * 1.0001):
        ok, x = attempt(c.isothermal_gas, P1=P1, P2=bad, L=L, D=D, **base)
        need(not ok and x == "ValueError", what + " with P2=%r gave %r" % (bad, x))
    mmax = A * math.sqrt(rho * P1 * G2(P1, P1 * rc, fd, L / D))
    for f in (1.001, 2.0):
        ok, x = attempt(c.isothermal_gas, P1=P1, L=L, D=D, m=mmax * f, **base)
        need(not ok and x == "ValueError", what + ": P2 for %r times the choked flow: %r" % (f, x))
    up = P2 / crit_r(K)
    mup = A * math.sqrt(rho * up * G2(up, P2, fd, L / D))
    for f in (1.001, 2.0):
        ok, x = attempt(c.isothermal_gas, P2=P2, L=L, D=D, m=mup * f, **base)
        need(not ok and x == "ValueError", what + ": P1 for %r times the largest flow: %r" % (f, x))
    expect(c.isothermal_gas(P2=P2, L=L, D=D, m=mup * 0.9999, **base), up, 2e-3, 0, what + ": P1 just below the largest flow")
    return m


def iso_bad(given):
    vals = dict(P1=1e6, P2=9e5, L=1000.0, D=0.5, m=50.0)
    ok, r = attempt(c.isothermal_gas, rho=11.3, fd=0.01, **{k: vals[k] for k in given})
    if len(given) < 4:
        need(not ok and r == "ValueError", "isothermal_gas with only %s gave %r" % (given, r))
        return r
    return TRIVIAL


def spaces(tier):
    q = tier == "quick"
    ks = KS if q else KS + (1.001, 1.05, 1.2, 1.3, 1.35, 1.5, 1.6, 3.0)
    Ps = (1.0, 1e3, 101325.0, 4e6)
    Ts = (100.0, 300.0, 1200.0)
    xs = (0.2, 0.9, 1.0, 1.001, 1.5, 3.0, 10.0, 100.0)
    es = (0.4, 0.6, 0.78, 0.9, 0.999, 1.0)
    return [
        Space("critical flow", lambda: [(k, P, T) for k in ks for P in Ps for T in Ts], lambda a: critical(*a)),
        Space("stagnation", lambda: [(k, P, T, x) for k in ks for P in Ps for T in Ts for x in xs], lambda a: stag(*a)),
        Space("work", lambda: [(k, T, P, x, Z, e) for k in ks for T in Ts for P in (1e4, 4e6) for x in xs for Z in (1.0, 0.85) for e in es], lambda a: work(*a)),
        Space("work inputs", lambda: [g for n in range(5) for g in itertools.combinations(("P1", "P2", "W", "eta"), n)], bad_work),
        Space("efficiencies", lambda: [(k, x, e) for k in ks for x in (1.0001, 1.01, 1.5, 3.0, 10.0, 100.0, 0.5, 0.1) for e in es], lambda a: eff(*a)),
        Space("isothermal critical pressure", lambda: [(P, f, D, L) for P in (1.0, 1e5, 7e6) for f in (1e-3, 0.005, 0.02, 0.1) for D in (0.01, 0.1, 0.5, 2.0) for L in ((0.1, 1.0, 10.0, 500., 2e4) if q else (1e-3, .01, .1, .5, 1., 3., 10., 50., 200., 500., 3e3, 2e4, 1e5))], lambda a: iso_crit(*a)),
        Space("isothermal flow", lambda: [(rho, f, P, r, L, D) for rho in (0.5, 11.3, 80.0) for f in (0.005, 0.02) for P in (1.5e5, 1e6, 8e6) for r in ((0.001, 0.05, 0.3, 0.6, 0.9, 0.99) if q else (1e-4, 1e-3, .02, .05, .1, .2, .3, .45, .6, .75, .9, .97, .99, .999))
                                          for L in (1.0, 30.0, 1000.0, 2e4) for D in (0.03, 0.2, 1.0) if 0.05 < f * L / D < 500], lambda a: iso(*a)),
        Space("isothermal inputs", lambda: [g for n in range(5) for g in itertools.combinations(("P1", "P2", "L", "D", "m"), n)], iso_bad),
        conform_space("conformance", modules=["compressible"], only={"isothermal_work_compression", "isentropic_work_compression", "isentropic_T_rise_compression", "isentropic_efficiency", "polytropic_exponent", "T_critical_flow",
                      "P_critical_flow", "P_isothermal_critical_flow", "P_upstream_isothermal_critical_flow", "is_critical_flow", "stagnation_energy", "P_stagnation", "T_stagnation", "T_stagnation_ideal", "isothermal_gas"}, tier=tier),
    ]
