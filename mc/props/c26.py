"""C26: relief valve sizing (API 520/526/521)."""
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..grid import ref_space, inv_space, Skip, Rejects
from ..conform import conform_space
import fluids.safety_valve as s

RULE = ("every (flow, temperature, compressibility, weight, exponent, upstream and back pressure, option) of the lattice, both sides of the critical pressure ratio "
        "and of every table limit; plus the conformance lattice of every public function; non-trivial when an area is defined")
ASSUMPTIONS = ["API 520 equations transcribed from the documentation; digitized capacity-correction curves are decided by the reference model and by bounds"]
SQ = math.sqrt
ATM = 101325.0
SIZES = [.110, .196, .307, .503, .785, 1.287, 1.838, 2.853, 3.60, 4.34, 6.38, 11.05, 16.0, 26.0]


def Ccoef(k):
    if k == 1:
        return 0.03948 * SQ(math.exp(-1))
    return 0.03948 * SQ(k * (2 / (k + 1)) ** ((k + 1) / (k - 1)))


def crit(k):
    return math.exp(-0.5) if k == 1 else (2 / (k + 1)) ** (k / (k - 1))


def F2(k, r):
    return SQ(k / (k - 1) * r ** (2 / k) * (1 - r ** ((k - 1) / k)) / (1 - r))


def gas(m, T, Z, MW, k, P1, pr, Kd, Kb, Kc):
    P2 = P1 * pr
    A = s.API520_A_g(m, T, Z, MW, k, P1, P2, Kd, Kb, Kc)
    rc = crit(k)
    W, p1, p2 = m * 3600, P1 / 1e3, P2 / 1e3
    hi = 1e-6 * W / (Ccoef(k) * Kd * Kb * Kc * p1) * SQ(T * Z / MW)
    if abs(pr - rc) < 1e-9:
        return TRIVIAL
    if pr < rc:
        want = hi
    else:
        want = 1e-6 * 17.9 * W / (F2(k, pr) * Kd * Kc) * SQ(T * Z / (MW * p1 * (p1 - p2)))
    expect(A, want, 1e-9, 0, "API520_A_g(m=%r, T=%r, Z=%r, MW=%r, k=%r, P1=%r, P2=%r, Kd=%r, Kb=%r, Kc=%r) critical=%s" % (m, T, Z, MW, k, P1, P2, Kd, Kb, Kc, pr < rc))
    expect(s.API520_A_g(3 * m, T, Z, MW, k, P1, P2, Kd, Kb, Kc), 3 * A, 1e-10, 0, "area proportional to flow")
    if Kb == 1 and pr < 0.97:
        need(A >= hi * (1 - 2e-3), "subcritical flow needs a smaller valve (%r) than critical flow (%r)" % (A, hi))
    return A


def KN(P1):
    p = P1 / 1e3
    return 1.0 if p <= 10339 else (0.02764 * p - 1000) / (0.03324 * p - 1061)


def steam(m, T, P1, Kd, Kb, Kc, ed):
    ok, K = attempt(lambda: s.API520_SH(T, P1, ed))
    ok2, A = attempt(lambda: s.API520_A_steam(m, T, P1, Kd, Kb, Kc, ed))
    need(ok == ok2, "API520_SH %r but API520_A_steam %r" % (K, A))
    top = {"7E": 20780325.0, "10E": 22063223.338138755}[ed]
    t0 = {"7E": 422.15, "10E": 478.15}[ed]
    if T > 922.15:
        need(not ok, "superheat at %r K answered" % T)
        return TRIVIAL
    if T < t0 and ed == "10E" or T < t0 and P1 <= top:
        need(ok and K == 1.0, "saturated steam superheat factor %r" % (K,))
    elif P1 > top:
        need(not ok, "P1=%r answered in %s" % (P1, ed))
    else:
        need(ok, "API520_SH(%r, %r, %s) raised %r" % (T, P1, ed, K))
    if not ok:
        return TRIVIAL
    need(0.3 < K <= 1.0 + 1e-12, "superheat factor %r" % K)
    expect(s.API520_N(P1), KN(P1), 1e-12, 0, "API520_N(%r)" % P1)
    expect(A, 1e-6 * 190.5 * m * 3600 / (P1 / 1e3 * Kd * Kb * Kc * KN(P1) * K), 1e-10, 0, "API520_A_steam(%r, %r, %r, %r)" % (m, T, P1, ed))
    if T + 20 <= 922.15 and T > t0:
        need(s.API520_SH(T + 20, P1, ed) <= K + 1e-9, "superheat factor grows with temperature at T=%r P=%r %s" % (T, P1, ed))
    return A


def node(ed, i, j):
    """The table value at each node."""
    if ed == "7E":
        t, p, f = s._KSH_tempKs_7E, s._KSH_Pa_7E, s._KSH_factors_7E
    else:
        t, p, f = s._KSH_K_10E, s._KSH_Pa_10E, s._KSH_factors_10E
    import rfluids.safety_valve as r
    rt, rp, rf = (r._KSH_tempKs_7E, r._KSH_Pa_7E, r._KSH_factors_7E) if ed == "7E" else (r._KSH_K_10E, r._KSH_Pa_10E, r._KSH_factors_10E)
    if i >= len(rt) or j >= len(rp) or rt[i] > 922.15:
        return TRIVIAL
    if rp[j] > {"7E": 20780325.0, "10E": 22063223.338138755}[ed]:
        return TRIVIAL
    if rt[i] < {"7E": 422.15, "10E": 478.15}[ed]:
        return TRIVIAL
    expect(s.API520_SH(rt[i], rp[j], ed), rf[j][i], 1e-9, 1e-12, "superheat table %s at T=%r P=%r" % (ed, rt[i], rp[j]))
    if i + 1 < len(rt) and rt[i + 1] <= 922.15:
        expect(s.API520_SH(0.5 * (rt[i] + rt[i + 1]), rp[j], ed), 0.5 * (rf[j][i] + rf[j][i + 1]), 1e-9, 1e-12, "superheat table %s between nodes" % ed)
    if j + 1 < len(rp) and 0.25 * rp[j] + 0.75 * rp[j + 1] <= 20780325.0:
        expect(s.API520_SH(rt[i], 0.25 * rp[j] + 0.75 * rp[j + 1], ed), 0.25 * rf[j][i] + 0.75 * rf[j + 1][i], 1e-9, 1e-12, "superheat table %s between pressures" % ed)
    return rf[j][i]


def liquid(m, rho, P1, pr, op, Kd, Kc, Kw, visc, ed):
    P2 = ATM + (P1 - ATM) * pr
    Kv, mu = visc
    Q = m / rho * 60000
    Pset = (P1 - ATM) / (1 + op) + ATM
    kw = Kw if Kw is not None else s.API520_W(Pset, P2)
    G = rho / 999.0107539518483

    def area(kv):
        return 1e-6 * 11.78 * Q / (Kd * kw * Kc * kv) * SQ(G / ((P1 - P2) / 1e3))
    kv = Kv
    if kv is None and mu is not None:
        D = SQ(4 * area(1.0) / math.pi)
        kv = s.API520_Kv(rho * (m / rho / area(1.0)) * D / mu, ed)
        need(0 < kv <= 1, "viscosity correction %r" % kv)
    elif kv is None:
        kv = 1.0
    A = s.API520_A_l(m, rho, P1, P2, op, Kd, Kc, Kw, Kv, ed, mu)
    expect(A, area(kv), 1e-9, 0, "API520_A_l(m=%r, rho=%r, P1=%r, P2=%r, overpressure=%r, Kd=%r, Kc=%r, Kw=%r, Kv=%r, %r, mu=%r)" % (m, rho, P1, P2, op, Kd, Kc, Kw, Kv, ed, mu))
    return A


def rounding(i, f):
    A = SIZES[i] * 0.0254 ** 2 * f
    if f > 1 and i == len(SIZES) - 1:
        need(not attempt(lambda: s.API520_round_size(A))[0], "an area above the largest orifice was rounded")
        return TRIVIAL
    want = SIZES[i if f <= 1 else i + 1] * 0.0254 ** 2
    expect(s.API520_round_size(A), want, 1e-12, 0, "API520_round_size(%r * %s orifice)" % (f, s.API526_letters[i]))
    need(s.API526_letters[i] == "DEFGHJKLMNPQRT"[i] and abs(s.API526_A[i] / (SIZES[i] * 0.0254 ** 2) - 1) < 1e-12, "API 526 row %d" % i)
    return A


def back(pset, g, op):
    """Back pressure factors: one below the limit, decreasing, continuous, and refused where there is no curve."""
    Pset = pset
    Pb = ATM + (Pset - ATM) * g / 100
    ok, K = attempt(lambda: s.API520_B(Pset, Pb, op))
    if abs(g - 30) < 1e-6 or abs(g - 38) < 1e-6 or abs(g - 50) < 1e-6:
        return TRIVIAL
    if op not in (0.1, 0.16, 0.21) or g > 50:
        need(not ok, "API520_B at %r%% back pressure, overpressure %r: %r" % (g, op, K))
    else:
        need(ok, "API520_B at %r%%, overpressure %r raised %r" % (g, op, K))
        lim = {0.1: 30, 0.16: 38, 0.21: 50}[op]
        if g < lim:
            need(K == 1.0, "API520_B below the limit: %r" % K)
        else:
            need(0.6 < K < 1, "API520_B %r" % K)
            if g + 0.5 < 50:
                need(s.API520_B(Pset, ATM + (Pset - ATM) * (g + 0.5) / 100, op) <= K, "Kb grows with back pressure")
    w = s.API520_W(Pset, Pb)
    if g < 15:
        need(w == 1, "API520_W below 15%%: %r" % w)
    else:
        need(0.5 < w <= 1, "API520_W %r" % w)
        need(s.API520_W(Pset, ATM + (Pset - ATM) * (g + 0.5) / 100) <= w, "Kw grows with back pressure")
    return w


def noise(m, x, c, r):
    P1, P2 = 1e6, 1e6 / x
    L = 12.7647 + 87.9084 * math.log10(max(x, 1)) if x < 2.92 else 51.6217 + 4.8239 * math.log10(x)
    if not 2.92 <= x <= 2.93:
        expect(s.API521_noise_graph(x), L, 1e-9, 0, "API521_noise_graph(%r)" % x)
    else:
        lo, hi = 12.7647 + 87.9084 * math.log10(2.92), 51.6217 + 4.8239 * math.log10(2.93)
        need(min(lo, hi) - 0.1 <= s.API521_noise_graph(x) <= max(lo, hi) + 0.3, "noise graph at %r" % x)
        L = s.API521_noise_graph(x)
    expect(s.API521_noise(m, P1, P2, c, r), L + 10 * math.log10(0.5 * m * c * c) - 20 * math.log10(r / 30), 1e-9, 0, "API521_noise")
    return L


def flare(which, m):
    f, a, b = {"ground": (s.VDI_3732_noise_ground_flare, 100, 15), "elevated": (s.VDI_3732_noise_elevated_flare, 112, 17)}[which]
    expect(f(10 * m) - f(m), b, 1e-9, 0, "slope of the %s flare noise" % which)
    got = f(m)
    if abs(got - (a + b * math.log10(3.6 * m))) > 1e-6:
        key = "VDI_3732 mass flow multiplied by 360" if abs(got - (a + b * math.log10(360 * m))) < 1e-6 else "%s %r" % (which, m)
        raise Violation("VDI_3732_noise_%s_flare(%r kg/s): got %r, documented %d + %d log10(m in tonne/hour) = %r" % (which, m, got, a, b, a + b * math.log10(3.6 * m)), key=key)
    return got


def spaces(tier):
    T = tier == "thorough"
    prs = sorted([0.02, 0.2, 0.45, 0.5, 0.52, 0.528, 0.5282818, 0.53, 0.55, 0.58, 0.6, 0.607, 0.62, 0.8, 0.95, 0.999] + ([i / 40 for i in range(1, 40)] if T else []))
    Ps = [15e5, 1.0338e7, 1.0339e7, 1.0340e7, 1.5e7, 2.06e7, 20780325.0, 20780326.0, 2.2e7, 22063223.0, 22063224.0]
    return [
        inv_space("gas", gas, {"m": [1.0, 6.7302], "T": [250.0, 348.0, 900.0], "Z": [0.7, 1.0, 1.05], "MW": [2.016, 51.0], "k": [1.001, 1.05, 1.11, 1.3, 1.4, 1.667], "P1": [2e5, 6.7e5, 1e7],
                                  "pr": prs, "Kd": [0.975], "Kb": [1.0, 0.8], "Kc": [1.0, 0.9]}),
        ref_space("critical constant", s.API520_C, Ccoef, {"k": [1.0, 1.0001, 1.05, 1.135, 1.3, 1.4, 1.667, 2.0]}, rtol=1e-6),
        inv_space("steam", steam, {"m": [1.0, 19.3], "T": [400.0, 422.14, 422.16, 450.0, 478.14, 478.16, 533.0, 592.5, 700.0, 811.0, 850.0, 898.0, 900.0, 922.14, 922.16, 1000.0], "P1": [1.2e5, 3e5, 5e5, 1.1e6, 4e6, 9e6] + Ps,
                                   "Kd": [0.975, 0.6], "Kb": [1.0, 0.9], "Kc": [1.0], "ed": ["7E", "10E"]}),
        Space("superheat table", lambda: [(e, i, j) for e in ("7E", "10E") for i in range(20) for j in range(60)], lambda c: node(*c)),
        inv_space("liquid", liquid, {"m": [6.0, 40.0], "rho": [700.0, 998.0], "P1": [6e5, 1836500.0], "pr": [0.05, 0.14, 0.16, 0.3, 0.45], "op": [0.1, 0.25], "Kd": [0.65, 0.62], "Kc": [1.0, 0.9], "Kw": [None, 0.9, 1.0],
                                     "visc": [(None, None), (1.0, None), (0.9, 1e-3), (None, 1e-3), (None, 1.0), (None, 1e-6)], "ed": ["7E", "10E"]}),
        Space("rounding", lambda: [(i, f) for i in range(14) for f in (0.9, 0.999999, 1.0, 1.000001, 1.05)], lambda c: rounding(*c)),
        inv_space("back pressure", back, {"pset": [5e5, 3e6], "g": [1.0, 14.99, 15.01, 20.0, 29.99, 30.01, 33.0, 37.99, 38.01, 41.0, 44.0, 47.0, 49.9, 50.1, 60.0], "op": [0.1, 0.16, 0.21, 0.2]}),
        inv_space("noise", noise, {"m": [1.0, 14.6], "x": [0.5, 1.0, 1.5, 2.9, 2.9199, 2.925, 2.9301, 3.5, 48.0], "c": [353.0], "r": [10.0, 30.0]}),
        Space("flare noise", lambda: [(w, m) for w in ("ground", "elevated") for m in (0.1, 1.0, 3.0, 50.0)], lambda c: flare(*c)),
        conform_space("model", ["safety_valve"], tier=tier),
    ]
