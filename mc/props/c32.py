"""C32: pump, fan and motor catalogue functions."""
import math
import re

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
import fluids.pump as p
import rfluids.pump as rp
from fluids.constants import hp

RULE = ("every tabulated rating of every motor, drive and fan table, points between and beyond ratings, every load class, every (phase, poles, frequency) and every country record; "
        "non-trivial when a value is returned")
ASSUMPTIONS = ["the catalogue numbers are the reference model's committed tables; the polynomial fits are transcribed there",
               "between ratings efficiencies are interpolated linearly (the documented behaviour); motor sizes round up to the next rating"]
HP = hp


def lin(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for i in range(len(xs) - 1):
        if xs[i] <= x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


FR = (0.0, 0.1, 0.25, 0.5, 0.75, 0.9)


def pts(xs):
    out = [xs[0] * 0.01, xs[0] * 0.5, xs[0] * 0.99, xs[-1] * 1.01, xs[-1] * 3]
    for a, b in zip(xs, xs[1:]):
        out += [a + f * (b - a) for f in FR]
    return out + [xs[-1]]


def csa(high, closed, poles, P):
    tabname = "nema_%s_full_%s_%dp" % ("high" if high else "min", "closed" if closed else "open", poles)
    if not hasattr(rp, tabname):
        ok, r = attempt(p.CSA_motor_efficiency, P * HP, closed, poles, high)
        need(not ok, "no table for %s but answered %r" % (tabname, r))
        return TRIVIAL
    xs = rp.nema_high_P if high else rp.nema_min_P
    ys = getattr(rp, tabname)
    got = p.CSA_motor_efficiency(P * HP, closed=closed, poles=poles, high_efficiency=high)
    expect(got, lin(P, xs, ys), 0, 0.51e-4, "CSA_motor_efficiency(%r hp, closed=%r, poles=%r, high_efficiency=%r)" % (P, closed, poles, high))
    need(0.7 < got < 0.97, "motor efficiency %r" % got)
    need(p.CSA_motor_efficiency(P * HP, closed, poles, high) == got, "positional call differs")
    if not high and hasattr(rp, tabname.replace("min", "high")) and 1.0 <= P <= 200.0:
        best = p.CSA_motor_efficiency(P * HP, closed, poles, True)
        need(best >= got - 0.0055, "high-efficiency minimum %r below the ordinary one %r" % (best, got))
    if (not closed, poles, high) == (True, 2, False):
        need(p.CSA_motor_efficiency(P * HP) == got, "defaults")
    return got


def vfd(P, load):
    got = p.VFD_efficiency(P * HP, load=load)
    X, Y, Z = rp.VFD_efficiency_loads, rp.VFD_efficiency_powers, rp.VFD_efficiencies
    Pc = min(max(P, Y[0]), Y[-1])
    Lc = min(max(load, X[0]), X[-1])
    want = lin(Pc, Y, [lin(Lc, X, row) for row in Z])
    expect(got, want, 0, 0.6e-4, "VFD_efficiency(%r hp, load=%r)" % (P, load))
    need(0.3 < got < 1.0, "drive efficiency %r" % got)
    if load == 1:
        need(p.VFD_efficiency(P * HP) == got, "default load")
    return got


def rounding(P):
    ok, got = attempt(p.motor_round_size, P)
    sizes = [i * HP for i in rp.nema_sizes_hp]
    want = [s for s in sizes if s >= P * (1 - 1e-14)]
    if not want:
        need(not ok and got == "ValueError", "a motor of %r W is beyond the largest rating but %r was returned" % (P, got))
        return TRIVIAL
    need(ok, "raised %r" % got)
    if got < P * (1 - 1e-14) or abs(got - want[0]) > 1e-9 * want[0]:
        raise Violation("motor_round_size(%r) = %r, next rating is %r" % (P, got, want[0]))
    return got


EDGE = [1.0, 5.0, 10.0, 25.0, 60.0]
CURVES = [rp._to_1, rp._to_5, rp._to_10, rp._to_25, rp._to_60, rp._to_infty]


def underloaded(P, load):
    got = p.motor_efficiency_underloaded(P * HP, load)
    i = sum(P > e for e in EDGE)
    if abs(load - rp._efficiency_ones[i]) < 1e-9 or any(abs(P / e - 1) < 1e-9 and P != e for e in EDGE):
        return TRIVIAL
    c = CURVES[i]
    want = 1 if load > rp._efficiency_ones[i] else c[0] + load * (c[1] + load * (c[2] + load * (c[3] + load * c[4])))
    expect(got, want, 1e-12, 0, "motor_efficiency_underloaded(%r hp, load=%r)" % (P, load))
    need(0 < got <= 1.0 + 2e-2, "relative efficiency %r at load %r" % (got, load))
    if load == 0.5:
        need(p.motor_efficiency_underloaded(P * HP) == got, "default load")
    return got


def corripio(kind, x):
    if kind == "pump":
        got = p.Corripio_pump_efficiency(x)
        L = math.log(x * 15850.323)
        want = -0.316 + 0.24015 * L - 0.01199 * L * L
    else:
        got = p.Corripio_motor_efficiency(x)
        L = math.log(x / 745.69987)
        want = 0.8 + 0.0319 * L - 0.00182 * L * L
    expect(got, want, 1e-11, 1e-13, "Corripio_%s_efficiency(%r)" % (kind, x))
    need(got < 1, "efficiency above one")
    return got


def simple(Q, H, n, D, f, poles, P, V, phase, PF):
    expect(p.specific_speed(Q, H, n), n * Q ** 0.5 * H ** -0.75, 1e-12, 0, "specific_speed")
    expect(p.specific_speed(Q, H), p.specific_speed(Q, H, 3600.0), 1e-14, 0, "default speed")
    expect(p.specific_diameter(Q, H, D), D * H ** 0.25 / Q ** 0.5, 1e-12, 0, "specific_diameter")
    w = p.speed_synchronous(f, poles)
    expect(w, 120 * f / poles, 1e-13, 0, "speed_synchronous(%r, %r)" % (f, poles))
    expect(p.speed_synchronous(f), 60 * f, 1e-13, 0, "default poles")
    ok, I = attempt(p.current_ideal, P, V, phase, PF)
    if phase not in (1, 3):
        need(not ok and I == "ValueError", "phase %r gave %r" % (phase, I))
        return w
    expect(I, P / (V * PF * (3 ** 0.5 if phase == 3 else 1)), 1e-12, 0, "current_ideal(P=%r, V=%r, phase=%r, PF=%r)" % (P, V, phase, PF))
    expect(p.current_ideal(P, V), P / V / 3 ** 0.5, 1e-12, 0, "default phase and power factor")
    expect(p.current_ideal(V=V, P=P, phase=phase, PF=PF), I, 0, 0, "keywords")
    return w, I


def country(kind, code):
    tab = p.residential_power if kind == "res" else p.industrial_power
    rtab = rp.residential_power if kind == "res" else rp.industrial_power
    need(code in tab, "country %r is missing" % code)
    c, r = tab[code], rtab[code]
    for a in ("country", "freq", "voltage", "plugs"):
        x, y = getattr(c, a), getattr(r, a)
        need((list(x) if isinstance(x, (list, tuple)) else x) == (list(y) if isinstance(y, (list, tuple)) else y), "%s of %r is %r, catalogue %r" % (a, code, x, y))
    need(re.match(r"^[a-z]{2}$", code) is not None, "country code %r" % code)
    freqs = c.freq if isinstance(c.freq, (list, tuple)) else (c.freq,)
    volts = c.voltage if isinstance(c.voltage, (list, tuple)) else (c.voltage,)
    need(freqs and all(f in p.residential_power_frequencies for f in freqs), "frequency %r" % (c.freq,))
    need(volts and all(90 <= v <= 700 for v in volts), "voltage %r of %s" % (c.voltage, code))
    if kind == "res":
        need(c.plugs and all(q in p.electrical_plug_types for q in c.plugs), "plugs %r" % (c.plugs,))
    ns = {"CountryPower": p.CountryPower}
    back = eval(repr(c), ns)
    need((back.country, back.voltage, back.freq, back.plugs) == (c.country, c.voltage, c.freq, c.plugs), "repr does not rebuild the record")
    return c.country


def fans(name):
    tab, rtab = getattr(p, name), getattr(rp, name)
    xs = {"fan_bare_shaft_efficiencies": "fan_diameters", "fan_driven_axial_efficiencies": "FMEG_axial_powers",
          "fan_centrifugal_backward_efficiencies": "FMEG_centrifugal_backward_powers", "fan_crossflow_efficiencies": "FMEG_cross_flow_powers"}[name]
    need(set(tab) == set(rtab), "grades differ")
    n = 0
    grades = sorted(tab, key=lambda s: int(re.findall(r"\d+", s)[0]))
    for g in grades:
        expect(list(tab[g]), list(rtab[g]), 1e-12, 0, g)
        need(len(tab[g]) == len(getattr(p, xs)), "%s has %d values for %d sizes" % (g, len(tab[g]), len(getattr(p, xs))))
        need(all(a <= b for a, b in zip(tab[g], tab[g][1:])) and 0 < tab[g][0] and tab[g][-1] < 1, "%s not increasing in (0, 1)" % g)
        n += len(tab[g])
    for a, b in zip(grades, grades[1:]):
        need(all(x < y for x, y in zip(tab[a], tab[b])), "grade %s not below %s" % (a, b))
    return n


def data():
    for n in ("belt_efficiencies", "bearing_friction_factors"):
        a, b = getattr(p, n), getattr(rp, n)
        need(set(a) == set(b) and len(a) > 3, n)
        for k in b:
            expect(a[k], b[k], 1e-12, 0, "%s[%r]" % (n, k))
    expect(p.nema_sizes, [i * HP for i in rp.nema_sizes_hp], 1e-12, 0, "nema_sizes")
    need(all(a < b for a, b in zip(p.nema_sizes, p.nema_sizes[1:])), "sizes out of order")
    need(set(p.residential_power) == set(rp.residential_power) and set(p.industrial_power) == set(rp.industrial_power), "countries differ")
    expect(hp, 550 * 0.3048 * 0.45359237 * 9.80665, 1e-12, 0, "horsepower")
    return len(p.nema_sizes)


def spaces(tier):
    q = tier == "quick"
    loads = pts(list(rp.VFD_efficiency_loads))
    sizes = [i * HP for i in rp.nema_sizes_hp]
    rp_pts = sorted(set([0.0, -5.0, 1e-9, 1e9] + sizes + [s * f for s in sizes for f in (1 - 1e-9, 1 + 1e-9, 0.999, 1.001, 1.05)] + [round(s, 3) for s in sizes]))
    S = [
        Space("motor minimum efficiency", lambda: [(h, c, n, x) for h in (False, True) for c in (False, True) for n in (2, 4, 6, 8, 10) for x in pts(rp.nema_high_P if h else rp.nema_min_P)], lambda c: csa(*c)),
        Space("drives", lambda: [(x, l) for x in pts(list(rp.VFD_efficiency_powers)) for l in loads], lambda c: vfd(*c)),
        Space("motor sizes", lambda: rp_pts, rounding),
        Space("part load", lambda: [(x, l / 200.0) for x in (0.1, 0.5, 1.0, 1.001, 3.0, 5.0, 5.001, 7.0, 10.0, 10.001, 20.0, 25.0, 25.001, 40.0, 60.0, 60.001, 80.0, 500.0) for l in range(0, 211, 1)], lambda c: underloaded(*c)),
        Space("Corripio", lambda: [("pump", x * 10.0 ** e) for x in (1, 2, 5) for e in range(-5, 2)] + [("motor", x * 10.0 ** e) for x in (1, 2, 5) for e in range(1, 7)], lambda c: corripio(*c)),
        Space("simple", lambda: [(Q, H, n, D, f, po, P, V, ph, PF) for Q in (1e-3, 0.5, 20.) for H in (0.1, 30., 900.) for n in (60., 3550.) for D in (.05, 2.) for f in (50, 60.0) for po in (2, 4, 12)
                                 for P, V in ((1e4, 120.), (250., 480.)) for ph in (1, 2, 3, 0) for PF in (1, 0.7)], lambda c: simple(*c)),
        Space("countries", lambda: [("res", c) for c in rp.residential_power] + [("ind", c) for c in rp.industrial_power], lambda c: country(*c)),
        Space("fans", lambda: ["fan_bare_shaft_efficiencies", "fan_driven_axial_efficiencies", "fan_centrifugal_backward_efficiencies", "fan_crossflow_efficiencies"], fans),
        Space("data", lambda: [0], lambda c: data()),
        conform_space("conformance", modules=["pump"], tier=tier),
    ]
    return S
