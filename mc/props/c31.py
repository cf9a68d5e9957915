"""C31: pipe catalogue and wire gauge lookups."""
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
import fluids.piping as p
import rfluids.piping as rp

RULE = ("every row of every pipe schedule under every query class (nominal size; inner or outer diameter equal to, a little below and above, and halfway to the row; beyond the ends; "
        "number-valued schedules; unlisted sizes), every gauge of every wire schedule in both unit systems and every gap between neighbouring gauges; non-trivial when a row is returned")
ASSUMPTIONS = ["the catalogue numbers themselves are the reference model's committed tables (transcribed from the reviewed tree)"]


def row(sch, i):
    N, Di, Do, t = rp.schedule_lookup[sch]
    return (N[i], Di[i] * 1e-3, Do[i] * 1e-3, t[i] * 1e-3)


def same(got, want, what):
    need(isinstance(got, tuple) and len(got) == 4, "%s returned %r" % (what, got))
    for g, w, n in zip(got, want, ("NPS", "Di", "Do", "t")):
        expect(g, w, 1e-12, 0, "%s: %s" % (what, n))


def pipe(sch, i):
    N, Di, Do, t = rp.schedule_lookup[sch]
    w = row(sch, i)
    same(p.nearest_pipe(NPS=N[i], schedule=sch), w, "nearest_pipe(NPS=%r, schedule=%r)" % (N[i], sch))
    need(abs((w[2] - w[1]) / 2 - w[3]) < 1e-9, "row %r: wall is not half the difference of the diameters" % (w,))
    if float(N[i]) == int(N[i]):
        same(p.nearest_pipe(NPS=int(N[i]), schedule=sch), w, "integer NPS")
    n = 0
    for name, tab in (("Di", Di), ("Do", Do)):
        v = tab[i]
        prev = tab[i - 1] if i else 0.0
        qs = [(v * 1e-3, i), (float("%.10g" % (v * 1e-3)), i), (v / 1000, i)]           # the size itself, however it was computed
        qs += [((v - f * (v - prev)) * 1e-3, i) for f in (1e-4, 0.01, 0.5, 0.99, 1 - 1e-4)]
        qs += [((v + 1e-4 * (v - prev)) * 1e-3, i + 1)]
        if i == 0:
            qs += [(1e-9, 0), (v * 1e-6, 0)]
        if i == len(tab) - 1:
            qs += [(v * 1e-3 * 2, i + 1), (1e3, i + 1)]
        for q, j in qs:
            n += 1
            what = "nearest_pipe(%s=%r, schedule=%r)" % (name, q, sch)
            ok, r = attempt(p.nearest_pipe, schedule=sch, **{name: q})
            if j >= len(tab):
                need(not ok and r == "ValueError", "%s beyond the largest size gave %r" % (what, r))
            else:
                need(ok, "%s raised %r" % (what, r))
                same(r, row(sch, j), what)
                need(r[1 if name == "Di" else 2] >= q * (1 - 1e-9), "%s smaller than asked" % what)
    # every combination in which several are given: Di takes precedence over Do, Do over NPS
    k = (i + 1) % len(N)
    same(p.nearest_pipe(Di=Di[i] * 1e-3, Do=Do[k] * 1e-3, NPS=N[k], schedule=sch), w, "Di given with Do and NPS")
    same(p.nearest_pipe(Do=Do[i] * 1e-3, NPS=N[k], schedule=sch), w, "Do given with NPS")
    # the lookup helpers on the raw tables
    same(p.Di_lookup(Di[i], N, Di, Do, t), (N[i], Di[i], Do[i], t[i]), "Di_lookup")
    same(p.Do_lookup(Do[i], N, Di, Do, t), (N[i], Di[i], Do[i], t[i]), "Do_lookup")
    same(p.NPS_lookup(N[i], N, Di, Do, t), (N[i], Di[i], Do[i], t[i]), "NPS_lookup")
    if sch.isdigit():
        for s in (int(sch), float(sch)):
            same(p.nearest_pipe(NPS=N[i], schedule=s), w, "schedule=%r" % s)
            same(p.nearest_pipe(Di=Di[i] * 1e-3, schedule=s), w, "schedule=%r" % s)
    if sch == "40":
        same(p.nearest_pipe(NPS=N[i]), w, "default schedule")
        same(p.nearest_pipe(Do=Do[i] * 1e-3), w, "default schedule")
    return w


def odd(c):
    kind, sch = c
    N, Di, Do, t = rp.schedule_lookup[sch]
    if kind == "nps":
        listed = set(N)
        for v in [0, 0.1, 0.3, 7, 11, 13, 999, 1e4, -1] + [x + 0.01 for x in N]:
            if v in listed:
                continue
            ok, r = attempt(p.nearest_pipe, NPS=v, schedule=sch)
            need(not ok and r == "ValueError", "NPS %r is not in schedule %s but gave %r" % (v, sch, r))
        for q in (0.0, float("nan")):
            for nm in ("Di", "Do"):
                ok, r = attempt(p.nearest_pipe, schedule=sch, **{nm: q})
                if q == q:
                    need(ok, "zero diameter")
                    same(r, row(sch, 0), "nearest_pipe(%s=0)" % nm)
                else:
                    need(not ok, "NaN diameter gave %r" % (r,))
    else:
        for s in (sch + "x", "x" + sch, sch.lower() if sch.lower() != sch else "nope", "", 41, 7.0, None, " " + sch):
            ok, r = attempt(p.nearest_pipe, NPS=N[0], schedule=s)
            need(not ok, "schedule %r gave %r" % (s, r))
    ok, r = attempt(p.nearest_pipe, schedule=sch)
    need(not ok, "no size given: %r" % (r,))
    return len(N)


def tables():
    """the code's catalogue has exactly the reference model's schedules, row for row"""
    need(set(p.schedule_lookup) == set(rp.schedule_lookup), "schedules differ: %r" % sorted(set(p.schedule_lookup) ^ set(rp.schedule_lookup)))
    for k, v in rp.schedule_lookup.items():
        for a, b in zip(p.schedule_lookup[k], v):
            need(len(a) == len(b), "schedule %s has %d rows" % (k, len(a)))
    need(set(p.wire_schedules) == set(rp.wire_schedules), "wire schedules differ")
    return len(rp.schedule_lookup)


INCH = 0.0254


def gauge(sch, i):
    G, inch, SI, dec = rp.wire_schedules[sch]
    g = G[i]
    ts = p.t_from_gauge(g, True, sch)
    ti = p.t_from_gauge(g, False, sch)
    expect(ti, inch[i], 1e-12, 0, "t_from_gauge(%r, False, %s)" % (g, sch))
    expect(ts, SI[i], 1e-12, 0, "t_from_gauge(%r, True, %s)" % (g, sch))
    expect(ts, ti * INCH, 5e-3, 0, "gauge %r of %s: metres against inches" % (g, sch))
    first = G.index(g) if g in G else i
    need(p.gauge_from_t(ti, False, sch) == g, "gauge_from_t(t_from_gauge(%r)) in inches gave %r in %s" % (g, p.gauge_from_t(ti, False, sch), sch))
    need(p.gauge_from_t(ts, True, sch) == g, "gauge_from_t(t_from_gauge(%r)) in metres gave %r in %s" % (g, p.gauge_from_t(ts, True, sch), sch))
    if sch == "BWG":
        expect(p.t_from_gauge(g), SI[i], 1e-12, 0, "default schedule")
        need(p.gauge_from_t(ts) == g, "default schedule")
    if i + 1 < len(inch):
        a, b = inch[i], inch[i + 1]
        for f in (1e-3, 0.05, 0.099, 0.101, 0.2, 0.5, 0.9, 0.999):
            t = b + f * (a - b)
            want = G[i + 1] if f <= 0.1 else G[i]
            for SIq in (False, True):
                got = p.gauge_from_t(t * INCH if SIq else t, SIq, sch)
                need(got == want, "gauge_from_t(%r in, %s, SI=%s) = %r, not %r (next smaller gauge only when within 10%%)" % (t, sch, SIq, got, want))
    else:
        for t in (inch[-1] * 0.999, inch[-1] * 0.5, 1e-9):
            for SIq in (False, True):
                ok, got = attempt(p.gauge_from_t, t * INCH if SIq else t, SIq, sch)
                if ok and got not in G:
                    raise Violation("gauge_from_t(%r in, schedule=%r) = %r is not a gauge of the schedule (thinnest: gauge %r, %r in)" % (t, sch, got, G[-1], inch[-1]), key="below thinnest %s" % sch)
                need(not ok or got == G[-1], "gauge below the thinnest: %r" % got)
    if i == 0:
        for t in (inch[0] * 1.001, 1.0, 10.0):
            for SIq in (False, True):
                ok, got = attempt(p.gauge_from_t, t * INCH if SIq else t, SIq, sch)
                need(not ok and got == "ValueError", "thickness %r above the largest gave %r" % (t, got))
        for bad in (-1, 1000, 0.123, "5"):
            ok, got = attempt(p.t_from_gauge, bad, True, sch)
            need(not ok and got == "ValueError", "gauge %r gave %r" % (bad, got))
        for s in (sch + "x", "", sch.lower()):
            need(not attempt(p.t_from_gauge, g, True, s)[0] and not attempt(p.gauge_from_t, inch[3], False, s)[0], "schedule %r accepted" % s)
    return ts, ti


def erosional(rho, C):
    v = p.erosional_velocity(rho, C)
    expect(v, C * 0.3048 / math.sqrt(rho / (0.45359237 / 0.3048 ** 3)), 1e-12, 0, "erosional_velocity(%r, %r)" % (rho, C))
    return v


def spaces(tier):
    return [
        Space("tables", lambda: [0], lambda c: tables()),
        Space("pipes", lambda: [(s, i) for s in rp.schedule_lookup for i in range(len(rp.schedule_lookup[s][0]))], lambda c: pipe(*c)),
        Space("unlisted", lambda: [(k, s) for s in rp.schedule_lookup for k in ("nps", "sched")], odd),
        Space("gauges", lambda: [(s, i) for s in rp.wire_schedules for i in range(len(rp.wire_schedules[s][0]))], lambda c: gauge(*c)),
        Space("erosional", lambda: [(r, c) for r in (1e-3, 1.0, 35.0, 1000.0, 1e5) for c in (1.0, 100.0, 125.0, 1e3)], lambda c: erosional(*c)),
        conform_space("conformance", modules=["piping"], tier=tier),
    ]
