"""C28: the tank object.  Breadth-first search over the observable state of the real object under its public
operations, to closure, each transition checked against the state machine {no table, table(n)} x {no fit, fit(n, m)}."""
import itertools
import math

from ..core import Space, Violation, Outcome, need, expect, attempt, TRIVIAL
from ..conform import conform_space
import fluids.geometry as g

RULE = ("every state reachable from a fresh tank under {volume, height by three methods, areas, two table builds, two fits, thicken, repr, hash}, to closure, for every orientation x head pair x size; "
        "every constructor route to the same tank; every pair of specifications")
ASSUMPTIONS = ["the observable state of a tank is its instance dictionary (numbers, strings, lists; fitted callables are probed at five points)",
               "approximation error bounds: table 2e-4 of the height, fitted polynomials 1e-3"]
LEVEL = "model_checking"
HEADS = (None, "conical", "ellipsoidal", "spherical", "torispherical")


def configs(tier):
    out = []
    for hor in (True, False):
        hs = HEADS + (("guppy",) if hor else ())
        for a, b in itertools.product(hs, hs):
            if tier == "quick" and hor and hs.index(a) > hs.index(b):
                continue
            for D, L in (((1.2, 4.0),) if tier == "quick" else ((1.2, 4.0), (3.0, 0.5), (0.1, 7.0))):
                out.append((hor, a, b, D, L))
    return out


def make(c):
    hor, a, b, D, L = c
    return g.TANK(D=D, L=L, horizontal=hor, sideA=a, sideB=b)


FR = (0.0, 0.003, 0.11, 0.5, 0.93, 1.0)


def probe(fn, top):
    return tuple(round(float(fn(top * x)), 12) for x in (0.03, 0.2, 0.5, 0.7, 0.99))


def observe(t):
    """Canonical observable state."""
    d = {}
    for k, v in t.__dict__.items():
        if isinstance(v, (bool, int, float, str, type(None))):
            d[k] = v
        elif isinstance(v, (list, tuple)):
            d[k] = tuple(float(x) for x in v)
        elif callable(v):
            top = t.h_max if k == "V_from_h_cheb" else t.V_total
            d[k] = probe(v, top)
        else:
            d[k] = repr(v)
    d["table"] = bool(t.table)
    d["chebyshev"] = bool(t.chebyshev)
    return tuple(sorted(d.items(), key=lambda kv: kv[0]))


def tab_default(st):
    return (st[0] or ("n", 100), st[1])


def fit_default(st):
    return (st[0], st[1] or (50, 200))


# (name, operation, model successor)
OPS = [
    ("V", lambda t: [t.V_from_h(t.h_max * x) for x in FR], lambda s: s),
    ("V_cheb", lambda t: [t.V_from_h(t.h_max * x, "chebyshev") for x in FR], fit_default),
    ("h_table", lambda t: [t.h_from_V(t.V_total * x) for x in FR[:-1]], tab_default),
    ("h_brenth", lambda t: [t.h_from_V(t.V_total * x, "brenth") for x in FR], lambda s: s),
    ("h_cheb", lambda t: [t.h_from_V(t.V_total * x, "chebyshev") for x in FR], fit_default),
    ("SA", lambda t: [t.SA_from_h(t.h_max * x) for x in FR[1:]], lambda s: s),
    ("A_cross", lambda t: [t.A_cross_sectional(t.h_max * x) for x in FR], lambda s: s),
    ("table12", lambda t: t.set_table(n=12), lambda s: (("n", 12), s[1])),
    ("table_dx", lambda t: t.set_table(dx=t.h_max / 7.5), lambda s: (("n", 8), s[1])),
    ("table100", lambda t: t.set_table(), lambda s: (("n", 100), s[1])),
    ("fit", lambda t: t.set_chebyshev_approximators(), lambda s: (s[0], (50, 200))),
    ("fit_small", lambda t: t.set_chebyshev_approximators(20, 30), lambda s: (s[0], (20, 30))),
    ("thicken", lambda t: observe(t.add_thickness(0.01, 0.02, 0.03)), lambda s: s),
    ("repr", lambda t: (repr(t), str(t), hash(t)), lambda s: s),
    ("misc", lambda t: t.set_misc(), lambda s: s),
]


def canonical(c, st):
    """A fresh tank put in model state st by its setters alone."""
    t = make(c)
    if st[0]:
        t.set_table(n=st[0][1])
    if st[1]:
        t.set_chebyshev_approximators(*st[1])
    return t


def approx_ok(c, t, name, st2, ans):
    Vt, H = t.V_total, t.h_max
    if name == "V":
        need(abs(ans[0]) <= 1e-12 * Vt, "empty tank holds %r" % (ans[0],))
        expect(ans[-1], Vt, 1e-9, 0, "full tank volume")
        need(all(a <= b + 1e-12 * Vt for a, b in zip(ans, ans[1:])), "volume not increasing with height: %r" % (ans,))
    elif name == "V_cheb":
        tol = 1e-3 if st2[1][0] >= 50 else 2e-2
        for x, v in zip(FR, ans):
            need(abs(v - t.V_from_h(H * x)) <= tol * Vt, "fitted volume at %g of the height: %r, exact %r" % (x, v, t.V_from_h(H * x)))
    elif name in ("h_brenth", "h_table", "h_cheb"):
        for x, h in zip(FR, ans):
            if name == "h_brenth":
                need(0 <= h <= H and abs(t.V_from_h(h) - Vt * x) <= 1e-9 * Vt, "height %r found for volume fraction %g holds %r of %r" % (h, x, t.V_from_h(h), Vt))
            elif name == "h_cheb":
                hb = t.h_from_V(Vt * x, "brenth")
                need(abs(h - hb) <= (2e-3 if st2[1][1] >= 100 else 4e-2) * H, "fitted height %r, exact %r at volume fraction %g" % (h, hb, x))
            else:
                n = st2[0][1]
                hb = t.h_from_V(Vt * x, "brenth")
                need(abs(h - hb) <= (3e-4 if n >= 100 and x > 0.02 else 1.0 / (n - 1)) * H, "table height %r, exact %r at volume fraction %g (table of %d)" % (h, hb, x, n))
    elif name == "A_cross":
        for x, a in zip(FR, ans):
            if 0 < x < 1:
                d = 1e-5 * H
                want = (t.V_from_h(H * x + d) - t.V_from_h(H * x - d)) / (2 * d)
                need(abs(a - want) <= 2e-3 * abs(want) + 1e-6, "surface area at %g of the height %r, expected %r" % (x, a, want))


def check_table(t, c):
    need(len(t.heights) == len(t.volumes), "table sizes")
    n = len(t.heights)
    expect(t.heights[0], 0.0, 0, 1e-12, "table starts at")
    expect(t.heights[-1], t.h_max, 1e-12, 0, "table ends at")
    for i, (h, v) in enumerate(zip(t.heights, t.volumes)):
        expect(h, t.h_max * i / (n - 1), 1e-11, 1e-13, "table height %d" % i)
        expect(v, t.V_from_h(h), 1e-11, 1e-13, "table volume %d" % i)
        if 0 < i < n - 1:
            expect(t.h_from_V(v), h, 1e-9, 1e-12, "table lookup at node %d" % i)
            m = 0.5 * (t.volumes[i - 1] + v)
            hm = t.h_from_V(m)
            need(t.heights[i - 1] - 1e-12 <= hm <= h + 1e-12, "table lookup between nodes %d and %d leaves the interval" % (i - 1, i))


def explore(c):
    base = make(c)
    fixed = {k: v for k, v in observe(base)}
    start = (None, None)
    frontier = [(start, ())]
    seen = {start: ()}
    answers = {}                 # (op, model state after) -> answer
    obs = {start: observe(base)}
    trans = traces = 0
    while frontier:
        nxt = []
        for st, hist in frontier:
            for name, op, succ in OPS:
                t = make(c)
                for h in hist:                      # replay the history on a fresh object
                    OPD[h][1](t)
                need(observe(t) == obs[st], lambda: "history %s does not reproduce its state" % (hist,))
                ans = op(t)
                trans += 1
                st2 = succ(st)
                o2 = observe(t)
                # bound to the model: same observable state as a fresh tank configured directly
                if st2 not in obs:
                    obs[st2] = observe(canonical(c, st2))
                if o2 != obs[st2]:
                    diff = [(k, dict(obs[st2]).get(k), v) for k, v in o2 if dict(obs[st2]).get(k, "absent") != v][:2]
                    raise Violation("after %s then %s the tank differs from one set up directly: %s" % (list(hist), name, str(diff)[:300]))
                for k, v in fixed.items():
                    if k not in ("table", "chebyshev") and dict(o2).get(k) != v:
                        raise Violation("attribute %s changed from %r to %r by %s after %s" % (k, v, dict(o2).get(k), name, list(hist)))
                # and the same answer whatever the history
                key = (name, st2)
                if name in ("V", "h_brenth", "SA", "A_cross", "thicken", "repr"):
                    key = (name, None)
                elif name == "h_table":
                    key = (name, st2[0])
                elif name in ("V_cheb", "h_cheb"):
                    key = (name, st2[1])
                if key not in answers:
                    answers[key] = ans
                    if ans is not None and name not in ("thicken", "repr"):
                        approx_ok(c, t, name, st2, ans)
                    if name.startswith("table"):
                        check_table(t, c)
                else:
                    traces += 1
                    expect(ans, answers[key], 1e-13, 0, "%s after %s (first answered %s)" % (name, list(hist), key))
                if st2 not in seen:
                    seen[st2] = hist + (name,)
                    nxt.append((st2, hist + (name,)))
        frontier = nxt
    return Outcome((len(seen), str(answers[("V", None)])[:60]), states=len(seen), transitions=trans, traces=trans, evals=trans)


OPD = {o[0]: o for o in OPS}


def histories(c):
    """Every history of operations up to a depth, with no state merging: each answer equals the fresh one."""
    cfg, depth = c
    names = ("V", "V_cheb", "h_table", "h_brenth", "h_cheb", "table12", "fit_small", "A_cross")
    fresh = {}
    n = 0
    for hist in itertools.product(names, repeat=depth):
        t = make(cfg)
        st = (None, None)
        for i, nm in enumerate(hist):
            ans = OPD[nm][1](t)
            st = OPD[nm][2](st)
            n += 1
            key = (nm, st[0] if nm == "h_table" else st[1] if nm.endswith("cheb") else None)
            if ans is None:
                continue
            if key in fresh:
                expect(ans, fresh[key], 1e-13, 0, "%s in history %s" % (nm, list(hist[:i + 1])))
            else:
                fresh[key] = ans
    return Outcome(n, transitions=n, traces=n, evals=n)


# ---------------------------------------------------------------- constructor routes
ATTR = ("D", "L", "L_over_D", "sideA_a", "sideB_a", "h_max", "V_total", "V_sideA", "V_sideB", "V_lateral", "A", "A_sideA", "A_sideB", "A_lateral", "R")


def routes(case):
    hor, a, b, D, L, r = case
    kw = dict(horizontal=hor, sideA=a, sideB=b)
    da = db = None
    if a == "torispherical":
        kw.update(sideA_f=0.9, sideA_k=0.1)
    elif a:
        kw.update(sideA_a_ratio=r)
    if b == "torispherical":
        kw.update(sideB_f=1.0, sideB_k=0.06)
    elif b:
        kw.update(sideB_a_ratio=r * 1.1)
    t0 = g.TANK(D=D, L=L, **kw)
    want = [getattr(t0, x) for x in ATTR]
    expect(t0.V_total, t0.V_sideA + t0.V_sideB + t0.V_lateral, 1e-12, 0, "total volume is the sum of its parts")
    expect(t0.A, t0.A_sideA + t0.A_sideB + t0.A_lateral, 1e-12, 0, "total area is the sum of its parts")
    expect(t0.V_lateral, math.pi / 4 * D * D * L, 1e-12, 0, "cylinder volume")
    expect(t0.A_lateral, math.pi * D * L, 1e-12, 0, "cylinder area")
    expect(t0.h_max, D if hor else L + t0.sideA_a + t0.sideB_a, 1e-12, 0, "largest height")
    expect(t0.V_from_h(t0.h_max), t0.V_total, 1e-7, 0, "volume at the largest height")
    if "guppy" not in (a, b):                    # C27 lists the guppy head area
        expect(t0.SA_from_h(t0.h_max), t0.A, 1e-6, 0, "area at the largest height")
    expect(t0.A_sideA_extra, t0.A_sideA - math.pi / 4 * D * D, 1e-12, 1e-12, "extra area")
    if a and a != "torispherical":
        expect(t0.sideA_a, r * D, 1e-12, 0, "head depth from its ratio")
    if b and b != "torispherical":
        expect(t0.sideB_a, 1.1 * r * D, 1e-12, 0, "head depth from its ratio")
    n = 1
    V = t0.V_total
    for spec in (dict(D=D, L_over_D=L / D), dict(L=L, L_over_D=L / D), dict(V=V, D=D), dict(V=V, L=L), dict(V=V, L_over_D=L / D)):
        t = g.TANK(**dict(kw, **spec))
        got = [getattr(t, x) for x in ATTR]
        for x, u, v in zip(ATTR, got, want):
            expect(u, v, 1e-7 if "V" in spec else 1e-11, 1e-9 if "V" in spec else 0, "%s of the tank given by %s" % (x, sorted(spec)))
        n += 1
    # head sizes given directly instead of by ratio
    kw2 = dict(kw)
    for s in "AB":
        if kw2.pop("side%s_a_ratio" % s, None) is not None:
            kw2["side%s_a" % s] = getattr(t0, "side%s_a" % s)
    for spec in (dict(D=D, L=L), dict(D=D, L_over_D=L / D), dict(L=L, L_over_D=L / D), dict(V=V, D=D)):
        t = g.TANK(**dict(kw2, **spec))
        for x, v in zip(ATTR, want):
            expect(getattr(t, x), v, 1e-7 if "V" in spec else 1e-11, 1e-9 if "V" in spec else 0, "%s of the tank with head depths given, by %s" % (x, sorted(spec)))
        n += 1
    # 'same'
    if a == b and a:
        kk = {k: v for k, v in kw.items() if not k.startswith("sideB")}
        u = g.TANK(D=D, L=L, sideB="same", **kk)
        v = g.TANK(D=D, L=L, horizontal=hor, sideA="same", sideB=a, **{k.replace("sideA", "sideB"): x for k, x in kk.items() if k.startswith("sideA_")})
        w = g.TANK(D=D, L=L, horizontal=hor, sideA=a, sideB=a, **{k: x for k, x in list(kk.items()) + [(k.replace("sideA", "sideB"), x) for k, x in kk.items()] if k.startswith("side") and "_" in k})
        for x in ATTR:
            expect(getattr(u, x), getattr(w, x), 1e-12, 0, "%s with sideB='same'" % x)
            expect(getattr(v, x), getattr(w, x), 1e-12, 0, "%s with sideA='same'" % x)
    # thickening: every head depth and the shell grow
    tt = t0.add_thickness(0.01 * D, 0.02 * D, 0.03 * D)
    expect(tt.D, D * 1.02, 1e-12, 0, "diameter after thickening")
    expect(tt.L, L + 0.05 * D, 1e-12, 0, "length after thickening")
    if a != "torispherical":
        expect(tt.sideA_a, t0.sideA_a + 0.02 * D, 1e-12, 0, "head depth after thickening")
    else:
        expect(tt.sideA_a, t0.sideA_a * 1.02, 1e-12, 0, "head depth after thickening")
    if b != "torispherical":
        expect(tt.sideB_a, t0.sideB_a + 0.03 * D, 1e-12, 0, "head depth after thickening")
    need([getattr(t0, x) for x in ATTR] == want, "thickening changed the tank it was asked of")
    need(hash(g.TANK(D=D, L=L, **kw)) == hash(t0), "equal tanks hash differently")
    return (n, V)


def specs(case):
    hor, a, b, D, L, s0, s1, fh = case
    kw = dict(horizontal=hor, sideA=a, sideB=b)
    t = g.TANK(D=D, L=L, **kw)
    h = fh * t.h_max
    val = {"V": t.V_total, "SA": t.A, "V_partial": t.V_from_h(h), "SA_partial": t.SA_from_h(h), "A_cross": t.A_cross_sectional(h)}
    partial = s0 in ("V", "SA") and s1 in ("V", "SA")
    ok, u = attempt(g.TANK.from_two_specs, val[s0], val[s1], s0, s1, h=None if partial else h, **kw)
    if not ok:
        if partial:
            raise Violation("from_two_specs(%s, %s) without a height raises %s" % (s0, s1, u), key="no height")
        return TRIVIAL
    h2 = min(h, u.h_max)
    got = {"V": u.V_total, "SA": u.A, "V_partial": u.V_from_h(h2), "SA_partial": u.SA_from_h(h2), "A_cross": u.A_cross_sectional(h2)}
    # the solver is a local one: when it does land, it must be on the specification (either both or visibly neither)
    e0, e1 = abs(got[s0] / val[s0] - 1), abs(got[s1] / val[s1] - 1)
    if max(e0, e1) > 1e-5:
        return TRIVIAL
    return (round(u.D, 6), round(u.L, 6))


def spaces(tier):
    cfg = configs(tier)
    S = [Space("reachable states", lambda: cfg, explore, limit=120)]
    few = [(True, None, None, 1.2, 4.0), (False, "conical", "ellipsoidal", 1.2, 4.0)] + ([(True, "torispherical", "guppy", 1.2, 4.0), (False, "spherical", "torispherical", 1.2, 4.0)] if tier != "quick" else [])
    S.append(Space("histories", lambda: [(c, d) for c in few for d in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))], histories, limit=600))

    def rcases():
        for hor in (True, False):
            hs = HEADS + (("guppy",) if hor else ())
            for a, b in itertools.product(hs, hs):
                for D, L in ((1.2, 4.0), (3.0, 1.0), (0.25, 0.3)):
                    for r in ((0.25,) if tier == "quick" else (0.05, 0.25, 0.5)):
                        yield hor, a, b, D, L, r
    S.append(Space("constructor routes", rcases, routes, limit=60))

    def scases():
        names = ("V", "SA", "V_partial", "SA_partial", "A_cross")
        for hor in (True, False):
            for a, b in ((None, None), ("ellipsoidal", "ellipsoidal"), ("torispherical", "conical")):
                for s0, s1 in itertools.permutations(names, 2):
                    for fh in (0.4, 0.8):
                        yield hor, a, b, 1.2, 4.0, s0, s1, fh
    S.append(Space("two specifications", scases, specs, limit=60))
    S.append(conform_space("conformance", modules=["geometry"], only={"tank_from_two_specs_err", "V_tank", "SA_tank", "V_from_h", "SA_from_h"}, tier=tier))
    return S
