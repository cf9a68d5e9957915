"""C15: what fluids.numba and fluids.numba_vectorized compile returns what the interpreted functions return.

Which functions compile for which kinds of argument (numba itself refuses some) is a table made once on the reviewed tree;
everything in it must still compile, and agree on the lattice."""
import json
import math
import os

from .. import conform, nb
from ..conform import calls, cur
from ..core import Outcome, Space, TRIVIAL, Violation, expect, need

HERE = os.path.dirname(os.path.abspath(__file__))
RULE = ("Every function x kinds of arguments of mc/numba.json x every call of the lattice with those kinds (quick: one pattern of kinds per function, and the functions that compile in a few seconds or "
        "whose source the interface rewrites); array calls of numba_vectorized; the two compiled classes; the solvers, splines, polynomials and special functions of the compiled numerics.")
ASSUMPTIONS = ["numba decides which Python it accepts: functions and argument kinds it refused on the reviewed tree are not claimed",
               "compiled code may reorder arithmetic (fastmath): results within 1e-9, or within what the interpreted function shows when inputs move by 1e-13, agree; 1e-6 where another quadrature or solver routine is used",
               "calls for which the interpreted function raises or returns nan say nothing"]
# rewritten by the interface, or using what it replaces by hand (splines, special functions, lists as arrays, deleted lines)
SPECIAL = """packed_tower.Stichlmair_flood packed_tower._Stichlmair_flood_f_and_jac compressible.isothermal_gas fittings.Darby3K fittings.Hooper2K optional.spa.solar_position
optional.spa.longitude_obliquity_nutation optional.spa.transit_sunrise_sunset fittings.bend_rounded_Crane friction.roughness_Farshad fittings.bend_rounded_Miller fittings.entrance_distance
fittings.contraction_round_Miller geometry.V_tank geometry.V_from_h geometry.SA_from_h geometry.SA_partial_horiz_guppy_head fittings.diffuser_conical_staged safety_valve.API520_SH
compressible.P_isothermal_critical_flow drag.v_terminal two_phase.Taitel_Dukler_regime fittings.Crane_loss_coefficient control_valve.control_valve_noise_l_2015""".split()


def table():
    return json.load(open(os.path.join(os.path.dirname(HERE), "numba.json")))


def sp_scalar(T):
    # integrands of the head areas: out of their domain the interpreted one is rescued by exceptions that compiled code does not raise
    tab = {k: v for k, v in table().items() if "_head_int" not in k}
    n = 600 if T else 150
    cs = []
    for key, pats in tab.items():
        if not T:
            best = max(pats, key=lambda p: pats[p])
            if pats[best] > 2.5 and key not in SPECIAL:
                continue
            use = [best] if key not in SPECIAL else list(pats)[:3]
        else:
            use = list(pats)
        cs += [(-pats[p], key, p) for p in use]
    if not T:
        k = "flow_meter.differential_pressure_meter_solver"
        cs += [(-9.0, k, p) for p in tab[k] if "P1:NoneType" in p][:1]
    cs.sort()

    def fn(case):
        _, key, p = case
        if cur(key) is None or nb.compiled(key) is None:
            raise Violation("fluids.numba.%s no longer exists" % key, key=key)
        ok = 0
        seen = set()
        for kw in calls(key, n):
            if nb.pattern(kw) != p or kw.get("sst") or not nb.sane(kw):
                continue
            bad, said = nb.check(key, kw)
            if bad:
                k = key
                if key == "geometry.SA_partial_horiz_guppy_head" and kw["h"] >= kw["D"] or key == "geometry.SA_from_h" and kw["h"] >= kw["D"] and "guppy" in (kw["sideA"], kw["sideB"]) and kw["horizontal"]:
                    k += " full guppy head"
                elif key == "flow_meter.differential_pressure_meter_solver" and kw.get("P1") is None:
                    k += " for P1"
                elif key == "flow_meter.differential_pressure_meter_solver" and kw.get("D2") is None:
                    k += " for D2"
                raise Violation("fluids.numba.%s(%s) gives %s" % (key, ", ".join("%s=%r" % i for i in kw.items()), bad), key=k)
            ok += said
            if said:
                seen.add(repr(kw))
        return Outcome(ok, evals=ok, outcomes=len(seen)) if ok else TRIVIAL
    return Space("scalar functions", lambda: cs, fn, key=lambda c: "%s(%s)" % c[1:], limit=400.0)


def sp_vector(T):
    p = os.path.join(os.path.dirname(HERE), "numba_vec.json")
    tab = json.load(open(p))
    cs = sorted((-c, k) for k, c in tab.items() if T or c < 0.6)
    n = 60 if T else 12

    def fn(case):
        key = case[1]
        ok = 0
        if nb.compiled(key, True) is None:
            raise Violation("fluids.numba_vectorized.%s no longer exists" % key, key=key)
        for kw in calls(key, n):
            if not nb.sane(kw):
                continue
            for which in ((), (0,), (1,)):
                bad, said = nb.check_vec(key, kw, which)
                if bad:
                    raise Violation("fluids.numba_vectorized: %s" % bad, key=key)
                ok += said
        return Outcome(ok, evals=ok, outcomes=ok) if ok else TRIVIAL
    return Space("array functions", lambda: cs, fn, key=lambda c: c[1], limit=400.0)


C1 = [1.25e-3, -0.31, 2.2, -4.5]
C2 = [0.7, -1.3, 0.02, 3.1, -0.45, 1.0]
C3 = [2.5]
C4 = [-3.0, 1.0, 0.5]
XS = [-1.7, -1.0, -0.3, 0.0, 0.25, 0.6, 1.0, 2.4, 11.0]
DOM = {"coeffs": [C1, C2, C4, C3], "c": [C1, C2, C4], "x": XS, "T": [120.0, 300.0, 505.5, 580.0], "Tc": [588.0, 645.0], "offset": [0.0, -1.25], "scale": [1.0, 0.37], "xmin": [-0.5, 1.0], "xmax": [2.0, 7.5],
       "low": [-0.5, 1.0], "high": [2.0, 7.5], "log_coeff": [0.4, -2.0], "int_coeffs": [C1, C2], "T_int_T_coeffs": [C1, C2], "poly_fit_log_coeff": [0.3], "T1": [90.0, 250.0, 700.0], "T2": [100.0, 450.0, 900.0],
       "Tmin": [150.0], "Tmax": [600.0], "Tmin_value": [2.5], "Tmax_value": [9.0], "Tmin_slope": [0.01], "Tmax_slope": [0.03], "val": [1.5], "der": [0.02], "der2": [-0.003],
       "data": [[1.0, 2.5, -3.0, 4.0], [0.5, 0.1], [3.0]], "calc": [[1.1, 2.0, -3.0, 4.5], [0.5, 0.2], [2.0]], "values": [[1.0, 2.5, 3.0, 4.0], [0.5]], "points": [[1.0, 2.0, 3.0], [1.0, 1.0, 2.0], [3.0, 2.0], [1.0, 3.0, 2.0]],
       "arr": [[3.0, 1.0, 2.0, 2.5], [1.0]], "a": [1.0, -2.5, 0.0], "b": [-3.0, 0.5], "d": [2.0, -0.125], "e": [0.3, -4.0], "x0": [1.5, -0.7], "x1": [2.0], "x2": [3.5], "f0": [1.0], "f1": [-2.0], "f2": [0.3],
       "v": [1.5], "d1": [0.2], "d2": [-3.0], "start": [0.0, -2.5], "stop": [3.0, 7.25], "num": [1, 2, 5, 50], "a_": [1.0]}
OV = {"interp": {"dx": [[0.0, 1.0, 2.5, 4.0]], "dy": [[1.0, -1.0, 3.0, 3.5]], "x": [-1.0, 0.0, 0.5, 1.0, 2.4, 3.9, 4.0, 5.0], "left": [None], "right": [None], "extrapolate": [False, True]},
      "cumsum": {"a": [C1, C2, C3]}, "diff": {"a": [C1, C2], "n": [1], "axis": [-1]}, "normalize": {"values": DOM["values"]}, "argsort1d": {"arr": DOM["arr"]},
      "mean": {}, "isclose": {"a": [1.0, 0.0, -2.5], "b": [1.0, 1.0 + 1e-10, 1e-12], "rel_tol": [1e-9], "abs_tol": [0.0, 1e-10]},
      "binary_search": {"key": [0.5, 1.0, 2.0, 7.0], "arr": [[1.0, 2.0, 3.5, 5.0]], "size": [None]}, "horner_domain": {"xmin": [-0.5], "xmax": [2.0]},
      "solve_2_direct": {"mat": [[[2.0, 1.0], [-0.5, 3.0]]], "vec": [[1.0, -2.0]]}, "solve_3_direct": {"mat": [[[2.0, 1.0, 0.3], [-0.5, 3.0, 0.2], [1.0, 0.0, 4.0]]], "vec": [[1.0, -2.0, 0.5]]},
      "solve_4_direct": {"mat": [[[2.0, 1.0, 0.3, 1.5], [-0.5, 3.0, 0.2, 0.0], [1.0, 0.0, 4.0, 2.0], [0.1, 0.2, 0.3, 5.0]]], "vec": [[1.0, -2.0, 0.5, 3.0]]},
      "solve_tridiagonal": {"a": [[1.0, 0.5]], "b": [[4.0, 5.0, 6.0]], "c": [[1.0, -1.0]], "d": [[1.0, 2.0, 3.0]]}, "polylog2": {"x": [-1.0, 0.2, 0.45, 0.9, 0.97]}, "polyder": {"m": [1]}, "polyint": {},
      "chebder": {"m": [1], "scl": [1.0]}, "chebint": {"m": [1], "lbnd": [0.0], "scl": [1.0]}, "cumulative_trapezoid": {"y": [[1.0, 2.0, 4.0, 3.0]], "x": [None, [0.0, 1.0, 1.5, 4.0]], "dx": [1.0, None]},
      "roots_cubic": {"a": [1.0, 0.0, -2.0], "b": [-6.0, 0.0, 1.0], "c": [11.0, 3.0], "d": [-6.0, 1.0]}, "roots_quadratic": {"a": [1.0, 0.0], "b": [-3.0, 1.0], "c": [2.0, 5.0]},
      "roots_quartic": {"a": [1.0, 2.0], "b": [-10.0, 0.5], "c": [35.0], "d": [-50.0, 3.0], "e": [24.0, 1.0]}, "deflate_cubic_real_roots": {"b": [-6.0], "c": [11.0], "d": [-6.0], "x0": [1.0, 2.0]},
      "trunc_exp": {"x": [-800.0, 0.0, 1.0, 700.0, 800.0]}, "trunc_log": {"x": [1e-300, 1.0, 5.0]}, "logspace": {"start": [0.0, -2.5], "stop": [3.0], "num": [2, 5], "endpoint": [True], "base": [10.0]},
      "linspace": {"endpoint": [True], "retstep": [False]}, "norm2": {"arr": DOM["arr"]}}
SKIP_ARGS = {"dtype"}
# those numba accepts; the others call functions the interface leaves interpreted
NUMERICS = """argsort1d cumsum chebval deflate_cubic_real_roots fit_integral_linear_extrapolation fit_integral_over_T_linear_extrapolation horner horner_and_der horner_and_der2 horner_and_der3
horner_and_der4 horner_domain horner_log horner_stable horner_stable_and_der horner_stable_and_der2 horner_stable_and_der3 horner_stable_and_der4 interp is_increasing is_monotonic isclose
max_abs_error max_abs_rel_error max_squared_error max_squared_rel_error mean mean_abs_error mean_abs_rel_error mean_squared_error mean_squared_rel_error normalize
poly_fit_integral_over_T_value poly_fit_integral_value polyint polyint_over_x polylog2 polynomial_offset_scale quadratic_from_f_ders quadratic_from_points roots_cubic roots_quadratic
roots_quartic sincos solve_2_direct solve_3_direct solve_4_direct solve_tridiagonal std trunc_log binary_search norm2 chebval_ln_tau""".split()


def num_calls(name):
    import inspect
    import itertools
    import fluids.numerics as N
    ps = inspect.signature(getattr(N, name)).parameters
    ov = OV.get(name, {})
    names, dom = [], []
    for p in ps:
        if p in SKIP_ARGS:
            continue
        if p in ov or p in DOM:
            names.append(p)
            dom.append(ov.get(p, DOM.get(p)))
        elif ps[p].default is ps[p].empty:
            raise KeyError(p)
    for c in itertools.product(*dom):
        if "data" in names and "calc" in names and len(c[0]) != len(c[1]):
            continue
        yield dict(zip(names, c))


def sp_numerics():
    def fn(name):
        import numpy as np
        import fluids.numerics as N
        f, g = getattr(N, name), getattr(nb.module().numerics, name)
        ok = 0
        for kw in num_calls(name):
            w, e = nb.run(f, kw)
            if e:
                continue
            a = {k: np.array(v) if isinstance(v, list) else v for k, v in kw.items()}
            try:
                v = nb.norm(g(*a.values()))
            except Exception as x:
                raise Violation("fluids.numba.numerics.%s(%s) raises %s: %s" % (name, kw, type(x).__name__, str(x).replace("\n", " ")[:200]), key=name)
            if not nb.agree(v, w, 1e-9, nb.spread([w, w])) and not close(v, w):
                raise Violation("fluids.numba.numerics.%s(%s) = %s, interpreted %s" % (name, kw, str(v)[:150], str(w)[:150]), key=name)
            ok += 1
        return Outcome(ok, evals=ok, outcomes=ok) if ok else TRIVIAL
    return Space("compiled numerics", lambda: NUMERICS, fn, limit=200.0)


def close(g, w):
    """the largest value sets the scale of rounding in the rest"""
    def flat(x):
        return [i for y in x for i in flat(y)] if isinstance(x, (list, tuple)) else [x]
    g, w = flat(g), flat(w)
    if len(g) != len(w) or any(isinstance(x, str) or x is None for x in g + w):
        return False
    m = max([abs(x) for x in w if x == x and abs(x) != math.inf] + [1e-300])
    return all(a == b or a != a and b != b or abs(a - b) <= 1e-9 * m for a, b in zip(g, w))


def sp_solvers():
    """the compiled solvers, quadrature, splines and special functions, with compiled callables"""
    HARN = ("secant", "brenth", "ridder", "bisect", "quad", "bisplev", "combinations", "special", "solve", "pair")

    def cubic(x, a):
        return x * x * x - a

    def cubic1(x, a):
        return x * x * x - a, 3.0 * x * x

    def dcubic(x, a):
        return 3.0 * x * x

    def expo(x, a):
        return math.exp(x) - a

    def dexpo(x, a):
        return math.exp(x)

    def bump(x, a):
        return 1.0 / (1.0 + a * x * x)

    def fn(name):
        import numba
        import numpy as np
        import fluids.numerics as N
        M = nb.module().numerics
        C = {f.__name__: numba.njit(f) for f in (cubic, dcubic, expo, dexpo, bump)}
        P = {f.__name__: f for f in (cubic, dcubic, expo, dexpo, bump)}
        n = 0
        if name in ("secant", "ridder", "bisect", "brenth"):
            for f, d in (("cubic", "dcubic"), ("expo", "dexpo")):
                for a in (0.3, 2.0, 8.0, 30.0):
                    root = a ** (1 / 3.0) if f == "cubic" else math.log(a)
                    for x0 in (1.0, 1.9, 3.0):
                        if name == "secant":
                            v, w = M.secant(C[f], x0, args=(a,), bisection=True), N.secant(P[f], x0, args=(a,), bisection=True)
                        elif x0 > 1.0:
                            continue
                        else:
                            v = getattr(M, name)(C[f], -3.0, 4.0 + x0, args=(a,))
                            w = getattr(N, name)(P[f], -3.0, 4.0 + x0, args=(a,))
                        expect(v, w, 1e-6, 1e-8, "%s on %s a=%r from %r" % (name, f, a, x0))
                        expect(v, root, 1e-6, 1e-8, "%s finds the root of %s a=%r from %r" % (name, f, a, x0))
                        n += 1
        elif name == "quad":
            for a in (0.3, 2.0, 50.0):
                for lo, hi in ((0.0, 1.0), (-2.0, 1.5), (1.0, 0.25), (0.0, 9.0)):
                    v = M.quad(C["bump"], lo, hi, args=(a,))[0]
                    s = math.sqrt(a)
                    expect(v, (math.atan(s * hi) - math.atan(s * lo)) / s, 1e-7, 1e-12, "quad of 1/(1+%r x^2) over %r..%r" % (a, lo, hi))
                    n += 1
        elif name == "bisplev":
            from scipy.interpolate import RectBivariateSpline
            xs, ys = np.linspace(0, 3, 7), np.array([0.0, 0.5, 0.9, 2.0, 3.5, 4.0])
            z = np.sin(xs)[:, None] * np.cosh(0.5 * ys)[None, :] + 0.1 * xs[:, None]
            for kx, ky in ((1, 1), (3, 3), (2, 3), (3, 1)):
                sp = RectBivariateSpline(xs, ys, z, kx=kx, ky=ky)
                tck = (*sp.tck, kx, ky)
                T = tuple(np.asarray(t) if not isinstance(t, int) else t for t in tck)
                for x in (-0.5, 0.0, 0.4, 0.5, 1.7, 2.99, 3.0, 4.0):
                    for y in (-1.0, 0.0, 0.45, 0.5, 1.3, 3.6, 4.0, 9.0):
                        w = float(sp.ev(min(max(x, 0.0), 3.0), min(max(y, 0.0), 4.0)))
                        expect(float(nb.module().bisplev(x, y, T)), w, 1e-10, 1e-13, "bisplev k=%r at (%r, %r)" % ((kx, ky), x, y))
                        n += 1
        elif name == "combinations":
            import itertools
            for m in range(1, 6):
                for r in range(1, m + 1):
                    pool = tuple(range(m))
                    got = [tuple(i) for i in nb.module().combinations(pool, r)] if callable(nb.module().combinations) else []
                    need(got == list(itertools.combinations(pool, r)), "combinations of %d from %d: %r" % (r, m, got))
                    n += 1
        elif name == "special":
            import scipy.special as sc
            fs = {"erf": sc.erf, "gamma": sc.gamma, "ellipe": sc.ellipe, "i0": sc.i0, "i1": sc.i1, "k0": sc.k0, "k1": sc.k1}
            for s, f in fs.items():
                g = getattr(N, s, None) or f

                g2 = numba.njit(eval("lambda x: F(x)", {"F": f}))
                for x in (0.1, 0.35, 0.5, 0.77, 0.99):
                    expect(g2(x), float(f(x)), 1e-12, 0, "compiled %s(%r)" % (s, x))
                    n += 1
            for s, f, pts in (("iv", sc.iv, ((0.0, 1.0), (1.0, 2.5), (0.5, 3.0))), ("gammaincc", sc.gammaincc, ((0.5, 1.0), (2.0, 3.0))), ("ellipeinc", sc.ellipeinc, ((0.5, 0.3), (1.2, 0.9))),
                              ("ellipkinc", sc.ellipkinc, ((0.5, 0.3), (1.2, 0.9)))):
                g2 = numba.njit(eval("lambda x, y: F(x, y)", {"F": f}))
                for a in pts:
                    expect(g2(*a), float(f(*a)), 1e-12, 0, "compiled %s%r" % (s, a))
                    n += 1
            g2 = numba.njit(eval("lambda a, b, c, x: F(a, b, c, x)", {"F": sc.hyp2f1}))
            for a in ((0.5, 1.0, 1.5, 0.3), (1.0, 2.0, 3.5, -0.7), (0.25, 0.5, 1.25, 0.9)):
                expect(g2(*a), float(sc.hyp2f1(*a)), 1e-12, 0, "compiled hyp2f1%r" % (a,))
                n += 1
        elif name == "solve":
            for w in (5.0, 0.1, 100.0, -0.2, 1e-5):
                expect(complex(M.lambertw(w)).real, complex(N.lambertw(w)).real, 1e-9, 0, "lambertw(%r)" % w)
                n += 1
        elif name == "pair":
            xs = np.array([1.0, 2.5, 4.0, 0.5])
            expect(list(nb.module().normalize(xs)), list(N.normalize(list(xs))), 1e-13, 0, "normalize")
            n += 1
        return Outcome(n, evals=n, outcomes=n) if n else TRIVIAL
    return Space("compiled solvers", lambda: HARN, fn, limit=200.0)


def sp_classes():
    ATM = [(float(z), float(dt)) for z in (-500, 0, 1000, 10999, 11000, 11500, 20000, 32000, 40000, 47000, 51000, 60000, 71000, 84000, 90000) for dt in (0, -15, 22.5)]

    def fn(case):
        import fluids
        M = nb.module()
        kind, i = case
        z, dt = ATM[i]
        a, b = fluids.ATMOSPHERE_1976(z, dt), M.ATMOSPHERE_1976(z, dt)
        for at in ("Z", "dT", "H", "T_layer", "T_increase", "P_layer", "H_layer", "H_above_layer", "T", "P", "rho", "v_sonic", "mu", "k"):
            expect(getattr(b, at), getattr(a, at), 1e-10, 1e-9, "ATMOSPHERE_1976(%r, %r).%s" % (z, dt, at))
        return "ok"
    return Space("compiled classes", lambda: [("atmosphere", i) for i in range(len(ATM))], fn, limit=200.0)


def spaces(tier):
    T = tier != "quick"
    nb.module()
    nb.module(True)
    return [sp_solvers(), sp_numerics(), sp_classes(), sp_scalar(T), sp_vector(T)]
