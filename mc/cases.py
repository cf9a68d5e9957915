"""A set of calls covering the public surface, for the cross-cutting checks.

formula_cases(n): calls harvested for every formula function (mc/seeds.json).
numeric_cases():  calls of fluids.numerics, written here.
object_cases():   construction and use of every public class, written here.

Each case is (id, make) where make() returns (function, args, kwargs) with fresh arguments.
Modules are looked up when make() runs, so a case can be run in any configuration."""
import copy
import importlib
import math

from .conform import dec, seeds

PLAIN_SKIP = {"optional.spa"}       # thin numeric kernels, covered through their callers too


def formula_cases(n=2):
    out = []
    for key, ss in seeds().items():
        mod, name = key.rsplit(".", 1)
        for i, s in enumerate(pick(ss, n)):
            def make(mod=mod, name=name, s=s):
                f = getattr(importlib.import_module("fluids." + mod), name)
                return f, (), {k: dec(v) for k, v in s.items()}
            out.append(("%s#%d" % (key, i), make))
    return out


def pick(ss, n):
    """the first ones, preferring those that differ in their choices of method"""
    if len(ss) <= n:
        return ss
    seen, first, rest = set(), [], []
    for s in ss:
        k = tuple(sorted((a, str(v)) if isinstance(v, (str, bool)) or v is None else (a, type(v).__name__) for a, v in s.items()))
        (rest if k in seen else first).append(s)
        seen.add(k)
    return (first + rest)[:n]


# ------------------------------------------------------------------ numerics
def quad1(x, a=1.0):
    return x * x - a - 1.0


def cub(x):
    return x * x * x - 2.0


def dcub(x):
    return 3.0 * x * x


def ddcub(x):
    return 6.0 * x


def cub012(x):
    return x * x * x - 2.0, 3.0 * x * x, 6.0 * x


def cub01(x):
    return x * x * x - 2.0, 3.0 * x * x


def sys2(v):
    x, y = v
    return [x * x + y - 3.0, x - y * y + 1.0]


def jac2(v):
    x, y = v
    return [[2.0 * x, 1.0], [1.0, -2.0 * y]]


def both2(v):
    return sys2(v), jac2(v)


def bowl(v):
    x, y = v
    return (x - 1.0) ** 2 + 3.0 * (y + .5) ** 2 + .5 * x * y


def gbowl(v):
    x, y = v
    return [2.0 * (x - 1.0) + .5 * y, 6.0 * (y + .5) + .5 * x]


def hbowl(v):
    return [[2.0, .5], [.5, 6.0]]


def fixed(v):
    x, y = v
    return [.5 * math.cos(y) + .1, .5 * math.sin(x) + .2]


def fac(f):
    return f


CO = [-.5, .25, 1.5, -2.0, .75]
XS = [0.0, .5, 1.25, 2.0, 3.5, 4.0, 5.5, 6.0]
YS = [1.0, 1.5, .75, 2.5, 3.0, 2.0, 4.5, 4.0]
TCK = ([0.0, 0.0, 0.0, 0.0, 1.0, 2.0, 3.0, 4.0, 4.0, 4.0, 4.0], [.5, 1.5, -.25, 2.0, 1.0, 3.0, -1.0, 0.0, 0.0, 0.0, 0.0], 3)
TX2, TY2, TZ2 = [0.0, 1.0, 2.0], [0.0, .5, 2.0], [[1.0, 2.0, 3.5], [2.0, .5, 1.0], [4.0, 3.0, 2.0]]
TCK2 = ([0.0, 0.0, 1.0, 2.0, 2.0], [0.0, 0.0, .5, 2.0, 2.0], [1.0, 2.0, 3.5, 2.0, .5, 1.0, 4.0, 3.0, 2.0], 1, 1)
MAT2, MAT3 = [[4.0, 1.0], [2.0, 3.0]], [[4.0, 1.0, .5], [2.0, 5.0, -1.0], [1.0, .5, 3.0]]
MAT4 = [[4.0, 1.0, .5, 0.0], [2.0, 5.0, -1.0, .3], [1.0, .5, 3.0, -.7], [.2, 0.0, 1.0, 6.0]]
BIG = [[(6.0 if i == j else 0.0) + ((3 * i + 5 * j) % 7) * .3 for j in range(6)] for i in range(6)]
B6 = [1.0, -2.0, .5, 3.0, 0.0, 1.5]
FITS = [[[200.0, 400.0, 1.0, .01, 5.0, .02, [1e-9, -2e-6, 3e-3, 1.5], [3e-9, -4e-6, 3e-3], [6e-9, -4e-6]]]]

NUM = [
    ("horner", (CO, .7)), ("horner", ([], .7)), ("horner_and_der", (CO, .7)), ("horner_and_der2", (CO, .7)), ("horner_and_der3", (CO, .7)), ("horner_and_der4", (CO, .7)),
    ("horner_backwards", (.7, CO)), ("horner_backwards_ln_tau", (300.0, 500.0, CO)), ("horner_backwards_ln_tau_and_der", (300.0, 500.0, CO)), ("horner_backwards_ln_tau_and_der2", (300.0, 500.0, CO)), ("horner_backwards_ln_tau_and_der3", (300.0, 500.0, CO)),
    ("horner_domain", (.7, CO, 0.0, 2.0)), ("horner_log", (CO, .3, 1.7)), ("horner_stable", (.7, CO, -1.0, .5)), ("horner_stable_and_der", (.7, CO, -1.0, .5)), ("horner_stable_and_der2", (.7, CO, -1.0, .5)), ("horner_stable_and_der3", (.7, CO, -1.0, .5)), ("horner_stable_and_der4", (.7, CO, -1.0, .5)),
    ("horner_stable_ln_tau", (300.0, 500.0, CO, -1.0, .5)), ("horner_stable_ln_tau_and_der", (300.0, 500.0, CO, -1.0, .5)), ("horner_stable_ln_tau_and_der2", (300.0, 500.0, CO, -1.0, .5)), ("horner_stable_ln_tau_and_der3", (300.0, 500.0, CO, -1.0, .5)), ("horner_stable_log", (.7, CO, -1.0, .5, .3)),
    ("exp_horner_backwards", (.7, CO)), ("exp_horner_backwards_and_der", (.7, CO)), ("exp_horner_backwards_and_der2", (.7, CO)), ("exp_horner_backwards_and_der3", (.7, CO)), ("exp_horner_backwards_ln_tau", (300.0, 500.0, CO)), ("exp_horner_backwards_ln_tau_and_der", (300.0, 500.0, CO)), ("exp_horner_backwards_ln_tau_and_der2", (300.0, 500.0, CO)),
    ("exp_horner_stable", (.7, CO, -1.0, .5)), ("exp_horner_stable_and_der", (.7, CO, -1.0, .5)), ("exp_horner_stable_and_der2", (.7, CO, -1.0, .5)), ("exp_horner_stable_and_der3", (.7, CO, -1.0, .5)), ("exp_horner_stable_ln_tau", (300.0, 500.0, CO, -1.0, .5)), ("exp_horner_stable_ln_tau_and_der", (300.0, 500.0, CO, -1.0, .5)), ("exp_horner_stable_ln_tau_and_der2", (300.0, 500.0, CO, -1.0, .5)),
    ("chebval", (.7, CO, -1.0, .5)), ("chebval", (.7, CO)), ("chebder", (CO,)), ("chebder", (CO, 2, .5)), ("chebint", (CO,)), ("chebval_ln_tau", (300.0, 500.0, CO, -1.0, .5)), ("chebval_ln_tau_and_der", (300.0, 500.0, CO, CO[:4], -1.0, .5)), ("chebval_ln_tau_and_der2", (300.0, 500.0, CO, CO[:4], CO[:3], -1.0, .5)), ("chebval_ln_tau_and_der3", (300.0, 500.0, CO, CO[:4], CO[:3], CO[:2], -1.0, .5)),
    ("exp_cheb", (.7, CO, -1.0, .5)), ("exp_cheb_and_der", (.7, CO, CO[:4], -1.0, .5)), ("exp_cheb_and_der2", (.7, CO, CO[:4], CO[:3], -1.0, .5)), ("exp_cheb_and_der3", (.7, CO, CO[:4], CO[:3], CO[:2], -1.0, .5)), ("exp_cheb_ln_tau", (300.0, 500.0, CO, -1.0, .5)), ("exp_cheb_ln_tau_and_der", (300.0, 500.0, CO, CO[:4], -1.0, .5)), ("exp_cheb_ln_tau_and_der2", (300.0, 500.0, CO, CO[:4], CO[:3], -1.0, .5)),
    ("exp_poly_ln_tau_coeffs2", (300.0, 500.0, 5.0, -.02)), ("exp_poly_ln_tau_coeffs3", (300.0, 500.0, 5.0, -.02, 1e-4)),
    ("polyint", (CO,)), ("polyder", (CO,)), ("polyder", (CO, 2)), ("polyint_over_x", (CO,)), ("polyint_stable", (CO, 1.0, 3.0)), ("polyint_over_x_stable", (CO, 1.0, 3.0)), ("stable_poly_to_unstable", (CO, 1.0, 3.0)), ("polynomial_offset_scale", (1.0, 3.0)), ("poly_convert", (CO, 1.0, 3.0)),
    ("quadratic_from_points", (1.0, 2.0, 4.0, 3.0, 1.0, 5.0)), ("quadratic_from_f_ders", (1.5, 2.0, -1.0, .5)), ("deflate_cubic_real_roots", (-6.0, 11.0, -6.0, 1.0)), ("roots_quadratic", (1.0, -3.0, 2.0)), ("roots_quadratic", (1.0, 1.0, 2.0)), ("roots_cubic", (1.0, -6.0, 11.0, -6.0)), ("roots_cubic_a1", (-6.0, 11.0, -6.0)), ("roots_cubic_a2", (1.0, -6.0, 11.0, -6.0)), ("roots_quartic", (1.0, -10.0, 35.0, -50.0, 24.0)),
    ("is_poly_positive", ([1.0, 0.0, 1.0],)), ("is_poly_negative", ([1.0, 0.0, 1.0],)), ("is_poly_positive", (CO, (-1.0, 2.0))),
    ("fit_integral_linear_extrapolation", (150.0, 450.0, [1e-9, -1e-6, 2e-3, 1.5, 0.0], 200.0, 400.0, 1.2, 2.0, .001, .002)), ("fit_integral_over_T_linear_extrapolation", (150.0, 450.0, [1e-9, -1e-6, 2e-3, 0.0], 1.5, 200.0, 400.0, 1.2, 2.0, .001, .002)), ("poly_fit_integral_value", (450.0, [1e-9, -1e-6, 2e-3, 1.5, 0.0], 200.0, 400.0, 1.2, 2.0, .001, .002)), ("poly_fit_integral_over_T_value", (450.0, [1e-9, -1e-6, 2e-3, 0.0], 1.5, 200.0, 400.0, 1.2, 2.0, .001, .002)),
    ("interp", (1.7, XS, YS)), ("interp", (9.0, XS, YS)), ("interp", (9.0, XS, YS, None, None, True)), ("interp", (-1.0, XS, YS, -7.0, 8.0)), ("splev", (2.3, TCK)), ("splev", ([.5, 2.3, 3.9], TCK)), ("bisplev", (1.2, .9, TCK2)), ("bisplev", ([.2, 1.2], [.1, .9], TCK2)), ("tck_interp2d_linear", (TX2, TY2, TZ2)), ("implementation_optimize_tck", (TCK,)),
    ("argsort1d", (YS,)), ("is_increasing", (XS,)), ("is_monotonic", (YS,)), ("linspace", (1.0, 4.0, 7)), ("linspace", (1.0, 4.0, 7, False)), ("logspace", (-1.0, 2.0, 6)), ("diff", (YS,)), ("diff", (YS, 2)), ("cumsum", (YS,)), ("cumulative_trapezoid", (YS, XS)), ("full", (3, 2.5)), ("full", ((2, 3), 1.5)), ("zeros", ((2, 2),)), ("shape", (MAT3,)), ("mean", (YS,)), ("std", (YS,)), ("normalize", ([1.0, 2.0, 5.0],)), ("detect_outlier_normal", (YS + [90.0], 2)), ("sort_paired_lists", (YS, XS)), ("subset_matrix", (MAT4, [0, 2])), ("subset_matrix", (MAT4, [1, 2, 3])), ("stack_vectors", ([[1.0, 2.0], [3.0, 4.0, 5.0]],)), ("null_space", ([[1.0, 2.0, 3.0], [2.0, 4.0, 6.5]],)), ("min_max_ratios", (YS, [y * 1.1 for y in YS])),
    ("max_abs_error", (YS, XS)), ("max_abs_rel_error", (YS, XS)), ("max_squared_error", (YS, XS)), ("max_squared_rel_error", (YS, XS)), ("mean_abs_error", (YS, XS)), ("mean_abs_rel_error", (YS, XS)), ("mean_squared_error", (YS, XS)), ("mean_squared_rel_error", (YS, XS)),
    ("solve_2_direct", (MAT2, [1.0, 2.0])), ("solve_3_direct", (MAT3, [1.0, 2.0, -1.0])), ("solve_4_direct", (MAT4, [1.0, 2.0, -1.0, .5])), ("solve_tridiagonal", ([1.0, .5, -1.0], [4.0, 5.0, 6.0, 3.0], [.5, 1.0, 2.0], [1.0, 2.0, 3.0, 4.0])), ("tridiagonals_as_array", ([1.0, .5, -1.0], [4.0, 5.0, 6.0, 3.0], [.5, 1.0, 2.0])), ("array_as_tridiagonals", ([[4.0, .5, 0.0], [1.0, 5.0, 1.0], [0.0, .5, 6.0]],)),
    ("arrays.solve", (MAT4, [1.0, 2.0, -1.0, .5])), ("arrays.solve", (BIG, B6)), ("arrays.inv", (MAT3,)), ("arrays.inv", (BIG,)), ("arrays.det", (MAT4,)), ("arrays.det", (BIG,)), ("arrays.transpose", (MAT3,)), ("arrays.lu", (BIG,)), ("arrays.svd", (MAT3,)), ("arrays.eye", (3,)), ("arrays.norm2", ([1.0, 2.0, 3.0],)), ("arrays.sort_paired_lists", (YS, XS)), ("arrays.gelsd", (MAT3, [1.0, 2.0, 3.0])), ("arrays.null_space", ([[1.0, 2.0, 3.0], [2.0, 4.0, 6.5]],)),
    ("bisect", (cub, 0.0, 2.0)), ("ridder", (cub, 0.0, 2.0)), ("brenth", (cub, 0.0, 2.0)), ("brenth", (quad1, 0.0, 4.0, (2.0,))), ("newton", (cub, 1.5, dcub)), ("newton", (cub01, 1.5, True)), ("halley", (cub012, 1.5)), ("secant", (cub, 1.5)), ("secant", (cub, 1.5), dict(low=0.0, high=2.0, bisection=True)), ("one_sided_secant", (cub, 2.0, -1.0)), ("fixed_point_anderson", (fixed, [.1, .1])),
    ("newton_system", (sys2, [1.5, 1.5], jac2), dict(ytol=1e-11)), ("newton_system", (both2, [1.5, 1.5], True), dict(ytol=1e-11, line_search=True)), ("broyden2", ([1.5, 1.5], sys2, jac2)), ("homotopy_solver", (sys2, [1.5, 1.5], jac2)), ("nelder_mead", (bowl, [.3, .3])), ("newton_minimize", (bowl, [.3, .3], gbowl, hbowl), dict(ytol=1e-10)), ("jacobian", (sys2, [1.5, 1.5]), dict(scalar=False)), ("jacobian", (bowl, [.3, .3])), ("hessian", (bowl, [.3, .3]), dict(perturbation=1e-4)), ("derivative", (cub, 1.5), dict(dx=1e-3, order=5)), ("derivative", (math.exp, .5), dict(n=2, dx=1e-2, order=7)),
    ("quad", (math.cos, 0.0, 1.5)), ("quad_adaptive", (math.cos, 0.0, 1.5)), ("nquad", (lambda x, y: x * y + 1.0, [lambda y: (0.0, 1.0 + y), lambda: (0.0, 2.0)])), ("best_bounding_bounds", (0.0, 2.0, cub)),
    ("cbrt", (5.0,)), ("polylog2", (.4,)), ("sincos", (1.1,)), ("trunc_exp", (800.0,)), ("trunc_exp", (2.0,)), ("trunc_log", (0.0,)), ("trunc_log", (3.0,)), ("ellipe", (.4,)), ("ellipeinc", (.4, .3)), ("ellipkinc", (.4, .3)), ("gammaincc", (1.2, .7)), ("i0", (.7,)), ("i1", (.7,)), ("k0", (.7,)), ("k1", (.7,)), ("iv", (1.5, .7)), ("hyp2f1", (.5, 1.0, 1.5, .3)), ("lambertw", (.3,)), ("erf", (.3,)), ("gamma", (2.3,)),
    ("add_dd", (1.0, 1e-17, 3.0, -2e-17)), ("mul_dd", (1.0, 1e-17, 3.0, -2e-17)), ("div_dd", (1.0, 1e-17, 3.0, -2e-17)), ("sqrt_dd", (3.0, 1e-17)), ("square_dd", (3.0, 1e-17)), ("exp_dd", (1.3, 1e-17)), ("log_dd", (1.3, 1e-17)), ("pow_dd", (1.3, 0.0, 2.5, 0.0)), ("intpow_dd", (1.3, 0.0, 5)), ("cbrt_explicit_dd", (1.3, 0.0)), ("cube_dd", (1.3, 0.0)), ("mul_imag_dd", (1.0, 0.0, 2.0, 0.0, .5, 0.0, -1.0, 0.0)), ("div_imag_dd", (1.0, 0.0, 2.0, 0.0, .5, 0.0, -1.0, 0.0)), ("lt_dd", (1.0, 0.0, 1.0, 1e-20)), ("sqrt_imag_dd", (1.0, 0.0, 2.0, 0.0)),
    ("make_damp_initial", (3, .5)), ("damping_maintain_sign", ([1.0, 2.0], [-3.0, 1.0], 1.0)), ("basic_damping", ([1.0, 2.0], [.5, .25], .5)), ("sort_nelder_mead_points_python", ([[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]], [3.0, 1.0, 2.0])),
]
# contracts that write into their argument
INPLACE = {"densm", "densu", "bounds_clip_naive", "sort_nelder_mead_points_python", "sort_nelder_mead_points_numba"}


def numeric_cases():
    out = []
    count = {}
    for row in NUM:
        name, args, kw = row[0], row[1], (row[2] if len(row) > 2 else {})
        n = count[name] = count.get(name, -1) + 1

        def make(name=name, args=args, kw=kw):
            if name.startswith("arrays."):
                f = getattr(importlib.import_module("fluids.numerics.arrays"), name[7:])
            else:
                f = getattr(importlib.import_module("fluids.numerics"), name)
            return f, copy.deepcopy(args), dict(kw)
        out.append(("numerics.%s#%d" % (name, n), make))
    return out


# ------------------------------------------------------------------- objects
def attrs(o):
    """the plain numbers an object carries"""
    return sorted((k, v) for k, v in vars(o).items() if isinstance(v, (int, float)) and not isinstance(v, bool))


def _tank(F, **kw):
    t = F.TANK(**kw)
    return [t.V_total, t.h_max, t.V_from_h(.4 * t.h_max), t.h_from_V(.3 * t.V_total), t.SA_from_h(.4 * t.h_max), t.A, t.A_sideA, t.L_over_D]


def _psd(p):
    return [p.pdf(2e-4), p.cdf(2e-4), p.dn(.5), p.mean_size(3, 2), p.vssa, p.delta_cdf(1e-4, 3e-4)]


OBJ = [
    ("TANK horizontal", lambda F: _tank(F, D=10., L=500., horizontal=True)),
    ("TANK torispherical vertical", lambda F: _tank(F, D=1.2, L=4., horizontal=False, sideA="torispherical", sideB="torispherical", sideA_f=1., sideA_k=.06, sideB_f=1., sideB_k=.06)),
    ("TANK conical", lambda F: _tank(F, D=1.2, L=4., horizontal=False, sideA="conical", sideB="conical", sideA_a=.3, sideB_a=.3)),
    ("TANK ellipsoidal", lambda F: _tank(F, D=1.2, L=4., horizontal=True, sideA="ellipsoidal", sideB="ellipsoidal", sideA_a=.3, sideB_a=.3)),
    ("TANK from volume", lambda F: _tank(F, V=10., L_over_D=4., horizontal=True, sideA="guppy", sideB="guppy", sideA_a=.2, sideB_a=.2)),
    ("TANK tables", lambda F: (lambda t: (t.set_chebyshev_approximators(deg_forward=16, deg_backwards=16), t.V_from_h(.7, "chebyshev"), t.h_from_V(1.0, "chebyshev")))(F.TANK(D=1.2, L=4., horizontal=True, sideA="spherical", sideB="spherical", sideA_a=.3, sideB_a=.3))),
    ("HelicalCoil", lambda F: (lambda h: [h.tube_length, h.surface_area, h.inner_volume, h.curvature])(F.HelicalCoil(Do=30, H=20, pitch=5, Dt=2, Di=1.8))),
    ("PlateExchanger", lambda F: attrs(F.PlateExchanger(amplitude=5e-4, wavelength=3.7e-3, length=1.2, width=.3, d_port=.05, plates=51))),
    ("RectangularFinExchanger", lambda F: attrs(F.RectangularFinExchanger(.03, .001, .012, length=.3, width=.3, layers=3, plate_thickness=.001, flow="crossflow"))),
    ("RectangularOffsetStripFinExchanger", lambda F: attrs(F.RectangularOffsetStripFinExchanger(fin_length=.05, fin_height=.01, fin_thickness=.003, fin_spacing=.05))),
    ("HyperbolicCoolingTower", lambda F: attrs(F.HyperbolicCoolingTower(D_base=89.0, H_outlet=150., D_inlet=80., H_inlet=6., D_outlet=55., D_throat=50., H_throat=120.))),
    ("AirCooledExchanger", lambda F: attrs(F.AirCooledExchanger(tube_rows=4, tube_passes=4, tubes_per_row=20, tube_length=3, tube_diameter=1 * .0254, fin_thickness=.000406, fin_density=1 / .002309, pitch_normal=.06033, pitch_parallel=.05207, fin_height=.0159, tube_thickness=.00338, bundles_per_bay=2, parallel_bays=2, corbels=True))),
    ("PSDLognormal", lambda F: _psd(F.PSDLognormal(s=.5, d_characteristic=2e-4))),
    ("PSDGatesGaudinSchuhman", lambda F: _psd(F.PSDGatesGaudinSchuhman(d_characteristic=1e-3, m=2.3))),
    ("PSDRosinRammler", lambda F: _psd(F.PSDRosinRammler(k=200, m=.8))),
    ("ParticleSizeDistribution", lambda F: (lambda p: [p.mean_size(3, 2), p.mean_size_ISO(1, 2), p.fractions, p.vssa, p.dn(.4), p.cdf(2e-5)])(F.ParticleSizeDistribution(ds=[1e-5, 2e-5, 4e-5, 1e-4], fractions=[.2, .3, .5], order=3))),
    ("ATMOSPHERE_1976", lambda F: (lambda a: [a.T, a.P, a.rho, a.v_sonic, a.mu, a.k, a.g])(F.ATMOSPHERE_1976(5000., dT=3.))),
    ("ATMOSPHERE_NRLMSISE00", lambda F: (lambda a: [a.T, a.P, a.rho])(F.ATMOSPHERE_NRLMSISE00(Z=1e3, latitude=45, longitude=45, day=150))),
    ("pipe schedules", lambda F: [F.nearest_pipe(Do=.021), F.nearest_pipe(NPS=2, schedule="80"), F.gauge_from_t(5e-4, SI=False), F.t_from_gauge(.2, False, "BWG")]),
    ("crane valves", lambda F: [F.K_gate_valve_Crane(D1=.07, D2=.1, angle=13.115), F.Darby3K(NPS=12., Re=1e4, name=sorted(F.Darby)[0]) if hasattr(F, "Darby") else 0]),
    ("roughness names", lambda F: [F.nearest_material_roughness("condensate pipes", clean=False), F.material_roughness("condensate pipes")]),
    ("roughness Farshad", lambda F: [F.roughness_Farshad("Cr13, bare", .05)]),
    ("motors", lambda F: [F.motor_efficiency_underloaded(10.1 * 746, .2), F.CSA_motor_efficiency(100 * 746, closed=True, poles=6, high_efficiency=True), F.motor_round_size(1e5)]),
    ("control valve rigorous", lambda F: F.size_control_valve_g(T=433., MW=44.01, mu=1.4665e-4, gamma=1.30, Z=.988, P1=680E3, P2=310E3, Q=38 / 36., D1=.08, D2=.1, d=.05, FL=.85, Fd=.42, xT=.60, full_output=True)),
    ("drag integration", lambda F: F.integrate_drag_sphere(D=.001, rhop=2200., rho=1.2, mu=1.78E-5, t=.5, V=30, distance=True)),
    ("time for settling", lambda F: F.time_v_terminal_Stokes(D=1e-7, rhop=2200., rho=1.2, mu=1.78E-5, V0=1)),
    ("fitting bend data", lambda F: [F.bend_rounded(Di=.1, angle=45, Re=1e5, method="Miller"), F.bend_miter(angle=120., Di=.6, Re=1e6, roughness=1e-5, L_unimpeded=20, method="Miller"), F.diffuser_curved(.25 ** .5, 1., 2.), F.contraction_round(1., .4, .04, method="Miller")]),
    ("oblique mesh", lambda F: [F.round_edge_open_mesh(.96, angle=33.), F.square_edge_screen(.99), F.round_edge_grill(.4, l=.2, Dh=.01)]),
    ("solar position", lambda F: F.solar_position(__import__("datetime").datetime(2003, 10, 17, 19, 30, 30), latitude=39.742476, longitude=-105.1786)),
    ("jet pump", lambda F: sorted(F.liquid_jet_pump(rhop=998., rhos=1098., Ks=.11, Kp=.04, Kd=.11, Km=.117, d_nozzle=.024, P1=426256.1597, P2=133600., d_mixing=.045, Qp=.01, nozzle_retracted=True).items(), key=str)),
    ("earth to sun", lambda F: [F.earthsun_distance(__import__("datetime").datetime(2003, 10, 17, 13, 30, 30))]),
]


def object_cases():
    out = []
    for name, fn in OBJ:
        def make(fn=fn):
            F = importlib.import_module("fluids")
            return fn, (F,), {}
        out.append(("object." + name, make))
    return out


# ------------------------------------------------------------------ lattices
SLOW = {"jet_pump.liquid_jet_pump"}      # inconsistent inputs take its solvers seconds


def lattice_cases(n, factors):
    """every seed of every formula function (up to n), alone and with each float argument scaled"""
    out = []
    for key, ss in seeds().items():
        mod, name = key.rsplit(".", 1)
        for i, s in enumerate(pick(ss, n)):
            def make(mod=mod, name=name, s=s):
                f = getattr(importlib.import_module("fluids." + mod), name)
                return f, (), {k: dec(v) for k, v in s.items()}
            out.append(("%s#%d" % (key, i), make))
            for arg, v in s.items():
                if key in SLOW:
                    break
                v = dec(v)
                if type(v) is float and v and math.isfinite(v):
                    for t in factors:
                        def make(mod=mod, name=name, s=s, arg=arg, w=v * t):
                            f = getattr(importlib.import_module("fluids." + mod), name)
                            k = {q: dec(x) for q, x in s.items()}
                            k[arg] = w
                            return f, (), k
                        out.append(("%s#%d %s*%g" % (key, i, arg, t), make))
    return out


# ------------------------------------------------ kernels with two implementations
def kernel_cases():
    """numerics that are implemented twice (scipy or numpy, and pure Python), on lattices"""
    out = []

    def add(label, name, *args, **kw):
        def make(name=name, args=args, kw=kw):
            f = getattr(importlib.import_module("fluids.numerics"), name)
            return f, copy.deepcopy(list(args)), dict(kw)
        out.append(("kernel.%s %s" % (name, label), make))
    for k in range(-40, 41):
        for e in (0.0, 1e-9, -1e-9, .1, .37):
            x = k * math.pi / 8 + e
            add("%r" % x, "sincos", x)
    for x in (100., 1e3, -1234.5, 54321., 1e-300, 5e-5):
        add("%r" % x, "sincos", x)
    for y in (1e-12, 1e-6, .01, .1, .5, 1., 2., math.e, 10., 1e2, 1e5, 1e10, 1e50, 1e200, -.1, -.3, -.36, -.01):
        add("%r" % y, "lambertw", y)
    for y in (-.36, -.3, -.1, -.01, -1e-4, -1e-10):
        add("%r k=-1" % y, "lambertw", y, -1)
    from .spl import TCKS, TCKS2
    for m, (tck, xs) in enumerate(TCKS):
        for x in xs:
            add("%d %r" % (m, x), "splev", x, tck)
    for m, (tck, xs, ys) in enumerate(TCKS2):
        for x in xs:
            for y in ys:
                add("%d %r %r" % (m, x, y), "bisplev", x, y, tck)
    for m, (f, ab) in enumerate(QUADS):
        for a, b in ab:
            add("%d %r %r" % (m, a, b), "quad", f, a, b)
    return out


def _q0(x):
    return math.exp(-x) * math.sin(3 * x)


def _q1(x):
    return 1.0 / (1.0 + x * x)


def _q2(x):
    return math.sqrt(x)


def _q3(x):
    return math.log(x)


def _q4(x):
    return x ** 5 - 3 * x ** 2 + 1.0


QUADS = [(_q0, [(0., 1.), (0., 4.), (-1., 2.), (2., -1.)]), (_q1, [(0., 1.), (-5., 5.), (0., 50.)]),
         (_q2, [(0.25, 1.), (1., 9.)]), (_q3, [(.5, 2.), (1., 10.)]), (_q4, [(-1., 1.), (0., 3.), (3., 0.)])]
