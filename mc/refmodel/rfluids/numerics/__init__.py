from __future__ import annotations
import sys
from cmath import log as clog
from cmath import sqrt as csqrt
from math import acos, asinh, atan2, copysign, cos, exp, fabs, gamma, isinf, isnan, log, pi, sin, sqrt
from rfluids.numerics.arrays import argsort1d, array_as_tridiagonals, dot_product, eye, gelsd, inv, matrix_multiply, matrix_vector_dot, norm2, null_space, shape, solve_tridiagonal, sort_paired_lists, stack_vectors, subset_matrix, sum_matrix_rows, transpose, tridiagonals_as_array
from rfluids.numerics.arrays import solve as py_solve
from rfluids.numerics.doubledouble import add_dd, add_imag_dd, cbrt_dd, cbrt_explicit_dd, cbrt_imag_dd, cube_dd, div_dd, div_imag_dd, eq_dd, exp_dd, ge_dd, gt_dd, imag_inv_dd, intpow_dd, le_dd, log_dd, lt_dd, mul_dd, mul_imag_dd, mul_imag_noerrors_dd, mul_noerrors_dd, neq_dd, pow_dd, sqrt_dd, sqrt_imag_dd, square_dd
from rfluids.numerics.polynomial_evaluation import exp_horner_backwards, exp_horner_backwards_and_der, exp_horner_backwards_and_der2, exp_horner_backwards_and_der3, exp_horner_backwards_ln_tau, exp_horner_backwards_ln_tau_and_der, exp_horner_backwards_ln_tau_and_der2, exp_horner_stable, exp_horner_stable_and_der, exp_horner_stable_and_der2, exp_horner_stable_and_der3, exp_horner_stable_ln_tau, exp_horner_stable_ln_tau_and_der, exp_horner_stable_ln_tau_and_der2, horner, horner_and_der, horner_and_der2, horner_and_der3, horner_and_der4, horner_backwards, horner_backwards_ln_tau, horner_backwards_ln_tau_and_der, horner_backwards_ln_tau_and_der2, horner_backwards_ln_tau_and_der3, horner_domain, horner_log, horner_stable, horner_stable_and_der, horner_stable_and_der2, horner_stable_and_der3, horner_stable_and_der4, horner_stable_ln_tau, horner_stable_ln_tau_and_der, horner_stable_ln_tau_and_der2, horner_stable_ln_tau_and_der3, horner_stable_log
from rfluids.numerics.polynomial_roots import roots_cubic, roots_cubic_a1, roots_cubic_a2, roots_quadratic, roots_quartic
from rfluids.numerics.polynomial_utils import deflate_cubic_real_roots, exp_poly_ln_tau_coeffs2, exp_poly_ln_tau_coeffs3, poly_convert, polyder, polyint, polyint_over_x, polyint_over_x_stable, polyint_stable, polynomial_offset_scale, quadratic_from_f_ders, quadratic_from_points, stable_poly_to_unstable
from rfluids.numerics.special import cbrt, comb, factorial, py_cacos, py_catan, py_catanh, py_hypot, trunc_exp, trunc_log
__all__ = ['IS_PYPY', 'NoSolutionError', 'NotBoundedError', 'OscillationChecker', 'OscillationError', 'SamePointError', 'SolverInterface', 'UnconvergedError', 'acos', 'add_dd', 'add_imag_dd', 'argsort1d', 'array_as_tridiagonals', 'asinh', 'assert_close', 'assert_close1d', 'assert_close2d', 'assert_close3d', 'assert_close4d', 'atan2', 'basic_damping', 'basic_damping', 'best_bounding_bounds', 'bisect', 'bisplev', 'bounds_clip_naive', 'brenth', 'broyden2', 'caching_decorator', 'cacos', 'catan', 'catanh', 'cbrt', 'cbrt_dd', 'cbrt_explicit_dd', 'cbrt_imag_dd', 'chebder', 'chebint', 'chebval', 'chebval_ln_tau', 'chebval_ln_tau_and_der', 'chebval_ln_tau_and_der2', 'chebval_ln_tau_and_der3', 'clog', 'comb', 'csqrt', 'cube_dd', 'cumsum', 'cumulative_trapezoid', 'curve_fit', 'damping_maintain_sign', 'deflate_cubic_real_roots', 'derivative', 'detect_outlier_normal', 'diff', 'differential_evolution', 'div_dd', 'div_imag_dd', 'ellipe', 'ellipeinc', 'ellipkinc', 'eq_dd', 'erf', 'evaluate_linear_fits', 'evaluate_linear_fits_d', 'evaluate_linear_fits_d2', 'exp_cheb', 'exp_cheb_and_der', 'exp_cheb_and_der2', 'exp_cheb_and_der3', 'exp_cheb_ln_tau', 'exp_cheb_ln_tau_and_der', 'exp_cheb_ln_tau_and_der2', 'exp_dd', 'exp_horner_backwards', 'exp_horner_backwards_and_der', 'exp_horner_backwards_and_der2', 'exp_horner_backwards_and_der3', 'exp_horner_backwards_ln_tau', 'exp_horner_backwards_ln_tau_and_der', 'exp_horner_backwards_ln_tau_and_der2', 'exp_horner_stable', 'exp_horner_stable_and_der', 'exp_horner_stable_and_der2', 'exp_horner_stable_and_der3', 'exp_horner_stable_ln_tau', 'exp_horner_stable_ln_tau_and_der', 'exp_horner_stable_ln_tau_and_der2', 'exp_poly_ln_tau_coeffs2', 'exp_poly_ln_tau_coeffs2', 'exp_poly_ln_tau_coeffs3', 'exp_poly_ln_tau_coeffs3', 'factorial', 'fit_integral_linear_extrapolation', 'fit_integral_over_T_linear_extrapolation', 'fit_minimization_targets', 'fixed_point_anderson', 'fixed_point_to_residual', 'fsolve', 'full', 'gamma', 'gammaincc', 'gammaincc', 'ge_dd', 'gt_dd', 'halley', 'hessian', 'homotopy_solver', 'horner', 'horner_and_der', 'horner_and_der2', 'horner_and_der3', 'horner_and_der4', 'horner_backwards', 'horner_backwards_ln_tau', 'horner_backwards_ln_tau_and_der', 'horner_backwards_ln_tau_and_der2', 'horner_backwards_ln_tau_and_der3', 'horner_domain', 'horner_log', 'horner_stable', 'horner_stable_and_der', 'horner_stable_and_der2', 'horner_stable_and_der3', 'horner_stable_and_der4', 'horner_stable_ln_tau', 'horner_stable_ln_tau_and_der', 'horner_stable_ln_tau_and_der2', 'horner_stable_ln_tau_and_der3', 'horner_stable_log', 'hyp2f1', 'i0', 'i1', 'imag_inv_dd', 'implementation_optimize_tck', 'interp', 'intpow_dd', 'is_increasing', 'is_micropython', 'is_monotonic', 'is_poly_negative', 'is_poly_positive', 'isclose', 'iv', 'iv', 'jacobian', 'jacobian_methods', 'k0', 'k1', 'lambertw', 'le_dd', 'linspace', 'lmder', 'lmfit', 'log_dd', 'logspace', 'lt_dd', 'make_damp_initial', 'max_abs_error', 'max_abs_rel_error', 'max_squared_error', 'max_squared_rel_error', 'mean', 'mean_abs_error', 'mean_abs_rel_error', 'mean_squared_error', 'mean_squared_rel_error', 'min_max_ratios', 'minimize', 'mul_dd', 'mul_imag_dd', 'mul_imag_noerrors_dd', 'mul_noerrors_dd', 'multivariate_solvers', 'nelder_mead', 'neq_dd', 'newton', 'newton_minimize', 'newton_system', 'normalize', 'nquad', 'null_space', 'numpy', 'one_sided_secant', 'oscillation_checker', 'oscillation_checking_wrapper', 'pi', 'poly_convert', 'poly_fit_integral_over_T_value', 'poly_fit_integral_value', 'polyder', 'polyint', 'polyint_over_x', 'polyint_over_x_stable', 'polyint_stable', 'polylog2', 'polynomial_offset_scale', 'pow_dd', 'quad', 'quad_adaptive', 'quadratic_from_f_ders', 'quadratic_from_points', 'residual_to_fixed_point', 'ridder', 'root', 'roots_cubic', 'roots_cubic_a1', 'roots_cubic_a2', 'roots_quadratic', 'roots_quartic', 'secant', 'shape', 'sincos', 'solve_2_direct', 'solve_3_direct', 'solve_4_direct', 'solve_tridiagonal', 'sort_nelder_mead_points_numba', 'sort_nelder_mead_points_python', 'sort_paired_lists', 'splev', 'sqrt_dd', 'sqrt_imag_dd', 'square_dd', 'stable_poly_to_unstable', 'stack_vectors', 'std', 'subset_matrix', 'tck_interp2d_linear', 'translate_bound_f_jac', 'translate_bound_func', 'translate_bound_jac', 'tridiagonals_as_array', 'trunc_exp', 'trunc_exp_numpy', 'trunc_log', 'trunc_log_numpy', 'zeros']
__numba_additional_funcs__ = ['py_bisplev', 'py_splev', 'binary_search', 'py_lambertw', '_lambertw_err', '_lambertw_log_err', 'newton_err', 'norm2', 'py_solve', 'func_35_splev', 'func_40_splev', 'quad_adaptive', 'fixed_quad_Gauss_Kronrod', 'halley_compat_numba']
nan = float('nan')
inf = float('inf')
IS_NUMBA = 'IS_NUMBA' in globals()
SKIP_DEPENDENCIES = False

class FakePackage:
    pkg = None

    def __getattr__(self, name):
        raise ImportError(f'{self.pkg} in not installed and required by this feature')

    def __init__(self, pkg):
        self.pkg = pkg
try:
    IS_PYPY = 'PyPy' in sys.version
except AttributeError:
    IS_PYPY = False
try:
    IS_PYPY = FORCE_PYPY
except:
    pass
try:
    array_if_needed
except:
    array_if_needed = lambda x: x
try:
    is_micropython = sys.implementation.name == 'micropython'
    if is_micropython:
        IS_PYPY = True
except:
    is_micropython = False
if is_micropython:
    hypot = py_hypot

def sincos(x):
    return (sin(x), cos(x))
try:
    if IS_PYPY:

        def sincos(x):
            PI4A = 0.7853981256484985
            PI4B = 3.774894707930798e-08
            PI4C = 2.6951514290790595e-15
            M4PI = 1.2732395447351625
            sinSign, cosSign = (False, False)
            if x < 0:
                x = -x
                sinSign = True
            j = int(x * M4PI)
            y = float(j)
            if j & 1 == 1:
                j += 1
                y += 1
            j &= 7
            if j > 3:
                j -= 4
                sinSign, cosSign = (not sinSign, not cosSign)
            if j > 1:
                cosSign = not cosSign
            z = x - y * PI4A - y * PI4B - y * PI4C
            zz = z * z
            cos = 1.0 - 0.5 * zz + zz * zz * (((((-1.1358536521387682e-11 * zz + 2.087570084197473e-09) * zz + -2.755731417929674e-07) * zz + 2.4801587288851704e-05) * zz + -0.0013888888888873056) * zz + 0.041666666666666595)
            sin = z + z * zz * (((((1.5896230157654656e-10 * zz + -2.5050747762857807e-08) * zz + 2.7557313621385722e-06) * zz + -0.0001984126982958954) * zz + 0.008333333333322118) * zz + -0.1666666666666663)
            if j == 1 or j == 2:
                sin, cos = (cos, sin)
            if cosSign:
                cos = -cos
            if sinSign:
                sin = -sin
            return (sin, cos)
except:
    pass
try:
    from cmath import acos as cacos
    from cmath import atan as catan
    from cmath import atanh as catanh
    from cmath import isclose as cisclose
except:
    cacos = py_cacos
    catan = py_catan
    catanh = py_catanh
try:
    from math import cbrt
except:

    def cbrt(x):
        return x ** (1.0 / 3.0)
_wraps = None

def my_wraps():
    global _wraps
    if _wraps is not None:
        return _wraps
    from functools import wraps
    _wraps = wraps
    return _wraps
if not SKIP_DEPENDENCIES:
    try:
        import numpy
        np = numpy
    except ImportError:
        numpy = FakePackage('numpy')
        IS_PYPY = True
else:
    numpy = FakePackage('numpy')
    IS_PYPY = True
IS_PYPY_OR_SKIP_DEPENDENCIES = IS_PYPY or SKIP_DEPENDENCIES
np = numpy
try:
    scalar_types = (float, int, np.float64, np.float32, np.float16, np.float128, np.int8, np.int16, np.int32, np.int64)
except:
    scalar_types = (float, int)
try:
    from sys import float_info
    epsilon = float_info.epsilon
except:
    epsilon = 2.220446049250313e-16
one_epsilon_larger = 1.0 + epsilon
one_epsilon_smaller = 1.0 - epsilon
zero_epsilon_smaller = 0.0 - epsilon
one_10_epsilon_larger = 1.0 + epsilon * 10.0
one_10_epsilon_smaller = 1.0 - epsilon * 10.0
one_100_epsilon_larger = 1.0 + epsilon * 100.0
one_100_epsilon_smaller = 1.0 - epsilon * 100.0
one_1000_epsilon_larger = 1.0 + epsilon * 1000.0
one_1000_epsilon_smaller = 1.0 - epsilon * 1000.0
_iter = 100
_xtol = 1e-12
_rtol = epsilon * 2.0
third = 1.0 / 3.0
sixth = 1.0 / 6.0
ninth = 1.0 / 9.0
twelfth = 1.0 / 12.0
two_thirds = 2.0 / 3.0
four_thirds = 4.0 / 3.0
root_three = 1.7320508075688772
one_27 = 1.0 / 27.0
complex_factor = 0.8660254037844386j

def mean(data):
    return sum(data) / len(data)

def detect_outlier_normal(data, cutoff=3):
    std_val = std(data)
    mean_val = mean(data)
    low = mean_val - std_val * cutoff
    high = mean_val + std_val * cutoff
    outlier_idxs = []
    for i, p in enumerate(data):
        if p < low or p > high:
            outlier_idxs.append(i)
    return outlier_idxs

def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    num = int(num)
    start = start * 1.0
    stop = stop * 1.0
    if num <= 0:
        return []
    if endpoint:
        if num == 1:
            return [start]
        step = (stop - start) / float(num - 1)
        if num == 1:
            step = nan
        y = [start]
        for _ in range(num - 2):
            y.append(y[-1] + step)
        y.append(stop)
    else:
        step = (stop - start) / float(num)
        if num == 1:
            step = nan
        y = [start]
        for _ in range(num - 1):
            y.append(y[-1] + step)
    if retstep:
        return (y, step)
    else:
        return y

def cumulative_trapezoid(y, x=None, dx=None):
    if not y:
        return []
    n = len(y)
    if n < 2:
        return []
    if x is None:
        if dx is None:
            raise ValueError('either dx or x should be provided')
        result = []
        integral = 0.0
        for i in range(n - 1):
            integral += (y[i] + y[i + 1]) * dx * 0.5
            result.append(integral)
        return result
    if len(x) != n:
        raise ValueError('x and y must have same length')
    result = []
    integral = 0.0
    for i in range(n - 1):
        dx = x[i + 1] - x[i]
        integral += (y[i] + y[i + 1]) * dx * 0.5
        result.append(integral)
    return result

def logspace(start, stop, num=50, endpoint=True, base=10.0, dtype=None):
    y = linspace(start, stop, num=num, endpoint=endpoint)
    for i in range(len(y)):
        y[i] = base ** y[i]
    return y

def product(l):
    tot = 1.0
    for i in l:
        tot *= i
    return tot

def cumsum(a):
    base = a[0]
    sums = [base]
    for v in a[1:]:
        base = base + v
        sums.append(base)
    return sums

def diff(a, n=1, axis=-1):
    if n == 0:
        return a
    if n < 0:
        raise ValueError(f'order must be non-negative but got {n}')
    diffs = []
    for i in range(1, len(a)):
        delta = a[i] - a[i - 1]
        diffs.append(delta)
    if n > 1:
        return diff(diffs, n - 1)
    return diffs
central_diff_weights_precomputed = {(1, 3): [-0.5, 0.0, 0.5], (1, 5): [0.08333333333333333, -0.6666666666666666, 0.0, 0.6666666666666666, -0.08333333333333333], (1, 7): [-0.016666666666666666, 0.15, -0.75, 0.0, 0.75, -0.15, 0.016666666666666666], (1, 9): [0.0035714285714285713, -0.0380952380952381, 0.2, -0.8, 0.0, 0.8, -0.2, 0.0380952380952381, -0.0035714285714285713], (1, 11): [-0.0007936507936507937, 0.00992063492063492, -0.05952380952380952, 0.23809523809523808, -0.8333333333333334, 0.0, 0.8333333333333334, -0.23809523809523808, 0.05952380952380952, -0.00992063492063492, 0.0007936507936507937], (1, 13): [0.00018037518037518038, -0.0025974025974025974, 0.017857142857142856, -0.07936507936507936, 0.26785714285714285, -0.8571428571428571, 0.0, 0.8571428571428571, -0.26785714285714285, 0.07936507936507936, -0.017857142857142856, 0.0025974025974025974, -0.00018037518037518038], (1, 15): [-4.1625041625041625e-05, 0.0006798756798756799, -0.005303030303030303, 0.026515151515151516, -0.09722222222222222, 0.2916666666666667, -0.875, 0.0, 0.875, -0.2916666666666667, 0.09722222222222222, -0.026515151515151516, 0.005303030303030303, -0.0006798756798756799, 4.1625041625041625e-05], (1, 17): [9.712509712509713e-06, -0.0001776001776001776, 0.001554001554001554, -0.008702408702408702, 0.03535353535353535, -0.11313131313131314, 0.3111111111111111, -0.8888888888888888, 0.0, 0.8888888888888888, -0.3111111111111111, 0.11313131313131314, -0.03535353535353535, 0.008702408702408702, -0.001554001554001554, 0.0001776001776001776, -9.712509712509713e-06], (1, 19): [-2.285296402943462e-06, 4.6277252159605104e-05, -0.00044955044955044955, 0.002797202797202797, -0.012587412587412588, 0.044055944055944055, -0.12727272727272726, 0.32727272727272727, -0.9, 0.0, 0.9, -0.32727272727272727, 0.12727272727272726, -0.044055944055944055, 0.012587412587412588, -0.002797202797202797, 0.00044955044955044955, -4.6277252159605104e-05, 2.285296402943462e-06], (2, 3): [1.0, -2.0, 1.0], (2, 5): [-0.08333333333333333, 1.3333333333333333, -2.5, 1.3333333333333333, -0.08333333333333333], (2, 7): [0.011111111111111112, -0.15, 1.5, -2.7222222222222223, 1.5, -0.15, 0.011111111111111112], (2, 9): [-0.0017857142857142857, 0.025396825396825397, -0.2, 1.6, -2.8472222222222223, 1.6, -0.2, 0.025396825396825397, -0.0017857142857142857], (2, 11): [0.00031746031746031746, -0.00496031746031746, 0.03968253968253968, -0.23809523809523808, 1.6666666666666667, -2.9272222222222224, 1.6666666666666667, -0.23809523809523808, 0.03968253968253968, -0.00496031746031746, 0.00031746031746031746], (2, 13): [-6.012506012506013e-05, 0.001038961038961039, -0.008928571428571428, 0.05291005291005291, -0.26785714285714285, 1.7142857142857142, -2.9827777777777778, 1.7142857142857142, -0.26785714285714285, 0.05291005291005291, -0.008928571428571428, 0.001038961038961039, -6.012506012506013e-05], (2, 15): [1.1892869035726179e-05, -0.00022662522662522663, 0.0021212121212121214, -0.013257575757575758, 0.06481481481481481, -0.2916666666666667, 1.75, -3.02359410430839, 1.75, -0.2916666666666667, 0.06481481481481481, -0.013257575757575758, 0.0021212121212121214, -0.00022662522662522663, 1.1892869035726179e-05], (2, 17): [-2.428127428127428e-06, 5.074290788576503e-05, -0.000518000518000518, 0.003480963480963481, -0.017676767676767676, 0.07542087542087542, -0.3111111111111111, 1.7777777777777777, -3.05484410430839, 1.7777777777777777, -0.3111111111111111, 0.07542087542087542, -0.017676767676767676, 0.003480963480963481, -0.000518000518000518, 5.074290788576503e-05, -2.428127428127428e-06], (2, 19): [5.078436450985471e-07, -1.1569313039901276e-05, 0.00012844298558584272, -0.0009324009324009324, 0.005034965034965035, -0.022027972027972027, 0.08484848484848485, -0.32727272727272727, 1.8, -3.0795354623330815, 1.8, -0.32727272727272727, 0.08484848484848485, -0.022027972027972027, 0.005034965034965035, -0.0009324009324009324, 0.00012844298558584272, -1.1569313039901276e-05, 5.078436450985471e-07], (3, 5): [-0.5, 1.0, 0.0, -1.0, 0.5], (3, 7): [0.125, -1.0, 1.625, 0.0, -1.625, 1.0, -0.125], (3, 9): [-0.029166666666666667, 0.30000000000000004, -1.4083333333333332, 2.033333333333333, 0.0, -2.033333333333333, 1.4083333333333332, -0.30000000000000004, 0.029166666666666667]}

def central_diff_weights(points, divisions=1):
    key = (divisions, points)
    try:
        return central_diff_weights_precomputed[key]
    except:
        pass
    if points < divisions + 1:
        raise ValueError('Points < divisions + 1, cannot compute')
    if points % 2 == 0:
        raise ValueError('Odd number of points required')
    ho = points >> 1
    x = [[xi] for xi in range(-ho, ho + 1)]
    X = []
    for xi in x:
        line = [1] + [xi[0] ** k for k in range(1, points)]
        X.append(line)
    factor = product(range(1, divisions + 1))
    from sympy import Matrix
    inverted = [[float(j) for j in i] for i in Matrix(X).inv().tolist()]
    w = [i * factor for i in inverted[divisions]]
    central_diff_weights_precomputed[key] = w
    return w

def derivative(func, x0, dx=1.0, n=1, args=(), order=3, scalar=True, lower_limit=None, upper_limit=None, kwargs={}):
    try:
        weights = central_diff_weights_precomputed[n, order]
    except:
        if order < n + 1:
            raise ValueError
        if order % 2 == 0:
            raise ValueError
        weights = central_diff_weights(order, n)
    ho = order >> 1
    if n == 1:
        denominator = 1.0 / dx
    else:
        denominator = 1.0
        for i in range(n):
            denominator *= dx
        denominator = 1.0 / denominator
    if upper_limit is not None:
        max_x = x0 + (order - 1 - ho) * dx
        if max_x > upper_limit:
            x0 -= max_x - x0
    if lower_limit is not None:
        min_x = x0 + -ho * dx
        if min_x < lower_limit:
            x0 += x0 - min_x
    if scalar:
        tot = 0.0
        for k in range(order):
            if weights[k] != 0.0:
                tot += weights[k] * func(x0 + (k - ho) * dx, *args, **kwargs)
        return tot * denominator
    else:
        numerators = None
        for k in range(order):
            f = func(x0 + (k - ho) * dx, *args, **kwargs)
            if numerators is None:
                N = len(f)
                numerators = [0.0] * N
            for i in range(N):
                numerators[i] += weights[k] * f[i]
        return [num * denominator for num in numerators]
kronrod_weights = {10: [0.011694638867371172, 0.03255816230796458, 0.05475589657435185, 0.07503967481091954, 0.09312545458369915, 0.10938715880229993, 0.12349197626206619, 0.1347092173114735, 0.1427759385770589, 0.14773910490133732, 0.1494455540029151, 0.14773910490133846, 0.14277593857705978, 0.13470921731147467, 0.1234919762620664, 0.10938715880229763, 0.09312545458369788, 0.0750396748109198, 0.05475589657435227, 0.03255816230796462, 0.01169463886737192]}
kronrod_points = {10: [-0.9956571630258076, -0.9739065285171714, -0.9301574913557086, -0.8650633666889832, -0.7808177265864168, -0.679409568299023, -0.562757134668605, -0.4333953941292482, -0.29439286270146015, -0.14887433898163127, 2.220446049250313e-16, 0.1488743389816316, 0.2943928627014607, 0.43339539412924755, 0.5627571346686051, 0.6794095682990244, 0.7808177265864169, 0.8650633666889844, 0.9301574913557082, 0.9739065285171717, 0.9956571630258081]}
legendre_weights = {10: [0.06667134430868807, 0.14945134915058036, 0.219086362515982, 0.2692667193099965, 0.295524224714753, 0.295524224714753, 0.2692667193099965, 0.219086362515982, 0.14945134915058036, 0.06667134430868807]}

def jacobian(f, x0, scalar=True, perturbation=1e-09, zero_offset=1e-07, args=(), base=None, **kwargs):
    if base is None:
        base = f(x0, *args, **kwargs)
    if not scalar:
        base = list(base)
    x = list(x0)
    nx = len(x0)
    gradient = []
    for i in range(nx):
        delta = x0[i] * perturbation
        if delta == 0:
            delta = zero_offset
        x[i] += delta
        point = f(x, *args, **kwargs)
        if scalar:
            dy = (point - base) / delta
            gradient.append(dy)
        else:
            delta_inv = 1.0 / delta
            dys = [delta_inv * (p - b) for p, b in zip(point, base)]
            gradient.append(dys)
        x[i] -= delta
    if not scalar:
        return list(map(list, zip(*gradient)))
    return gradient

def hessian(f, x0, scalar=True, perturbation=1e-09, zero_offset=1e-07, full=True, base=None, args=(), **kwargs):
    if base is None:
        base = f(x0, *args, **kwargs)
    nx = len(x0)
    if not isinstance(base, (float, int, complex)):
        try:
            ny = len(base)
        except:
            ny = 1
    else:
        ny = 1
    deltas = []
    for i in range(nx):
        delta = x0[i] * perturbation
        if delta == 0.0:
            delta = zero_offset
        deltas.append(delta)
    deltas_inv = [1.0 / di for di in deltas]
    x_perturb = list(x0)
    fs_perturb_i = []
    for i in range(nx):
        tmp = x_perturb[i]
        x_perturb[i] += deltas[i]
        f_perturb_i = f(x_perturb, *args, **kwargs)
        fs_perturb_i.append(f_perturb_i)
        x_perturb[i] = tmp
    if full:
        hessian = [[None] * nx for _ in range(nx)]
    else:
        hessian = []
    for i in range(nx):
        if not full:
            row = []
        f_perturb_i = fs_perturb_i[i]
        tmp_i = x_perturb[i]
        x_perturb[i] += deltas[i]
        for j in range(i + 1):
            f_perturb_j = fs_perturb_i[j]
            tmp_j = x_perturb[j]
            if i == j:
                x_perturb[j] = tmp_i + 2.0 * deltas[j]
            else:
                x_perturb[j] += deltas[j]
            f_perturb_ij = f(x_perturb, *args, **kwargs)
            if scalar:
                dij = (f_perturb_ij + base - (f_perturb_i + f_perturb_j)) * deltas_inv[j] * deltas_inv[i]
            else:
                dij = [(f_perturb_ij[m] - f_perturb_j[m] - (f_perturb_i[m] - base[m])) * deltas_inv[j] * deltas_inv[i] for m in range(ny)]
            if not full:
                row.append(dij)
            else:
                hessian[i][j] = hessian[j][i] = dij
            x_perturb[j] = tmp_j
        if not full:
            hessian.append(row)
        x_perturb[i] = tmp_i
    return hessian

def exp_cheb(x, coeffs, offset, scale):
    y = chebval(x, coeffs, offset, scale)
    return trunc_exp(y)

def exp_cheb_and_der(x, coeffs, der_coeffs, offset, scale):
    poly_val = chebval(x, coeffs, offset, scale)
    poly_der = chebval(x, der_coeffs, offset, scale)
    val = exp(poly_val)
    der = poly_der * val
    return (val, der)

def exp_cheb_and_der2(x, coeffs, der_coeffs, der2_coeffs, offset, scale):
    poly_val = chebval(x, coeffs, offset, scale)
    poly_der = chebval(x, der_coeffs, offset, scale)
    poly_der2 = chebval(x, der2_coeffs, offset, scale)
    val = exp(poly_val)
    der = poly_der * val
    der2 = (poly_der * poly_der + poly_der2) * val
    return (val, der, der2)

def exp_cheb_and_der3(x, coeffs, der_coeffs, der2_coeffs, der3_coeffs, offset, scale):
    poly_val = chebval(x, coeffs, offset, scale)
    poly_der = chebval(x, der_coeffs, offset, scale)
    poly_der2 = chebval(x, der2_coeffs, offset, scale)
    poly_der3 = chebval(x, der3_coeffs, offset, scale)
    val = exp(poly_val)
    der = poly_der * val
    der2 = (poly_der * poly_der + poly_der2) * val
    der3 = (poly_der * poly_der * poly_der + 3.0 * poly_der * poly_der2 + poly_der3) * val
    return (val, der, der2, der3)

def exp_cheb_ln_tau(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return 0.0
    lntau = log(1.0 - T / Tc)
    y = chebval(lntau, coeffs, offset, scale)
    return trunc_exp(y)

def exp_cheb_ln_tau_and_der(T, Tc, coeffs, der_coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    poly_val = chebval(lntau, coeffs, offset, scale)
    poly_der_val = chebval(lntau, der_coeffs, offset, scale)
    val = exp(poly_val)
    return (val, -val * poly_der_val / (Tc * tau))

def exp_cheb_ln_tau_and_der2(T, Tc, coeffs, der_coeffs, der2_coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0, 0.0)
    tau = 1.0 - T / Tc
    lntau = log(tau)
    poly_val = chebval(lntau, coeffs, offset, scale)
    poly_val_der = chebval(lntau, der_coeffs, offset, scale)
    poly_val_der2 = chebval(lntau, der2_coeffs, offset, scale)
    val = exp(poly_val)
    der = -val * poly_val_der / (Tc * tau)
    der2 = (poly_val_der * poly_val_der - poly_val_der + poly_val_der2) * val / (Tc * Tc * (tau * tau))
    return (val, der, der2)

def chebval_ln_tau(T, Tc, coeffs, offset, scale):
    if T >= Tc:
        return 0.0
    lntau = log(1.0 - T / Tc)
    poly_val = chebval(lntau, coeffs, offset, scale)
    return poly_val

def chebval_ln_tau_and_der(T, Tc, coeffs, der_coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0)
    lntau = log(1.0 - T / Tc)
    val = chebval(lntau, coeffs, offset, scale)
    poly_der = chebval(lntau, der_coeffs, offset, scale)
    der = -poly_der / (Tc * (-T / Tc + 1))
    return (val, der)

def chebval_ln_tau_and_der2(T, Tc, coeffs, der_coeffs, der2_coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0, 0.0)
    lntau = log(1.0 - T / Tc)
    val = chebval(lntau, coeffs, offset, scale)
    poly_der = chebval(lntau, der_coeffs, offset, scale)
    poly_der2 = chebval(lntau, der2_coeffs, offset, scale)
    der = -poly_der / (Tc * (-T / Tc + 1))
    der2 = (-poly_der + poly_der2) / (Tc ** 2 * (T / Tc - 1) ** 2)
    return (val, der, der2)

def chebval_ln_tau_and_der3(T, Tc, coeffs, der_coeffs, der2_coeffs, der3_coeffs, offset, scale):
    if T >= Tc:
        return (0.0, 0.0, 0.0, 0)
    lntau = log(1.0 - T / Tc)
    val = chebval(lntau, coeffs, offset, scale)
    poly_der = chebval(lntau, der_coeffs, offset, scale)
    poly_der2 = chebval(lntau, der2_coeffs, offset, scale)
    poly_der3 = chebval(lntau, der3_coeffs, offset, scale)
    der = -poly_der / (Tc * (-T / Tc + 1))
    der2 = (-poly_der + poly_der2) / (Tc ** 2 * (T / Tc - 1) ** 2)
    der3 = (2.0 * poly_der - 3.0 * poly_der2 + poly_der3) / (Tc ** 3 * (T / Tc - 1) ** 3)
    return (val, der, der2, der3)

def is_poly_positive(poly, domain=None, rand_pts=10, j_tol=1e-12, root_perturb=1e-12):
    if domain is None:
        pts = logspace(-100, 100, rand_pts // 2)
        pts += [-i for i in pts]
    else:
        pts = linspace(domain[0], domain[1], rand_pts)
    for p in pts:
        if horner(poly, p) < 0.0:
            return False
    roots = np.roots(poly)
    for root in roots:
        r = root.real
        if abs(root.imag / r) < j_tol:
            if domain is not None and (r < domain[0] or r > domain[1]):
                continue
            eps_high, eps_low = (r * (1.0 + root_perturb), r * (1.0 - root_perturb))
            if horner(poly, eps_high) < 0:
                return False
            if horner(poly, eps_low) < 0:
                return False
    return True

def is_poly_negative(poly, domain=None, rand_pts=10, j_tol=1e-12, root_perturb=1e-12):
    poly = [-i for i in poly]
    return is_poly_positive(poly, domain=domain, rand_pts=rand_pts, j_tol=j_tol, root_perturb=root_perturb)

def is_monotonic(points):
    N = len(points)
    if N == 1:
        return True
    a_point_increased = False
    a_point_decreased = False
    for i in range(N - 1):
        if points[i + 1] > points[i]:
            a_point_increased = True
        if points[i + 1] < points[i]:
            a_point_decreased = True
    return not (a_point_increased and a_point_decreased)

def is_increasing(points):
    N = len(points)
    if N < 2:
        return True
    previous = points[0]
    for i in range(1, N):
        current = points[i]
        if current <= previous:
            return False
        previous = current
    return True

def min_max_ratios(actual, calculated):
    min_ratio = max_ratio = 1.0
    for i in range(len(actual)):
        if actual[i] == 0.0:
            r = 1.0 if calculated[i] == actual[i] else 10.0
        else:
            r = calculated[i] / actual[i]
        if r < min_ratio:
            min_ratio = r
        elif r > max_ratio:
            max_ratio = r
    return (min_ratio, max_ratio)

def std(data):
    tot = 0.0
    N = len(data)
    for i in range(N):
        tot += data[i]
    mean = tot / N
    tot = 0.0
    for i in range(N):
        v = data[i] - mean
        tot += v * v
    return sqrt(tot / N)

def fit_integral_linear_extrapolation(T1, T2, int_coeffs, Tmin, Tmax, Tmin_value, Tmax_value, Tmin_slope, Tmax_slope):
    flip = T1 > T2
    if flip:
        T1, T2 = (T2, T1)
    tot = 0.0
    if T1 < Tmin:
        T2_low = min(Tmin, T2)
        x1 = Tmin_value - Tmin_slope * Tmin
        tot += T2_low * (0.5 * Tmin_slope * T2_low + x1) - T1 * (0.5 * Tmin_slope * T1 + x1)
    if Tmin <= T1 <= Tmax or Tmin <= T2 <= Tmax or (T1 <= Tmin and T2 >= Tmax):
        T1_mid = max(Tmin, T1)
        T2_mid = min(Tmax, T2)
        tot += horner(int_coeffs, T2_mid) - horner(int_coeffs, T1_mid)
    if T2 > Tmax:
        T1_high = max(Tmax, T1)
        x1 = Tmax_value - Tmax_slope * Tmax
        tot += T2 * (0.5 * Tmax_slope * T2 + x1) - T1_high * (0.5 * Tmax_slope * T1_high + x1)
    if flip:
        return -tot
    return tot

def poly_fit_integral_value(T, int_coeffs, Tmin, Tmax, Tmin_value, Tmax_value, Tmin_slope, Tmax_slope):
    if T < Tmin:
        x1 = Tmin_value - Tmin_slope * Tmin
        tot = T * (0.5 * Tmin_slope * T + x1)
        return tot
    if Tmin <= T <= Tmax:
        tot1 = horner(int_coeffs, T) - horner(int_coeffs, Tmin)
        x1 = Tmin_value - Tmin_slope * Tmin
        tot = Tmin * (0.5 * Tmin_slope * Tmin + x1)
        return tot + tot1
    else:
        x1 = Tmin_value - Tmin_slope * Tmin
        tot = Tmin * (0.5 * Tmin_slope * Tmin + x1)
        tot1 = horner(int_coeffs, Tmax) - horner(int_coeffs, Tmin)
        x1 = Tmax_value - Tmax_slope * Tmax
        tot2 = T * (0.5 * Tmax_slope * T + x1) - Tmax * (0.5 * Tmax_slope * Tmax + x1)
        return tot1 + tot + tot2

def fit_integral_over_T_linear_extrapolation(T1, T2, T_int_T_coeffs, poly_fit_log_coeff, Tmin, Tmax, Tmin_value, Tmax_value, Tmin_slope, Tmax_slope):
    flip = T1 > T2
    if flip:
        T1, T2 = (T2, T1)
    tot = 0.0
    if T1 < Tmin:
        T2_low = min(Tmin, T2)
        x1 = Tmin_value - Tmin_slope * Tmin
        tot += Tmin_slope * T2_low + x1 * log(T2_low) - (Tmin_slope * T1 + x1 * log(T1))
    if Tmin <= T1 <= Tmax or Tmin <= T2 <= Tmax or (T1 <= Tmin and T2 >= Tmax):
        T1_mid = max(Tmin, T1)
        T2_mid = min(Tmax, T2)
        tot += horner_log(T_int_T_coeffs, poly_fit_log_coeff, T2_mid) - horner_log(T_int_T_coeffs, poly_fit_log_coeff, T1_mid)
    if T2 > Tmax:
        T1_high = max(Tmax, T1)
        x1 = Tmax_value - Tmax_slope * Tmax
        tot += Tmax_slope * T2 + x1 * log(T2) - (Tmax_slope * T1_high + x1 * log(T1_high))
    if flip:
        return -tot
    return tot

def poly_fit_integral_over_T_value(T, T_int_T_coeffs, poly_fit_log_coeff, Tmin, Tmax, Tmin_value, Tmax_value, Tmin_slope, Tmax_slope):
    if T < Tmin:
        x1 = Tmin_value - Tmin_slope * Tmin
        tot = Tmin_slope * T + x1 * log(T)
        return tot
    if Tmin <= T <= Tmax:
        tot1 = horner_log(T_int_T_coeffs, poly_fit_log_coeff, T) - horner_log(T_int_T_coeffs, poly_fit_log_coeff, Tmin)
        x1 = Tmin_value - Tmin_slope * Tmin
        tot = Tmin_slope * Tmin + x1 * log(Tmin)
        return tot + tot1
    else:
        x1 = Tmin_value - Tmin_slope * Tmin
        tot = Tmin_slope * Tmin + x1 * log(Tmin)
        tot1 = horner_log(T_int_T_coeffs, poly_fit_log_coeff, Tmax) - horner_log(T_int_T_coeffs, poly_fit_log_coeff, Tmin)
        x2 = Tmax_value - Tmax * Tmax_slope
        tot2 = -Tmax_slope * (Tmax - T) + x2 * log(T) - x2 * log(Tmax)
        return tot1 + tot + tot2

def evaluate_linear_fits(data, x):
    calc = []
    low_limits, high_limits, coeffs = (data[0], data[3], data[6])
    for i in range(len(data[0])):
        if x < low_limits[i]:
            v = (x - low_limits[i]) * data[1][i] + data[2][i]
        elif x > high_limits[i]:
            v = (x - high_limits[i]) * data[4][i] + data[5][i]
        else:
            v = 0.0
            for c in coeffs[i]:
                v = v * x + c
        calc.append(v)
    return calc

def evaluate_linear_fits_d(data, x):
    calc = []
    low_limits, high_limits, dcoeffs = (data[0], data[3], data[7])
    for i in range(len(data[0])):
        if x < low_limits[i]:
            dv = data[1][i]
        elif x > high_limits[i]:
            dv = data[4][i]
        else:
            dv = 0.0
            for c in dcoeffs[i]:
                dv = dv * x + c
        calc.append(dv)
    return calc

def evaluate_linear_fits_d2(data, x):
    calc = []
    low_limits, high_limits, d2coeffs = (data[0], data[3], data[8])
    for i in range(len(data[0])):
        d2v = 0.0
        if low_limits[i] < x < high_limits[i]:
            for c in d2coeffs[i]:
                d2v = d2v * x + c
        calc.append(d2v)
    return calc

def trunc_exp_numpy(x, trunc=1.7976931348622732e+308, out=None):
    if out is not None:
        out.fill(trunc)
    else:
        out = np.full_like(x, trunc)
    mask = np.where(x < 709.782712893384)
    out[mask] = np.exp(x[mask])
    return out

def trunc_log_numpy(x, trunc=-744.4400719213812, out=None):
    if out is not None:
        out.fill(trunc)
    else:
        out = np.full_like(x, trunc)
    if np.any(x < 0.0):
        raise ValueError('math domain error')
    mask = np.where(x > 0.0)
    out[mask] = np.log(x[mask])
    return out

def chebval(x, c, offset=0.0, scale=1.0):
    x = offset + scale * x
    len_c = len(c)
    if len_c == 1:
        return c[0]
    if len_c == 2:
        return c[0] + c[1] * x
    x2 = 2.0 * x
    c0, c1 = (c[-2], c[-1])
    for i in range(3, len_c + 1):
        c0_prev = c0
        c0 = c[-i] - c1
        c1 = c0_prev + c1 * x2
    return c0 + c1 * x

def chebder(c, m=1, scl=1.0):
    if m == 0:
        return c
    c = list(c)
    n = len(c)
    if m >= n:
        return []
    der = [0.0] * (n - 1)
    for _ in range(m):
        n = n - 1
        if scl != 1.0:
            for j in range(n + 1):
                c[j] *= scl
        for j in range(n, 2, -1):
            der[j - 1] = (j + j) * c[j]
            c[j - 2] += j * c[j] / (j - 2.0)
        if n > 1:
            der[1] = 4.0 * c[2]
        der[0] = c[1]
        c, der = (der, c)
    for _ in range(len(c) - n):
        c.pop()
    return c

def chebint(c, m=1, lbnd=0, scl=1):
    cnt = int(m)
    if cnt < 0:
        raise ValueError('Negative integration error not allowed')
    if cnt == 0:
        return c
    n0 = len(c)
    if n0 == 1 and c[0] == 0.0:
        return c
    nmax = n0 + cnt
    c0 = [0.0] * nmax
    tmp = [0.0] * nmax
    c0[:n0] = c[:]
    n = n0
    for _ in range(cnt):
        if scl != 1:
            for i in range(n):
                c0[i] *= scl
        if n == 1 and c0[0] == 0:
            pass
        else:
            tmp[1] = c0[0]
            if n > 1:
                tmp[2] = 0.25 * c0[1]
            for j in range(2, n):
                cval = c0[j]
                tmp[j + 1] = cval / (2.0 * (j + 1))
                tmp[j - 1] -= cval / (2.0 * (j - 1))
            val = chebval(lbnd, tmp)
            tmp[0] -= val
            c0, tmp = (tmp, c0)
            n += 1
    return c0

def binary_search(key, arr, size=None):
    if size is None:
        size = len(arr)
    imin = 0
    imax = size
    if key > arr[size - 1]:
        return size
    while imin < imax:
        imid = imin + (imax - imin >> 1)
        if key >= arr[imid]:
            imin = imid + 1
        else:
            imax = imid
    return imin - 1

def isclose(a, b, rel_tol=1e-09, abs_tol=0.0):
    if rel_tol < 0.0 or abs_tol < 0.0:
        raise ValueError('Negative tolerances')
    if a.real == b.real and a.imag == b.imag:
        return True
    if isinf(a.real) or isinf(a.imag) or isinf(b.real) or isinf(b.imag):
        return False
    diff = abs(a - b)
    return (diff <= rel_tol * abs(b) or diff <= rel_tol * abs(a)) or diff <= abs_tol
if not IS_NUMBA:
    try:
        from math import isclose
    except ImportError:
        pass

def assert_close(a, b, rtol=1e-07, atol=0.0):
    if a is b:
        return True
    if __debug__:
        try:
            try:
                assert isclose(a, b, rel_tol=rtol, abs_tol=atol)
                return
            except:
                assert cisclose(a, b, rel_tol=rtol, abs_tol=atol)
                return
        except:
            pass
    from numpy.testing import assert_allclose
    return assert_allclose(a, b, rtol=rtol, atol=atol)

def assert_close1d(a, b, rtol=1e-07, atol=0.0):
    N = len(a)
    if N != len(b):
        raise ValueError(f'Variables are not the same length: {N}, {len(b)}')
    for i in range(N):
        assert_close(a[i], b[i], rtol=rtol, atol=atol)

def assert_close2d(a, b, rtol=1e-07, atol=0.0):
    N = len(a)
    if N != len(b):
        raise ValueError(f'Variables are not the same length: {N}, {len(b)}')
    if not __debug__:
        from numpy.testing import assert_allclose
        return assert_allclose(a, b, rtol=rtol, atol=atol)
    for i in range(N):
        a0, b0 = (a[i], b[i])
        N0 = len(a0)
        if N0 != len(b0):
            raise ValueError(f'Variables are not the same length: {N0}, {len(b0)}')
        for j in range(N0):
            good = True
            a1, b1 = (a0[j], b0[j])
            if a1 is b1:
                pass
            else:
                try:
                    try:
                        good = isclose(a1, b1, rel_tol=rtol, abs_tol=atol)
                    except:
                        good = cisclose(a1, b1, rel_tol=rtol, abs_tol=atol)
                except:
                    pass
            if not good:
                from numpy.testing import assert_allclose
                return assert_allclose(a1, b1, rtol=rtol, atol=atol)

def assert_close3d(a, b, rtol=1e-07, atol=0.0):
    N = len(a)
    if N != len(b):
        raise ValueError(f'Variables are not the same length: {N}, {len(b)}')
    for i in range(N):
        assert_close2d(a[i], b[i], rtol=rtol, atol=atol)

def assert_close4d(a, b, rtol=1e-07, atol=0.0):
    N = len(a)
    if N != len(b):
        raise ValueError(f'Variables are not the same length: {N}, {len(b)}')
    for i in range(N):
        a0, b0 = (a[i], b[i])
        N0 = len(a0)
        if N0 != len(b0):
            raise ValueError(f'Variables are not the same length: {N0}, {len(b0)}')
        for j in range(N0):
            assert_close2d(a0[j], b0[j], rtol=rtol, atol=atol)

def zeros(shape, dtype=float, fill_value=0.0):
    if dtype is float:
        zero = float(fill_value)
    elif dtype is int:
        zero = int(fill_value)
    else:
        raise ValueError('dtype is not supported')
    t = type(shape)
    if t is int:
        return [zero] * shape
    if t is tuple:
        l = len(shape)
        if l == 1:
            return [zero] * shape[0]
        elif l == 2:
            s1 = shape[1]
            return [[zero] * s1 for _ in range(shape[0])]
        elif l == 3:
            s1 = shape[1]
            s2 = shape[2]
            return [[[zero] * s2 for _ in range(s1)] for _ in range(shape[0])]
        elif l == 4:
            s1 = shape[1]
            s2 = shape[2]
            s3 = shape[3]
            return [[[[zero] * s3 for _ in range(s2)] for _ in range(s1)] for _ in range(shape[0])]
    raise ValueError('Shape not implemented')

def full(shape, fill_value, dtype=float):
    return zeros(shape, dtype, fill_value)

def interp(x, dx, dy, left=None, right=None, extrapolate=False):
    lendx = len(dx)
    j = binary_search(x, dx, lendx)
    if j == -1:
        if left is not None:
            return left
        elif extrapolate:
            j = 0
            return (dy[j + 1] - dy[j]) / (dx[j + 1] - dx[j]) * (x - dx[j]) + dy[j]
        else:
            return dy[0]
    elif j == lendx - 1:
        return dy[j]
    elif j == lendx:
        if right is not None:
            return right
        elif extrapolate:
            j = -2
            return (dy[j + 1] - dy[j]) / (dx[j + 1] - dx[j]) * (x - dx[j]) + dy[j]
        else:
            return dy[-1]
    else:
        return (dy[j + 1] - dy[j]) / (dx[j + 1] - dx[j]) * (x - dx[j]) + dy[j]

def interp2d_linear(x, y, xs, ys, vals):
    if y < ys[0]:
        i0, i1 = (0, 1)
        y_dat = (ys[i0], ys[i1])
    elif y > ys[-1]:
        i0, i1 = (-2, -1)
    else:
        for i in range(len(ys)):
            if ys[i] >= y:
                i0, i1 = (i - 1, i)
                break
    y_low, y_high = (ys[i0], ys[i1])
    v_low = interp(x, xs, vals[i0], extrapolate=True)
    v_high = interp(x, xs, vals[i1], extrapolate=True)
    return v_low + (y - y_low) / (y_high - y_low) * (v_high - v_low)
try:
    _array = np.array
    Polynomial = np.polynomial.Polynomial
except:
    pass

def implementation_optimize_tck(tck, force_numpy=False):
    if IS_PYPY_OR_SKIP_DEPENDENCIES and (not force_numpy):
        return tuple(tck)
    else:
        size = len(tck)
        if size == 3:
            return (_array(tck[0]), _array(tck[1]), tck[2])
        elif size == 5:
            return (_array(tck[0]), _array(tck[1]), _array(tck[2]), tck[3], tck[4])
        else:
            raise NotImplementedError

def tck_interp2d_linear(x, y, z, kx=1, ky=1):
    if kx != 1 or ky != 1:
        raise ValueError('Only linear formulations are currently implemented')
    x = list(x)
    x.insert(0, x[0])
    x.append(x[-1])
    y = list(y)
    y.insert(0, y[0])
    y.append(y[-1])
    c = [z[j][i] for i in range(len(z[0])) for j in range(len(z))]
    tck = [x, y, c, 1, 1]
    return implementation_optimize_tck(tck)

def caching_decorator(f, full=False):
    cache = {}
    info_cache = {}
    wraps = my_wraps()

    @wraps(f)
    def wrapper(x, *args, **kwargs):
        has_info = 'info' in kwargs
        if x in cache:
            if 'info' in kwargs:
                kwargs['info'][:] = info_cache[x]
            return cache[x]
        err = f(x, *args, **kwargs)
        cache[x] = err
        if has_info:
            info_cache[x] = list(kwargs['info'])
        return err
    if full:
        return (wrapper, cache, info_cache)
    return wrapper

def translate_bound_func(func, bounds=None, low=None, high=None):
    if bounds is not None:
        low = [i[0] for i in bounds]
        high = [i[1] for i in bounds]

    def new_f(x, *args, **kwargs):
        x = [float(i) for i in x]
        for i in range(len(x)):
            x[i] = low[i] + (high[i] - low[i]) / (1.0 + trunc_exp(-x[i]))
        return func(x, *args, **kwargs)

    def translate_into(x):
        x = [float(i) for i in x]
        for i in range(len(x)):
            x[i] = -trunc_log((high[i] - x[i]) / (x[i] - low[i]))
        return x

    def translate_outof(x):
        x = [float(i) for i in x]
        for i in range(len(x)):
            x[i] = low[i] + (high[i] - low[i]) / (1.0 + trunc_exp(-x[i]))
        return x
    return (new_f, translate_into, translate_outof)

def translate_bound_jac(jac, bounds=None, low=None, high=None):
    if bounds is not None:
        low = [i[0] for i in bounds]
        high = [i[1] for i in bounds]

    def new_j(x):
        x_base = [float(i) for i in x]
        N = len(x)
        for i in range(N):
            x_base[i] = low[i] + (high[i] - low[i]) / (1.0 + trunc_exp(-x[i]))
        jac_base = jac(x_base)
        try:
            jac_base = [i for i in jac_base]
            for i in range(N):
                v = (high[i] - low[i]) * trunc_exp(-x[i]) * jac_base[i]
                v *= (1.0 + trunc_exp(-x[i])) ** (-2)
                jac_base[i] = v
            return jac_base
        except:
            raise NotImplementedError('Fail')

    def translate_into(x):
        x = [float(i) for i in x]
        for i in range(len(x)):
            x[i] = -trunc_log((high[i] - x[i]) / (x[i] - low[i]))
        return x

    def translate_outof(x):
        x = [float(i) for i in x]
        for i in range(len(x)):
            x[i] = low[i] + (high[i] - low[i]) / (1.0 + trunc_exp(-x[i]))
        return x
    return (new_j, translate_into, translate_outof)

def translate_bound_f_jac(f, jac, bounds=None, low=None, high=None, inplace_jac=False, as_np=False):
    if bounds is not None:
        low = [i[0] for i in bounds]
        high = [i[1] for i in bounds]
    exp_terms = [0.0] * len(low)

    def new_f_j(x, *args):
        x_base = [i for i in x]
        N = len(x)
        for i in range(N):
            exp_terms[i] = ei = trunc_exp(-x[i])
            x_base[i] = low[i] + (high[i] - low[i]) / (1.0 + ei)
        if jac is True:
            f_base, jac_base = f(x_base, *args)
        else:
            f_base = f(x_base, *args)
            jac_base = jac(x_base, *args)
        try:
            if type(jac_base[0]) is list or (isinstance(jac_base, np.ndarray) and len(jac_base.shape) == 2):
                if not inplace_jac:
                    jac_base = [[j for j in i] for i in jac_base]
                for i in range(len(jac_base)):
                    for j in range(len(jac_base[i])):
                        t = 1.0 + exp_terms[j]
                        jac_base[i][j] = (high[j] - low[j]) * exp_terms[j] * jac_base[i][j] / (t * t)
            else:
                if not inplace_jac:
                    jac_base = [i for i in jac_base]
                for i in range(N):
                    t = 1.0 + exp_terms[i]
                    jac_base[i] = (high[i] - low[i]) * exp_terms[i] * jac_base[i] / (t * t)
            if as_np:
                jac_base = np.array(jac_base)
            return (f_base, jac_base)
        except:
            raise NotImplementedError('Fail')

    def translate_into(x):
        if not as_np:
            x = [i for i in x]
        else:
            x = x.copy()
        for i in range(len(x)):
            x[i] = -trunc_log((high[i] - x[i]) / (x[i] - low[i]))
        return x

    def translate_outof(x):
        if not as_np:
            x = [i for i in x]
        else:
            x = x.copy()
        for i in range(len(x)):
            x[i] = low[i] + (high[i] - low[i]) / (1.0 + trunc_exp(-x[i]))
        return x
    return (new_f_j, translate_into, translate_outof)

class OscillationError(Exception):
    pass

class UnconvergedError(Exception):

    def __repr__(self):
        return f'UnconvergedError("Failed to converge; maxiter ({self.iterations}) reached, value={self.point}, error {self.err})"'

    def __init__(self, message, iterations=None, err=None, point=None):
        super().__init__(message)
        self.point = point
        self.iterations = iterations
        self.err = err

class SamePointError(UnconvergedError):

    def __repr__(self):
        return 'TODO'

    def __init__(self, message, iterations=None, err=None, q1=None, p1=None, q0=None, p0=None):
        super().__init__(message)
        self.q1 = q1
        self.p1 = p1
        self.q0 = q0
        self.p0 = p0
        self.iterations = iterations
        self.err = err

class NoSolutionError(Exception):
    pass

class NotBoundedError(Exception):
    pass

class DiscontinuityError(Exception):
    pass

def damping_maintain_sign(x, step, damping=1.0, factor=0.5):
    if isinstance(x, list):
        return [damping_maintain_sign(x[i], step[i], damping, factor) for i in range(len(x))]
    positive = x >= 0.0
    step_x = x + step
    if positive and step_x < 0 or (not positive and step_x > 0.0):
        step = -factor * x
    return x + step * damping

def make_damp_initial(steps=5, damping=1.0, *args):
    steps_holder = [steps]

    def damping_func(x, step, damping=damping, *args):
        if steps_holder[0] <= 0:
            if isinstance(x, list):
                return [xi + dxi for xi, dxi in zip(x, step)]
            return x + step
        else:
            steps_holder[0] -= 1
            if isinstance(x, list):
                return [xi + dxi * damping for xi, dxi in zip(x, step)]
            return x + step * damping
    return damping_func

def make_max_step_initial(max_step, steps=5, *args):
    steps_holder = [steps]
    scalar_max_step = not isinstance(max_step, list)

    def damping_func(x, step, *args):
        if steps_holder[0] <= 0:
            if isinstance(x, list):
                return [xi + dxi for xi, dxi in zip(x, step)]
            return x + step
        else:
            steps_holder[0] -= 1
            if isinstance(x, list):
                next = []
                for i in range(len(x)):
                    the_step = step[i]
                    if scalar_max_step:
                        if abs(the_step) > max_step:
                            next.append(x[i] + copysign(max_step, the_step))
                        else:
                            next.append(x[i] + the_step)
                    elif abs(the_step) > max_step[i]:
                        next.append(x[i] + copysign(max_step[i], the_step))
                    else:
                        next.append(x[i] + the_step)
                return next
            the_step = step
            if abs(the_step) > max_step:
                return x + copysign(max_step, the_step)
            return x + the_step
    return damping_func

class OscillationChecker:
    __slots__ = ('both_sides', 'good_err', 'minimum_progress', 'xs_neg', 'xs_pos', 'ys_neg', 'ys_pos')

    def __init__(self, minimum_progress=0.3, both_sides=False, good_err=None):
        self.minimum_progress = minimum_progress
        self.both_sides = both_sides
        self.xs_pos = []
        self.ys_pos = []
        self.xs_neg = []
        self.ys_neg = []
        self.good_err = good_err

    def clear(self):
        self.xs_pos = []
        self.ys_pos = []
        self.xs_neg = []
        self.ys_neg = []

    def is_oscillating(self, x, y):
        if y == 0.0:
            return False
        xs_neg, xs_pos = (self.xs_neg, self.xs_pos)
        ys_neg, ys_pos = (self.ys_neg, self.ys_pos)
        minimum_progress = self.minimum_progress
        if y < 0.0:
            xs_neg.append(x)
            ys_neg.append(y)
        else:
            xs_pos.append(x)
            ys_pos.append(y)
        if len(xs_pos) < 2 or len(xs_neg) < 2:
            return False
        if y < 0.0:
            gain_neg = abs((y - ys_neg[-2]) / y)
            gain_pos = abs((ys_pos[-1] - ys_pos[-2]) / ys_pos[-1])
        else:
            gain_pos = abs((y - ys_pos[-2]) / y)
            gain_neg = abs((ys_neg[-1] - ys_neg[-2]) / ys_neg[-1])
        if self.both_sides:
            oscillating = gain_pos < minimum_progress and gain_neg < minimum_progress
        else:
            oscillating = gain_pos < minimum_progress or gain_neg < minimum_progress
        if oscillating and self.good_err is not None:
            best_err = min(abs(ys_neg[-1]), abs(ys_pos[-1]))
            if best_err < self.good_err:
                return False
        return bool(oscillating)
    __call__ = is_oscillating

    def wrap(self, f):
        wraps = my_wraps()

        @wraps(f)
        def wrapper(x, *args, **kwargs):
            err = f(x, *args, **kwargs)
            err_test = err
            if not isinstance(err_test, (float, int, complex)):
                err_test = err[0]
            try:
                if self(x, err_test):
                    raise OscillationError('Oscillating')
            except (ZeroDivisionError, IndexError):
                pass
            return err
        return wrapper
oscillation_checker = OscillationChecker

def oscillation_checking_wrapper(f, minimum_progress=0.3, both_sides=False, full=True, good_err=None):
    checker = OscillationChecker(minimum_progress=minimum_progress, both_sides=both_sides, good_err=good_err)
    wrapper = checker.wrap(f)
    if full:
        return (wrapper, checker)
    return wrapper

def best_bounding_bounds(low, high, f=None, xs_pos=None, ys_pos=None, xs_neg=None, ys_neg=None, fa=None, fb=None):
    if fa is None:
        fa = f(low)
    if fb is None:
        fb = f(high)
    if ys_pos:
        y_min_pos = min(ys_pos)
        x_min_pos = xs_pos[ys_pos.index(y_min_pos)]
        if fa > 0:
            if y_min_pos < fa:
                fa, low = (y_min_pos, x_min_pos)
        elif y_min_pos < fb:
            fb, high = (y_min_pos, x_min_pos)
    if ys_neg:
        y_min_neg = max(ys_neg)
        x_min_neg = xs_neg[ys_neg.index(y_min_neg)]
        if fa < 0:
            if y_min_neg > fa:
                fa, low = (y_min_neg, x_min_neg)
        elif y_min_neg > fb:
            fb, high = (y_min_neg, x_min_neg)
    if fa * fb > 0:
        raise ValueError('Bounds and previous history do not contain bracketing points')
    return (low, high, fa, fb)

def bisect(f, a, b, args=(), xtol=1e-12, rtol=2.220446049250313e-16, maxiter=100, ytol=None):
    fa = f(a, *args)
    fb = f(b, *args)
    if fa > 0.0 and fb > 0.0 or (fa < 0.0 and fb < 0.0):
        raise ValueError('f(a) and f(b) must have different signs')
    elif fa == 0.0:
        return a
    elif fb == 0.0:
        return b
    dm = b - a
    for i in range(maxiter):
        dm *= 0.5
        xm = a + dm
        fm = f(xm, *args)
        if fm >= 0.0 and fa > 0.0 or (fm <= 0.0 and fa < 0.0):
            a = xm
        abs_dm = fabs(dm)
        if fm == 0.0:
            return xm
        elif ytol is not None:
            if abs_dm < xtol + rtol * abs_dm and abs(fm) < ytol:
                return xm
        elif abs_dm < xtol + rtol * abs_dm:
            return xm
    raise UnconvergedError(f'Failed to converge after {maxiter} iterations')

def ridder(f, a, b, args=(), xtol=_xtol, rtol=_rtol, maxiter=_iter, full_output=False, disp=True):
    a_abs, b_abs = (fabs(a), fabs(b))
    tol = xtol + rtol * min(b_abs, a_abs)
    fa = f(a, *args)
    fb = f(b, *args)
    if fa > 0.0 and fb > 0.0 or (fa < 0.0 and fb < 0.0):
        raise ValueError('f(a) and f(b) must have different signs')
    elif fa == 0.0:
        return a
    elif fb == 0.0:
        return b
    for i in range(maxiter):
        dm = 0.5 * (b - a)
        xm = a + dm
        fm = f(xm, *args)
        dn = copysign(1.0 / sqrt(fm * fm - fa * fb), fb - fa) * fm * dm
        dn_abs, dm_abs_tol = (fabs(dn), max(fabs(dm) - 0.5 * tol, 0.0))
        xn = xm - copysign(min(dm_abs_tol, dn_abs), dn)
        fn = f(xn, *args)
        if fn < 0.0 and fm > 0.0 or (fn > 0.0 and fm < 0.0):
            a = xn
            fa = fn
            b = xm
            fb = fm
        elif fn < 0.0 and fa > 0.0 or (fn > 0.0 and fa < 0.0):
            b = xn
            fb = fn
        else:
            a = xn
            fa = fn
        tol = xtol + rtol * xn
        if fn == 0.0 or fabs(b - a) < tol:
            return xn
    raise UnconvergedError(f'Failed to converge after {maxiter} iterations')

def brenth(f, xa, xb, args=(), xtol=1e-12, rtol=4.440892098500626e-16, maxiter=100, ytol=None, q=False, fa=None, fb=None, kwargs={}):
    xpre = xa
    xcur = xb
    xblk = 0.0
    fblk = 0.0
    spre = 0.0
    scur = 0.0
    if fa is None:
        fpre = f(xpre, *args, **kwargs)
    else:
        fpre = fa
    if fb is None:
        fcur = f(xcur, *args, **kwargs)
    else:
        fcur = fb
    if fpre > 0.0 and fcur > 0.0 or (fpre < 0.0 and fcur < 0.0) or isnan(fpre) or isnan(fcur):
        raise NotBoundedError('f(a) and f(b) must have different signs')
    elif fpre == 0.0:
        return xa
    elif fcur == 0.0:
        return xb
    for i in range(maxiter):
        if fpre < 0.0 and fcur > 0.0 or (fpre > 0.0 and fcur < 0.0):
            xblk = xpre
            fblk = fpre
            spre = scur = xcur - xpre
        if abs(fblk) < abs(fcur):
            xpre = xcur
            xcur = xblk
            xblk = xpre
            fpre = fcur
            fcur = fblk
            fblk = fpre
        delta = 0.5 * (xtol + rtol * abs(xcur))
        sbis = 0.5 * (xblk - xcur)
        if ytol is not None:
            if fcur == 0.0 or (abs(sbis) < delta and abs(fcur) < ytol):
                return xcur
        elif fcur == 0.0 or abs(sbis) < delta:
            return xcur
        if abs(spre) > delta and abs(fcur) < abs(fpre):
            if xpre == xblk:
                stry = -fcur * (xcur - xpre) / (fcur - fpre)
            else:
                dpre = (fpre - fcur) / (xpre - xcur)
                dblk = (fblk - fcur) / (xblk - xcur)
                if q:
                    stry = -fcur * (fblk * dblk - fpre * dpre) / (dblk * dpre * (fblk - fpre))
                else:
                    stry = -fcur * (fblk - fpre) / (fblk * dpre - fpre * dblk)
            if abs(stry + stry) < min(abs(spre), 3.0 * abs(sbis) - delta):
                spre = scur
                scur = stry
            else:
                spre = sbis
                scur = sbis
        else:
            spre = sbis
            scur = sbis
        xpre = xcur
        fpre = fcur
        if abs(scur) > delta:
            xcur += scur
        elif sbis > 0.0:
            xcur += delta
        else:
            xcur -= delta
        fcur = f(xcur, *args, **kwargs)
    raise UnconvergedError(f'Failed to converge after {maxiter} iterations')
factors_growing_positive = [3.0 ** i for i in range(1, 20)]
factors_shrinking_positive = [3.0 ** (-i) for i in range(1, 20)]
factors_growing_negative = [-v for v in factors_growing_positive]
factors_shrinking_negative = [-v for v in factors_shrinking_positive]
factors_nearby_increasing = [v for v in linspace(1, 3, 20)]
factors_nearby_decreasing = [1.0 / v for v in factors_nearby_increasing]
secant_bisection_factors = []
for i in range(len(factors_growing_positive)):
    for l in (factors_growing_positive, factors_shrinking_positive, factors_growing_negative, factors_shrinking_negative, factors_nearby_increasing, factors_nearby_decreasing):
        if l[i] != 1.0:
            secant_bisection_factors.append(l[i])

def secant(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0, xtol=1.48e-08, ytol=None, x1=None, require_eval=False, f0=None, f1=None, bisection=False, same_tol=1.0, kwargs={}, require_xtol=True, additional_guesses=False, additional_guess_scale=1.0):
    p0 = 1.0 * x0
    if x1 is not None:
        p1 = x1
    else:
        if x0 >= 0.0:
            p1 = x0 * 1.0001 + 0.0001
        else:
            p1 = x0 * 1.0001 - 0.0001
        if low is not None and p1 < low:
            p1 = low
        if high is not None and p1 > high:
            p1 = high
    if f0 is None:
        q0 = func(p0, *args, **kwargs)
    else:
        q0 = f0
    if isnan(q0) or isinf(q0):
        raise UnconvergedError('Bad function evaluation on first starting point', iterations=0, point=p0, err=q0)
    if ytol is not None and abs(q0) < ytol and (not require_xtol) or q0 == 0.0:
        return p0
    if f1 is None:
        q1 = func(p1, *args, **kwargs)
    else:
        q1 = f1
    if isnan(q1) or isinf(q1):
        raise UnconvergedError('Bad function evaluation on second starting point', iterations=0, point=p1, err=q1)
    if q1 == q0 and additional_guesses:
        for guess_factor in secant_bisection_factors:
            p1 = x0 * guess_factor if x0 != 0.0 else guess_factor
            if low is not None and p1 < low:
                p1 = low
            if high is not None and p1 > high:
                p1 = high
            q1 = func(p1, *args, **kwargs)
            if not (isnan(q1) or isinf(q1)) and abs(q1 / q0 - 1.0) > 1e-10:
                break
    did_additional_guesses = False
    if ytol is not None and abs(q1) < ytol and (not require_xtol) or q1 == 0.0:
        return p1
    if bisection:
        a, b = (None, None)
        if q1 < 0.0:
            a = p1
        else:
            b = p1
        if q0 < 0.0:
            a = p0
        else:
            b = p0
    for i in range(maxiter):
        if q1 != q0:
            p = p1 - q1 * (p1 - p0) / (q1 - q0) * damping
        else:
            p = p1
        if low is not None and p < low:
            p = low
        if high is not None and p > high:
            p = high
        if bisection and a is not None and (b is not None):
            if not a < p < b or b < p < a:
                p = 0.5 * (a + b)
        if ytol is not None and xtol is not None:
            if abs(q1) < ytol and (not require_xtol or abs(p0 - p1) <= abs(xtol * p0)):
                if require_eval:
                    return p1
                return p
        elif xtol is not None:
            if abs(p0 - p1) <= abs(xtol * p0) and (not (p0 == p1 and (p0 == low or p0 == high))):
                if require_eval:
                    return p1
                return p
        elif ytol is not None:
            if abs(q1) < ytol:
                if require_eval:
                    return p1
                return p
        if q1 == q0:
            if xtol is not None:
                xtol *= same_tol
            if ytol is not None:
                ytol *= same_tol
            if ytol is not None and xtol is not None:
                if abs(p0 - p1) <= abs(xtol * p0) and abs(q1) < ytol:
                    return p
            elif xtol is not None:
                if abs(p0 - p1) <= abs(xtol * p0) and (not (p0 == p1 and (p0 == low or p0 == high))):
                    return p
            elif ytol is not None:
                if abs(q1) < ytol:
                    return p
            if bisection and a is not None and (b is not None):
                p = 0.5 * (a + b)
            elif additional_guesses and (not did_additional_guesses):
                for guess_factor in secant_bisection_factors:
                    p = x0 * guess_factor * additional_guess_scale
                    if low is not None and p < low or (high is not None and p > high):
                        continue
                    temp_q = func(p, *args, **kwargs)
                    if not (isnan(q1) or isinf(q1)) and temp_q * q0 < 0.0:
                        break
                if low is not None and p < low:
                    p = low
                if high is not None and p > high:
                    p = high
                if p == p1:
                    raise SamePointError('Convergence failed - previous points are the same', q1=q1, p1=p1, q0=q0, p0=p0)
                did_additional_guesses = True
            else:
                raise SamePointError('Convergence failed - previous points are the same', q1=q1, p1=p1, q0=q0, p0=p0)
        p0 = p1
        q0 = q1
        p1 = p
        q1 = func(p1, *args, **kwargs)
        if isnan(q1) or isinf(q1):
            raise UnconvergedError('Bad function evaluation', iterations=i, point=p1, err=q1)
        if q1 == 0.0:
            return p1
        if bisection:
            if q1 < 0.0:
                a = p1
            else:
                b = p1
    raise UnconvergedError('Failed to converge', iterations=i, point=p, err=q1)
line_search_factors = []
remove = 0.01
for i in range(7):
    line_search_factors.append(1 - remove)
    remove *= 2
tmp = []
remove = 1e-10
for i in range(10):
    tmp.append(remove)
    remove *= 10
tmp.sort(reverse=True)
line_search_factors.extend(tmp)
line_search_factors_low_prec = line_search_factors[3:]
newton_line_search_factors = [1.0] + line_search_factors
newton_line_search_factors_disabled = [1.0]

def one_sided_secant(f, x0, x_flat, args=tuple(), maxiter=100, xtol=1.48e-08, ytol=None, require_xtol=True, damping=1.0, x1=None, y_flat=None, max_quadratic_iter=7, low_prec_ls_iter=3, y0=None, y1=None, kwargs={}):
    if x1 is None:
        if x0 >= 0.0:
            x1 = x0 * 1.0001 + 0.0001
        else:
            x1 = x0 * 1.0001 - 0.0001
    if y0 is None:
        y0 = f(x0, *args, **kwargs)
    if y1 is None:
        y1 = f(x1, *args, **kwargs)
    flat_higher_than_x = x_flat > x0
    if y_flat is None:
        y_flat = f(x_flat, *args, **kwargs)
    if y0 == y_flat:
        raise ValueError('The initial y value is the same as the value in the zero-derivative region')
    if y0 == y1:
        raise ValueError('The initial points have the same value, cannot start the search')
    if y1 == y_flat:
        raise ValueError('The second point is also flat, cannot start the search')
    x2 = x3 = y2 = y3 = None
    for i in range(maxiter):
        has_step = False
        if x2 is not None and i < max_quadratic_iter:
            try:
                a, b, c = quadratic_from_points(x0, x1, x2, y0, y1, y2)
                sln = roots_quadratic(a, b, c)
                if sln[0].imag == 0:
                    if sln[0] != sln[1]:
                        a_step = sln[0].real - x1
                        another_step = sln[1].real - x1
                        if abs(a_step) < abs(another_step):
                            step = a_step
                        else:
                            step = another_step
                    else:
                        step = sln[0].real - x1
                    has_step = True
            except:
                pass
        if not has_step:
            step = -y1 * (x1 - x0) / (y1 - y0) * damping
        force_line_search = x_flat <= x1 + step if flat_higher_than_x else x_flat >= x1 + step
        if not force_line_search:
            x = x1 + step
            y = f(x, *args, **kwargs)
            if y == y_flat:
                x_flat = x
        else:
            pass
        if force_line_search or y == y_flat:
            if flat_higher_than_x:
                if x_flat <= x0 + step:
                    step = x_flat - x0
            elif x_flat >= x0 + step:
                step = x_flat - x0
            for line_search_factor in line_search_factors if i > low_prec_ls_iter else line_search_factors_low_prec:
                x = x0 + step * line_search_factor
                y = f(x, *args, **kwargs)
                if y != y_flat:
                    break
                else:
                    x_flat = x
            if y == y_flat:
                raise ValueError('The line search has finished and no point to continue with was found')
        if ytol is not None and xtol is not None:
            if abs(y) < ytol and abs(x - x0) <= abs(xtol * x):
                return x
        elif xtol is not None:
            if abs(x - x0) <= abs(xtol * x):
                return x
        elif ytol is not None:
            if abs(y) < ytol:
                return x
        x0, x1, x2, x3 = (x, x0, x1, x2)
        y0, y1, y2, y3 = (y, y0, y1, y2)
    raise UnconvergedError('Failed to converge', iterations=i, point=x, err=y)

def halley_compat_numba(func, x, *args):
    a, b = func(x, *args)
    return (a, b, 0.0)

def newton(func, x0, fprime=None, args=(), maxiter=100, fprime2=None, low=None, high=None, damping=1.0, ytol=None, xtol=1.48e-08, require_eval=False, require_xtol=True, damping_func=None, bisection=False, additional_guesses=False, max_bound_hits=4, kwargs={}):
    p0 = 1.0 * x0
    p1 = None
    p2 = None
    p3 = None
    fval0 = None
    fval1 = None
    fval2 = None
    fval3 = None
    if bisection:
        a, b = (None, None)
        fa, fb = (None, None)
    fprime2_included = fprime2 == True
    fprime_included = fprime == True
    if fprime2_included:
        func2 = func
    hit_low, hit_high = (0, 0)
    it = 0
    did_additional_guesses = False
    while it < maxiter:
        if fprime2_included:
            fval, fder, fcurv = func2(p0, *args, **kwargs)
        elif fprime_included:
            fval, fder = func(p0, *args, **kwargs)
        elif fprime2 is not None:
            fval = func(p0, *args, **kwargs)
            fder = fprime(p0, *args, **kwargs)
            fcurv = fprime2(p0, *args, **kwargs)
        else:
            fval = func(p0, *args, **kwargs)
            fder = fprime(p0, *args, **kwargs)
        bad_fval = isnan(fval) or isinf(fval)
        bad_fder = fder == 0.0 or isnan(fder) or isinf(fder)
        stuck = False
        if p1 is not None and p2 is not None:
            stuck = p0 == p2 and p1 == p0
            if not stuck and p3 is not None:
                stuck = p3 == p0
        if fval == 0.0:
            return p0
        elif bad_fder or bad_fval or stuck:
            if not bad_fval and (ytol is not None and abs(fval) < ytol):
                return p0
            if stuck and (not additional_guesses or did_additional_guesses):
                raise UnconvergedError(f'Failed to converge; next guess is same as current guess on iteration {it}, guess={p0:g}, value={fval:g}')
            if it == 0 and (not additional_guesses):
                if bad_fval:
                    raise UnconvergedError(f'Cannot continue - math error in function value on iteration {it}, guess={p0:f}, value={fval:f}')
                else:
                    raise UnconvergedError(f'Derivative became zero on iteration {it}, guess={p0:f} ')
            require_bracket = False
            if additional_guesses and ((it == 0 or stuck) or fval == fval0):
                points = secant_bisection_factors
                reinitializing = True
                did_additional_guesses = True
                require_bracket = fval == fval0 and bisection
            else:
                points = line_search_factors
                reinitializing = False
            recovered = False
            for guess_factor in points:
                it += 1
                if reinitializing:
                    guess = x0 * guess_factor if x0 != 0.0 else guess_factor
                else:
                    guess = p1 + (p0 - p1) * guess_factor
                if low is not None and guess < low:
                    guess = low
                if high is not None and guess > high:
                    guess = high
                if guess == p0:
                    continue
                if fprime2_included:
                    fval, fder, fcurv = func2(guess, *args, **kwargs)
                elif fprime_included:
                    fval, fder = func(guess, *args, **kwargs)
                elif fprime2 is not None:
                    fval = func(guess, *args, **kwargs)
                    fder = fprime(guess, *args, **kwargs)
                    fcurv = fprime2(guess, *args, **kwargs)
                else:
                    fval = func(guess, *args, **kwargs)
                    fder = fprime(guess, *args, **kwargs)
                if require_bracket and fval * fval1 >= 0.0:
                    continue
                if isnan(fval) or isinf(fval) or fder == 0.0:
                    continue
                else:
                    p0 = guess
                    recovered = True
                    break
            if not recovered:
                raise UnconvergedError(f'Derivative became zero on iteration {it}, guess={p0:f} ')
        if bisection:
            if fval < 0.0:
                a = p0
                fa = fval
            else:
                b = p0
                fb = fval
        fder_inv = 1.0 / fder
        step = fval * fder_inv
        if damping_func is not None:
            if fprime2 is not None:
                step = step / (1.0 - 0.5 * step * fcurv * fder_inv)
            p = damping_func(p0, -step, damping)
        elif fprime2 is None or isnan(fcurv) or isinf(fcurv):
            p = p0 - step * damping
        else:
            newton_step = step * damping
            halley_step = newton_step / (1.0 - 0.5 * step * fcurv * fder_inv)
            if halley_step * newton_step < 0.0:
                p = p0 - newton_step
            else:
                p = p0 - halley_step
        if bisection and a is not None and (b is not None):
            if not a < p < b and (not b < p < a) or it > 40:
                p = 0.5 * (a + b)
        if low is not None and p < low:
            hit_low += 1
            if p0 == low and hit_low > max_bound_hits:
                if ytol is not None and abs(fval) < ytol:
                    return low
                else:
                    raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, value={p:f} ')
            p = low
        if high is not None and p > high:
            hit_high += 1
            if p0 == high and hit_high > max_bound_hits:
                if ytol is not None and abs(fval) < ytol:
                    return high
                else:
                    raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, value={p:f} ')
            p = high
        it += 1
        if ytol is not None and xtol is not None:
            ytol_met = abs(fval) <= ytol
            xtol_met = abs(p - p0) <= abs(xtol * p)
            if xtol_met and ytol_met or (not require_xtol and ytol_met):
                if require_eval:
                    return p0
                return p
        elif xtol is not None:
            if abs(p - p0) < abs(xtol * p):
                if require_eval:
                    return p0
                return p
        elif ytol is not None:
            if abs(fval) < ytol:
                if require_eval:
                    return p0
                return p
        fval0, fval1, fval2, fval3 = (fval, fval0, fval1, fval2)
        if isnan(p) or isinf(p):
            raise UnconvergedError(f'Cannot continue - math error in function value on iteration {it}, guess={p:f}, value={fval:f}')
        p0, p1, p2, p3 = (p, p0, p1, p2)
    raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, point={p:g}, error={fval:g}')

def halley(func, x0, args=(), maxiter=100, low=None, high=None, damping=1.0, ytol=None, xtol=1.48e-08, require_eval=False, damping_func=None, bisection=False, max_bound_hits=4, kwargs={}, max_2nd_ratio=1.5):
    p0 = 1.0 * x0
    if bisection:
        a, b = (None, None)
        fa, fb = (None, None)
    hit_low, hit_high = (0, 0)
    for it in range(maxiter):
        fval, fder, fder2 = func(p0, *args, **kwargs)
        if fval == 0.0:
            return p0
        elif fder == 0.0:
            if ytol is not None and abs(fval) < ytol:
                return p0
            else:
                raise UnconvergedError(f'Derivative became zero; maxiter ({maxiter}) reached, value={p0:f} ')
        if bisection:
            if fval < 0.0:
                a = p0
                fa = fval
            else:
                b = p0
                fb = fval
        fder_inv = 1.0 / fder
        step = fval * fder_inv
        skipped_halley = False
        if damping_func is not None:
            step = step / (1.0 - 0.5 * step * fder2 * fder_inv)
            p = damping_func(p0, -step, damping)
        else:
            step2 = step / (1.0 - 0.5 * step * fder2 * fder_inv) * damping
            if max_2nd_ratio is not None and abs(1.0 - step2 / step) > max_2nd_ratio:
                skipped_halley = True
                p = p0 - step
            else:
                p = p0 - step2
        if bisection and a is not None and (b is not None):
            if not a < p < b and (not b < p < a):
                p = 0.5 * (a + b)
        if low is not None and p < low:
            hit_low += 1
            if p0 == low and hit_low > max_bound_hits:
                if ytol is not None and abs(fval) < ytol:
                    return low
                else:
                    raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, value={p:f} ')
            p = low
        if high is not None and p > high:
            hit_high += 1
            if p0 == high and hit_high > max_bound_hits:
                if ytol is not None and abs(fval) < ytol:
                    return high
                else:
                    raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, value={p:f} ')
            p = high
        if not skipped_halley:
            if ytol is not None and xtol is not None:
                if abs(p - p0) < abs(xtol * p) and abs(fval) < ytol:
                    if require_eval:
                        return p0
                    return p
            elif xtol is not None:
                if abs(p - p0) < abs(xtol * p):
                    if require_eval:
                        return p0
                    return p
            elif ytol is not None:
                if abs(fval) < ytol:
                    if require_eval:
                        return p0
                    return p
        p0 = p
    raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, value={p:f} ')

def newton_err(F):
    err = sum([abs(i) for i in F])
    return err

def basic_damping(x, dx, damping, *args):
    N = len(x)
    x2 = [0.0] * N
    for i in range(N):
        x2[i] = x[i] + dx[i] * damping
    return x2

def solve_2_direct(mat, vec):
    ab = mat[0]
    cd = mat[1]
    a, b = (ab[0], ab[1])
    c, d = (cd[0], cd[1])
    e, f = (vec[0], vec[1])
    x0 = 1.0 / (a * d - b * c)
    sln = [0.0] * 2
    sln[0] = x0 * (-b * f + d * e)
    sln[1] = x0 * (a * f - c * e)
    return sln

def solve_3_direct(mat, vec):
    a, b, c = mat[0]
    d, e, f = mat[1]
    g, h, i = mat[2]
    j, k, l = vec
    x0 = e * i - f * h
    x1 = f * g - d * i
    x2 = d * h - e * g
    x3 = 1.0 / (a * x0 + b * x1 + c * x2)
    ans = [0.0] * 3
    ans[0] = x3 * (j * x0 + k * (c * h - b * i) + l * (b * f - c * e))
    ans[1] = x3 * (j * x1 + k * (a * i - c * g) + l * (c * d - a * f))
    ans[2] = x3 * (j * x2 + k * (b * g - a * h) + l * (a * e - b * d))
    return ans

def solve_4_direct(mat, vec):
    a, b, c, d = mat[0]
    e, f, g, h = mat[1]
    i, j, k, l = mat[2]
    m, n, o, p = mat[3]
    q, r, s, t = vec
    u0 = a * f - e * b
    u1 = a * g - e * c
    u2 = a * h - e * d
    u3 = b * g - f * c
    u4 = b * h - f * d
    u5 = c * h - g * d
    v5 = k * p - o * l
    v4 = j * p - n * l
    v3 = j * o - n * k
    v2 = i * p - m * l
    v1 = i * o - m * k
    v0 = i * n - m * j
    x0 = 1.0 / (u0 * v5 - u1 * v4 + u2 * v3 + u3 * v2 - u4 * v1 + u5 * v0)
    ans = [0.0] * 4
    ans[0] = x0 * (q * (f * v5 - g * v4 + h * v3) + r * (c * v4 - b * v5 - d * v3) + s * (n * u5 - o * u4 + p * u3) + t * (k * u4 - j * u5 - l * u3))
    ans[1] = x0 * (q * (g * v2 - e * v5 - h * v1) + r * (a * v5 - c * v2 + d * v1) + s * (o * u2 - m * u5 - p * u1) + t * (i * u5 - k * u2 + l * u1))
    ans[2] = x0 * (q * (e * v4 - f * v2 + h * v0) + r * (b * v2 - a * v4 - d * v0) + s * (m * u4 - n * u2 + p * u0) + t * (j * u2 - i * u4 - l * u0))
    ans[3] = x0 * (q * (f * v1 - e * v3 - g * v0) + r * (a * v3 - b * v1 + c * v0) + s * (n * u1 - m * u3 - o * u0) + t * (i * u3 - j * u1 + k * u0))
    return ans

def check_jacobian(x, j, func, jac_error_allowed=False):
    bad_jacobian = False
    for jrow in j:
        for jval in jrow:
            if isinf(jval) or isnan(jval):
                bad_jacobian = True
                break
        if bad_jacobian:
            break
    if jac_error_allowed:
        j = jacobian(func, x, scalar=False)
        bad_jacobian = False
        for jrow in j:
            for jval in jrow:
                if isinf(jval) or isnan(jval):
                    bad_jacobian = True
                    break
            if bad_jacobian:
                break
    if bad_jacobian:
        raise ValueError('Cannot continue - nan or inf error found in Jacobian')
    return j

def newton_system(f, x0, jac, xtol=None, ytol=None, maxiter=100, damping=1.0, args=(), damping_func=None, line_search=False, require_progress=False, check_numbers=False, Armijo=False, Armijo_c1=0.0001, solve_func=py_solve, with_point=False, jac_error_allowed=False):
    jac_also = True if jac == True else False
    if jac_also:
        fcur, j = f(x0, *args)
    else:
        fcur = f(x0, *args)
    N = len(fcur)
    err0 = 0.0
    for v in fcur:
        err0 += abs(v)
    if xtol is None and (ytol is not None and err0 < ytol):
        return (x0, 0)
    x = x0
    if not jac_also:
        j = jac(x, *args)
    if check_numbers:
        j = check_jacobian(x=x0, j=j, func=f, jac_error_allowed=jac_error_allowed)
    factors = newton_line_search_factors if line_search else newton_line_search_factors_disabled
    jac_updated = True
    iteration = 1
    while iteration < maxiter:
        try:
            dx = solve_func(j, [-v for v in fcur])
        except Exception as e:
            if jac_error_allowed:
                j = jacobian(f, x, scalar=False)
                dx = solve_func(j, [-v for v in fcur])
            else:
                raise e
        for factor in factors:
            mult = factor * damping
            if damping_func is None:
                xnew = [xi + dxi * mult for xi, dxi in zip(x, dx)]
            else:
                xnew = damping_func(x, dx, damping * factor, *args)
            try:
                if jac_also:
                    fnew, jnew = f(xnew, *args)
                    jac_updated = True
                else:
                    fnew = f(xnew, *args)
                do_next = False
                if check_numbers:
                    for v in fnew:
                        if isinf(v) or isnan(v):
                            do_next = True
                if do_next and factor != factors[-1]:
                    continue
            except:
                continue
            err_new = 0.0
            for v in fnew:
                err_new += abs(v)
            if check_numbers:
                for v in fnew:
                    if isinf(v) or isnan(v):
                        raise ValueError('Cannot continue - math error in function value')
            if err_new < err0:
                if Armijo:
                    phi = 0.0
                    for v in fnew:
                        phi += v * v
                    Armijo_lhs = phi
                    phi0 = 0.0
                    for v in fcur:
                        phi0 += v * v
                    derphi0 = 0.0
                    for i in range(N):
                        temp = 0.0
                        for jidx in range(N):
                            temp += fcur[jidx] * j[jidx][i]
                        derphi0 += 4.0 * temp * temp
                    Armijo_rhs = Armijo_c1 * factor * derphi0 + phi0
                    if Armijo_lhs <= Armijo_rhs:
                        if not jac_also:
                            jac_updated = False
                        break
                else:
                    if not jac_also:
                        jac_updated = False
                    break
        if (line_search and err_new > err0) and require_progress:
            raise ValueError('Completed line search without reducing the objective function error, cannot proceed')
        fcur = fnew
        if err_new >= err0:
            if require_progress:
                raise ValueError('Completed line search without reducing the objective function error, cannot proceed')
            elif not jac_also:
                jnew = jac(xnew, *args)
                jac_updated = True
        err0 = err_new
        x = xnew
        iteration += 1
        if xtol is not None:
            if norm2(fcur) < xtol and (ytol is None or err0 < ytol):
                break
        elif ytol is not None:
            if err0 < ytol:
                break
        if not jac_updated:
            jnew = jac(x, *args)
        if check_numbers:
            jnew = check_jacobian(x=xnew, j=jnew, func=f, jac_error_allowed=jac_error_allowed)
        j = jnew
        jac_updated = False
    if xtol is not None and norm2(fcur) > xtol:
        raise UnconvergedError('Failed to converge')
    if ytol is not None:
        err0 = 0.0
        for v in fcur:
            err0 += abs(v)
        if err0 > ytol:
            raise UnconvergedError('Failed to converge')
    if with_point:
        return (x, iteration, fcur, j)
    return (x, iteration)

def newton_minimize(f, x0, jac, hess, xtol=None, ytol=None, maxiter=100, damping=1.0, args=(), damping_func=None):
    jac_also = True if jac == True else False
    hess_also = True if hess == True else False

    def err(F):
        err = sum([abs(i) for i in F])
        return err
    if hess_also:
        fcur, j, h = f(x0, *args)
    elif jac_also:
        fcur, j = f(x0, *args)
        h = hess(x0, *args)
    else:
        fcur = f(x0, *args)
        j = jac(x0, *args)
        h = hess(x0, *args)
    iter = 0
    x = x0
    while iter < maxiter:
        dx = py_solve(h, [-v for v in j])
        if damping_func is None:
            x = [xi + dxi * damping for xi, dxi in zip(x, dx)]
        else:
            x = damping_func(x, dx, damping)
        if hess_also:
            fcur, j, h = f(x, *args)
        elif jac_also:
            fcur, j = f(x, *args)
            h = hess(x, *args)
        else:
            fcur = f(x, *args)
            j = jac(x, *args)
            h = hess(x, *args)
        iter += 1
        if xtol is not None and norm2(j) < xtol:
            break
        if ytol is not None and err(j) < ytol:
            break
    if xtol is not None and norm2(j) > xtol:
        raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, value={x} ')
    if ytol is not None and err(j) > ytol:
        raise UnconvergedError(f'Failed to converge; maxiter ({maxiter}) reached, value={x} ')
    return (x, iter)

def homotopy_function(x, lambd, F0, objf, args=()):
    Fx = objf(x, *args)
    const = 1.0 - lambd
    return [Fx[i] - const * F0[i] for i in range(len(F0))]

def homotopy_solver(f, x0, jac, xtol=1e-08, ytol=None, maxiter=100, lambd_step=0.1, damping=1.0, args=(), line_search=True, terminal_xtol=1e-10, terminal_ytol=None, terminal_lambd_criteria=0.9, solve_func=py_solve):
    f0 = f(x0, *args)
    working_lambda_step = lambd_step
    lambd_previous = lambd = 0.0
    N = len(f0)
    remaining_iters = maxiter
    homotopy_iter = 0
    failed_iters = 0
    f_n = lambda x, *discarded_args: homotopy_function(x, lambd, f0, f, args=args)
    while abs(lambd - 1) > 1e-15:
        lambd += working_lambda_step
        if lambd > 1.0:
            lambd = 1.0
        delta_lambd = working_lambda_step
        if homotopy_iter == 0:
            Fx = f0
            J = jac(x0, *args)
        H0 = [Fx[i] - (1.0 - lambd_previous) * f0[i] for i in range(N)]
        H1 = [Fx[i] - (1.0 - lambd) * f0[i] for i in range(N)]
        const = -1.0 / delta_lambd
        dx_dlambd = solve_func(J, [const * (H1[i] - H0[i]) for i in range(N)])
        x1 = [x0[i] + delta_lambd * dx_dlambd[i] for i in range(N)]
        use_xtol, use_ytol = (xtol, ytol) if lambd < terminal_lambd_criteria else (terminal_xtol, terminal_ytol)
        try:
            x2, niter, Fx, J = newton_system(f=f_n, x0=x1, jac=jac, xtol=use_xtol, ytol=use_ytol, maxiter=remaining_iters, damping=damping, args=args, solve_func=solve_func, line_search=line_search, with_point=True)
        except:
            lambd -= working_lambda_step
            working_lambda_step *= 0.5
            failed_iters += 1
            if failed_iters > 5:
                raise UnconvergedError('Failed to converge')
            continue
        remaining_iters -= niter
        delta_lambd = lambd_step
        x0 = x2
        lambd_previous = lambd
        homotopy_iter += 1
    return (x0, maxiter - remaining_iters)

def broyden2(xs, fun, jac, xtol=1e-07, maxiter=100, jac_has_fun=False, skip_J=False, args=()):
    iter = 0
    if skip_J:
        fcur = fun(xs, *args)
        N = len(fcur)
        J = eye(N)
    elif jac_has_fun:
        fcur, J = jac(xs, *args)
        J = inv(J)
    else:
        fcur = fun(xs, *args)
        J = inv(jac(xs, *args))
    N = len(fcur)
    eqns = range(N)
    err = 0.0
    for fi in fcur:
        err += abs(fi)
    while err > xtol and iter < maxiter:
        s = matrix_vector_dot(J, fcur)
        xs = [xs[i] - s[i] for i in eqns]
        fnew = fun(xs, *args)
        z = [fnew[i] - fcur[i] for i in eqns]
        u = matrix_vector_dot(J, z)
        d = [-i for i in s]
        dmu = [d[i] - u[i] for i in eqns]
        dmu_d = dot_product(dmu, d)
        den_inv = 1.0 / dot_product(d, u)
        factor = den_inv * dmu_d
        J_delta = [[factor * j for j in row] for row in J]
        for i in eqns:
            for j in eqns:
                J[i][j] += J_delta[i][j]
        fcur = fnew
        iter += 1
        err = 0.0
        for fi in fcur:
            err += abs(fi)
    return (xs, iter)

def fixed_point(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0, args=(), require_progress=False, check_numbers=False):
    fcur = f(x0, *args)
    err0 = 0.0
    for v in fcur:
        err0 += abs(v)
    if xtol is None and (ytol is not None and err0 < ytol):
        return (x0, 0.0)
    x = [xi - fi for xi, fi in zip(x0, fcur)]
    iteration = 1
    while iteration < maxiter:
        fcur = f(x, *args)
        if check_numbers:
            for v in fcur:
                if isinf(v) or isnan(v):
                    raise ValueError('Cannot continue - math error in function value')
        x = [xi - fi * damping for xi, fi in zip(x, fcur)]
        err1 = 0.0
        for v in fcur:
            err1 += abs(v)
        iteration += 1
        if xtol is not None:
            if norm2(fcur) < xtol and (ytol is None or err1 < ytol):
                break
        elif ytol is not None:
            if err1 < ytol:
                break
        if err1 >= err0 and require_progress:
            raise ValueError('Fixed point is not making progress, cannot proceed')
        err0 = err1
    if xtol is not None and norm2(fcur) > xtol:
        raise UnconvergedError('Failed to converge')
    if ytol is not None:
        err0 = 0.0
        for v in fcur:
            err0 += abs(v)
        if err0 > ytol:
            raise UnconvergedError('Failed to converge')
    return (x, iteration)

def aitken_delta_squared_accelerate(x, x1, x2, max_change_ratio=1.0):
    N = len(x)
    out = [0.0] * N
    for i in range(N):
        dx1 = x2[i] - x1[i]
        dx = x1[i] - x[i]
        den = dx1 - dx
        if den != 0.0:
            change = -dx1 * dx1 / den
            if change != 0.0 and x[i] != 0.0 and (abs(change / x[i]) < max_change_ratio):
                out[i] = change
    return out

def fixed_point_aitken(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0, args=(), require_progress=False, check_numbers=False, acc_frequency=4, acc_damping=1.0, acc_max_change_ratio=1.0):
    all_guesses = [x0]
    fcur = f(x0, *args)
    err0 = 0.0
    for v in fcur:
        err0 += abs(v)
    if xtol is None and (ytol is not None and err0 < ytol):
        return (x0, 0.0)
    x = [xi - fi for xi, fi in zip(x0, fcur)]
    iteration = 1
    while iteration < maxiter:
        all_guesses.append(x)
        fcur = f(x, *args)
        if check_numbers:
            for v in fcur:
                if isinf(v) or isnan(v):
                    raise ValueError('Cannot continue - math error in function value')
        err1 = 0.0
        for v in fcur:
            err1 += abs(v)
        iteration += 1
        if xtol is not None:
            if norm2(fcur) < xtol and (ytol is None or err1 < ytol):
                break
        elif ytol is not None:
            if err1 < ytol:
                break
        if err1 >= err0 and require_progress:
            raise ValueError('Fixed point is not making progress, cannot proceed')
        err0 = err1
        if (iteration - 1) % acc_frequency == 0:
            x1, x2 = (all_guesses[-2], all_guesses[-3])
            dx = aitken_delta_squared_accelerate(x, x1, x2, acc_max_change_ratio)
            x = [xi + dxi * acc_damping for xi, dxi in zip(x, dx)]
        else:
            x = [xi - fi * damping for xi, fi in zip(x, fcur)]
    if xtol is not None and norm2(fcur) > xtol:
        raise UnconvergedError('Failed to converge')
    if ytol is not None:
        err0 = 0.0
        for v in fcur:
            err0 += abs(v)
        if err0 > ytol:
            raise UnconvergedError('Failed to converge')
    return (x, iteration)

def dem(x, x1, x2, max_change_ratio=1.0):
    N = len(x)
    dx1 = [x1[i] - x2[i] for i in range(N)]
    dx = [x[i] - x1[i] for i in range(N)]
    dot_dx1_dx = 0.0
    dot_dx_dx = 0.0
    for i in range(N):
        dot_dx_dx += dx[i] * dx[i]
        dot_dx1_dx += dx1[i] * dx[i]
    if dot_dx_dx == 0:
        return [0.0] * N
    lbda = dot_dx1_dx / dot_dx_dx
    den = 1.0 - lbda
    if den == 0.0:
        return [0.0] * N
    den_inv = abs(1.0 / den)
    dacc = [dx[i] * den_inv for i in range(N)]
    return dacc

def gdem(x, x1, x2, x3, max_change_ratio=1.0):
    N = len(x)
    dx2 = [x[i] - x3[i] for i in range(N)]
    dx1 = [x[i] - x2[i] for i in range(N)]
    dx = [x[i] - x1[i] for i in range(N)]
    b01, b02, b12, b11, b22 = (0.0, 0.0, 0.0, 0.0, 0.0)
    for i in range(N):
        b01 += dx[i] * dx1[i]
        b02 += dx[i] * dx2[i]
        b12 += dx1[i] * dx2[i]
        b11 += dx1[i] * dx1[i]
        b22 += dx2[i] * dx2[i]
    to_den = b11 * b22 - b12 * b12
    if abs(to_den) == 0:
        return dem(x, x1, x2, max_change_ratio)
    den_inv = 1.0 / to_den
    mu1 = den_inv * (b02 * b12 - b01 * b22)
    mu2 = den_inv * (b01 * b12 - b02 * b11)
    to_den2 = 1.0 + mu1 + mu2
    if to_den2 == 0:
        return dem(x, x1, x2, max_change_ratio)
    factor = 1.0 / to_den2
    dx_out = [dxi for dxi in dx]
    for i in range(N):
        change = factor * (dx[i] - mu2 * dx1[i])
        if x[i] != 0.0 and abs(change / x[i]) < max_change_ratio:
            dx_out[i] = change
    return dx_out

def fixed_point_gdem(f, x0, xtol=None, ytol=None, maxiter=100, damping=1.0, args=(), require_progress=False, check_numbers=False, acc_frequency=5, acc_damping=1.0, acc_max_change_ratio=1.0):
    all_guesses = [x0]
    fcur = f(x0, *args)
    err0 = 0.0
    for v in fcur:
        err0 += abs(v)
    if xtol is None and (ytol is not None and err0 < ytol):
        return (x0, 0.0)
    x = [xi - fi for xi, fi in zip(x0, fcur)]
    iteration = 1
    while iteration < maxiter:
        all_guesses.append(x)
        fcur = f(x, *args)
        if check_numbers:
            for v in fcur:
                if isinf(v) or isnan(v):
                    raise ValueError('Cannot continue - math error in function value')
        err1 = 0.0
        for v in fcur:
            err1 += abs(v)
        iteration += 1
        if xtol is not None:
            if norm2(fcur) < xtol and (ytol is None or err1 < ytol):
                break
        elif ytol is not None:
            if err1 < ytol:
                break
        if err1 >= err0 and require_progress:
            raise ValueError('Fixed point is not making progress, cannot proceed')
        err0 = err1
        if (iteration - 1) % acc_frequency == 0:
            x1, x2, x3 = (all_guesses[-2], all_guesses[-3], all_guesses[-4])
            dx = gdem(x, x1, x2, x3, acc_max_change_ratio)
            x = [xi + dxi * acc_damping for xi, dxi in zip(x, dx)]
        else:
            x = [xi - fi * damping for xi, fi in zip(x, fcur)]
    if xtol is not None and norm2(fcur) > xtol:
        raise UnconvergedError('Failed to converge')
    if ytol is not None:
        err0 = 0.0
        for v in fcur:
            err0 += abs(v)
        if err0 > ytol:
            raise UnconvergedError('Failed to converge')
    return (x, iteration)

def compute_accelerated_step(residuals, x_hist, gx_hist, reg: float=1e-08, mixing_param: float=1.0):
    RR = matrix_multiply(residuals, transpose(residuals))
    N = len(RR)
    for i in range(N):
        RR[i][i] += reg
    try:
        RR_inv = inv(RR)
        alpha = sum_matrix_rows(RR_inv)
    except:
        ones = [1.0] * len(residuals)
        alpha = gelsd(RR, ones)[0]
    alpha_sum = sum(alpha)
    if alpha_sum == 0:
        raise ValueError('Sum of alpha coefficients is zero')
    elif alpha_sum < 0:
        alpha = [-a for a in alpha]
        alpha_sum = -alpha_sum
    alpha = [a / alpha_sum for a in alpha]
    dim = len(x_hist[0])
    x_acc = [0.0] * dim
    for a, x, gx in zip(alpha, x_hist, gx_hist):
        for i in range(dim):
            x_acc[i] += (1 - mixing_param) * a * x[i] + mixing_param * a * gx[i]
    return x_acc

def anderson_step(x_hist, gx_hist, residuals_hist, x, window_size: int, reg: float=1e-08, mixing_param: float=1.0):
    if not x_hist:
        return (x, [x], [], [])
    x_prev = x_hist[-1]
    residual = [xi - xp for xi, xp in zip(x, x_prev)]
    new_residuals_hist = residuals_hist + [residual]
    new_gx_hist = gx_hist + [x]
    if len(new_residuals_hist) > window_size + 1:
        new_residuals_hist = new_residuals_hist[1:]
        new_gx_hist = new_gx_hist[1:]
    x_acc = compute_accelerated_step(new_residuals_hist, x_hist, new_gx_hist, reg, mixing_param)
    new_x_hist = x_hist + [x_acc]
    if len(new_x_hist) > window_size + 1:
        new_x_hist = new_x_hist[1:]
    return (x_acc, new_x_hist, new_gx_hist, new_residuals_hist)

def fixed_point_anderson(f, x0, xtol: float=1e-07, ytol: float | None=None, maxiter: int=100, args: tuple=(), require_progress: bool=False, check_numbers: bool=False, window_size: int=5, reg: float=1e-08, mixing_param: float=1.0, initial_iterations: int=4, damping: float=0.9, acc_damping: float=1, max_step_size: float=10000, phase_in_steps: int=3):
    x_hist = []
    gx_hist = []
    residuals_hist = []
    x = x0
    fcur = f(x, *args)
    if len(fcur) < window_size:
        window_size = len(fcur)
    err0 = sum((abs(v) for v in fcur)) if ytol is not None else 0.0
    if ytol is not None and xtol is None and (err0 < ytol):
        return (x0, 0)
    for iteration in range(maxiter):
        x_new = f(x, *args)
        if check_numbers and any((isnan(v) or isinf(v) for v in x_new)):
            raise ValueError('Cannot continue - math error in function value')
        if iteration < initial_iterations:
            x_acc = [(1 - damping) * x[i] + damping * x_new[i] for i in range(len(x))]
            if iteration > 0:
                residual = [xi - xp for xi, xp in zip(x_new, x)]
                residuals_hist.append(residual)
                gx_hist.append(x_new)
                x_hist.append(x_acc)
                if len(residuals_hist) > window_size:
                    residuals_hist = residuals_hist[1:]
                    gx_hist = gx_hist[1:]
                    x_hist = x_hist[1:]
        else:
            x_acc_raw, x_hist, gx_hist, residuals_hist = anderson_step(x_hist, gx_hist, residuals_hist, x_new, window_size, reg, mixing_param)
            phase = min(1.0, (iteration - initial_iterations + 1) / phase_in_steps)
            x_acc_damped = []
            for i in range(len(x)):
                fp_step = (1 - damping) * x[i] + damping * x_new[i]
                acc_step = (1 - acc_damping) * x[i] + acc_damping * x_acc_raw[i]
                x_acc_i = (1 - phase) * fp_step + phase * acc_step
                max_change = abs(x[i] * (1.0 - max_step_size))
                change = x_acc_i - x[i]
                if abs(change) > max_change:
                    x_acc_i = x[i] + max_change * (1 if change > 0 else -1)
                x_acc_damped.append(x_acc_i)
            x_acc = x_acc_damped
            x_hist[-1] = x_acc
        err1 = sum((abs(v) for v in fcur)) if ytol is not None else 0.0
        if require_progress and ytol is not None and (err1 >= err0):
            raise ValueError('Fixed point is not making progress')
        err0 = err1 if ytol is not None else 0.0
        if xtol is not None:
            x_err = max((abs((a - b) / abs(b)) for a, b in zip(x_acc, x)))
            if x_err < xtol and (ytol is None or err1 < ytol):
                return (x_acc, iteration)
        elif ytol is not None and err1 < ytol:
            return (x_acc, iteration)
        x = x_acc
    if xtol is not None and x_err > xtol:
        raise ValueError(f'Failed to converge after {maxiter} iterations. Error: {x_err}')
    if ytol is not None and err1 > ytol:
        raise ValueError(f'Failed to converge after {maxiter} iterations. Error: {err1}')
    return (x, iteration)

def fixed_point_anderson_residual(f, x0, xtol: float=1e-07, ytol: float | None=None, maxiter: int=100, args: tuple=(), require_progress: bool=False, check_numbers: bool=False, window_size: int=5, reg: float=1e-08, initial_iterations: int=1000, damping: float=0.3, acc_damping: float=1):
    x_hist = []
    gx_hist = []
    residuals_hist = []
    x = x0
    fcur = f(x, *args)
    if len(fcur) < window_size:
        window_size = len(fcur)
    err0 = sum((abs(v) for v in fcur))
    if ytol is not None and xtol is None and (err0 < ytol):
        return (x0, 0)
    for iteration in range(maxiter):
        fcur = f(x, *args)
        if check_numbers and any((isnan(v) or isinf(v) for v in fcur)):
            raise ValueError('Cannot continue - math error in function value')
        if iteration < initial_iterations:
            x_step = [-fi * damping for fi in fcur]
            x_new = [xi + si for xi, si in zip(x, x_step)]
            if iteration > 0:
                full_step = [-fi for fi in fcur]
                residuals_hist.append(fcur)
                gx_hist.append(full_step)
                x_hist.append(x)
                if len(residuals_hist) > window_size:
                    residuals_hist = residuals_hist[1:]
                    gx_hist = gx_hist[1:]
                    x_hist = x_hist[1:]
        else:
            x_step = [-fi for fi in fcur]
            residuals_hist.append(fcur)
            gx_hist.append(x_step)
            x_hist.append(x)
            if len(residuals_hist) > window_size:
                residuals_hist = residuals_hist[1:]
                gx_hist = gx_hist[1:]
                x_hist = x_hist[1:]
            RR = matrix_multiply(residuals_hist, transpose(residuals_hist))
            N = len(RR)
            for i in range(N):
                RR[i][i] += reg
            try:
                RR_inv = inv(RR)
                alpha = sum_matrix_rows(RR_inv)
            except:
                ones = [1.0] * len(residuals_hist)
                alpha = gelsd(RR, ones)[0]
            alpha_sum = sum(alpha)
            if alpha_sum == 0:
                raise ValueError('Sum of alpha coefficients is zero')
            alpha = [a / alpha_sum for a in alpha]
            acc_step = [0.0] * len(x)
            for a, step in zip(alpha, gx_hist):
                for i in range(len(x)):
                    acc_step[i] += a * step[i]
            x_new = [xi + si * acc_damping for xi, si in zip(x, acc_step)]
        err1 = sum((abs(v) for v in fcur))
        if require_progress and err1 >= err0:
            raise ValueError('Not making progress')
        err0 = err1
        if xtol is not None:
            if err1 < xtol and (ytol is None or err1 < ytol):
                return (x_new, iteration)
        elif ytol is not None and err1 < ytol:
            return (x_new, iteration)
        x = x_new
    if xtol is not None and err1 > xtol:
        raise ValueError(f'Failed to converge after {maxiter} iterations')
    if ytol is not None and err1 > ytol:
        raise ValueError(f'Failed to converge after {maxiter} iterations')
    return (x, iteration)

def normalize(values):
    tot_inv = 1.0 / sum(values)
    return [i * tot_inv for i in values]

def func_35_splev(arg, t, l, l1, k2, nk1):
    if arg >= t[l - 1] or l1 == k2:
        arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
        return (arg, t, l, l1, k2, nk1)
    l1 = l
    l = l - 1
    arg, t, l, l1, k2, nk1 = func_35_splev(arg, t, l, l1, k2, nk1)
    return (arg, t, l, l1, k2, nk1)

def func_40_splev(arg, t, l, l1, nk1):
    if arg < t[l1 - 1] or l == nk1:
        return (arg, t, l, l1, nk1, 1)
    l = l1
    l1 = l + 1
    arg, t, l, l1, nk1, leave = func_40_splev(arg, t, l, l1, nk1)
    return (arg, t, l, l1, nk1, leave)

def py_splev(x, tck, ext=0, t=None, c=None, k=None):
    e = ext
    if tck is not None:
        t, c, k = tck
    n = len(t)
    k1 = k + 1
    k2 = k1 + 1
    nk1 = n - k1
    tb = t[k1 - 1]
    te = t[nk1]
    l = k1
    l1 = l + 1
    arg = x
    if arg < tb or arg > te:
        if e == 0:
            arg, t, l, l1, k2, nk1 = func_35_splev(arg, t, l, l1, k2, nk1)
        elif e == 1:
            return 0.0
        elif e == 2:
            raise ValueError('X value not in domain; set `ext` to 0 to extrapolate')
        elif e == 3:
            if arg < tb:
                arg = tb
            else:
                arg = te
            arg, t, l, l1, k2, nk1 = func_35_splev(arg, t, l, l1, k2, nk1)
    else:
        arg, t, l, l1, k2, nk1 = func_35_splev(arg, t, l, l1, k2, nk1)
    h = [0.0] * (k + 1)
    hh = [0.0] * k
    fpbspl(t, n, k, arg, l, h, hh)
    sp = 0.0
    ll = l - k1
    for j in range(k1):
        ll = ll + 1
        sp = sp + c[ll - 1] * h[j]
    return sp

def py_bisplev(x, y, tck):
    tx, ty, c, kx, ky = tck
    return bispev_inner(tx, ty, c, kx, ky, x, y)

def fpbspl(t, n, k, x, l, h, hh):
    h[0] = 1.0
    for j in range(1, k + 1):
        hh[0:j] = h[0:j]
        h[0] = 0.0
        for i in range(j):
            li = l + i
            f = hh[i] / (t[li] - t[li - j])
            h[i] = h[i] + f * (t[li] - x)
            h[i + 1] = f * (x - t[li - j])

def init_w(t, k, x):
    w = [0.0] * (k + 1)
    tb = t[k]
    n = len(t)
    h = [0] * 6
    hh = [0] * 5
    te = t[n - k - 1]
    l1 = k + 1
    l2 = l1 + 1
    arg = x
    if arg < tb:
        arg = tb
    if arg > te:
        arg = te
    while not (arg < t[l1] or l1 == n - k - 1):
        l1 = l2
        l2 = l1 + 1
    fpbspl(t, n, k, arg, l1, h, hh)
    lx = l1 - k - 1
    for j in range(k + 1):
        w[j] = h[j]
    return (lx, w)

def bispev_inner(tx, ty, c, kx, ky, x, y):
    kx1 = kx + 1
    ky1 = ky + 1
    nky1 = len(ty) - ky1
    lx, wx = init_w(tx, kx, x)
    ly, wy = init_w(ty, ky, y)
    sp = 0.0
    err = 0.0
    for i1 in range(kx1):
        for j1 in range(ky1):
            l2 = lx * nky1 + ly + i1 * nky1 + j1
            a = c[l2] * wx[i1] * wy[j1] - err
            tmp = sp + a
            err = tmp - sp - a
            sp = tmp
    return sp
p_0_70 = array_if_needed([0.06184590404457956, -0.7460693871557973, 2.2435704485433376, -2.1944070385048526, 0.3382265629285811, 0.2791966558569478])
q_0_07 = array_if_needed([-0.005308735283483908, 0.1823421262956287, -1.2364596896290079, 2.9897802200092296, -2.9365321202088004, 1.0])
p_07_099 = array_if_needed([7543860.817140365, -10254250.429758755, -4186383.973408412, 7724476.972409749, -3130743.609030545, 600806.068543299, -62981.15051292659, 3696.7937385473397, -114.06795167646395, 1.4406337969700391])
q_07_099 = array_if_needed([-1262997.3422452002, 10684514.56076485, -16931658.916668657, 10275996.02842749, -3079141.9506451315, 511164.4690136096, -49254.56172495263, 2738.0399260270983, -81.36790509581284, 1.0])
p_099_1 = array_if_needed([8.548256176424551e+34, 1.8485781239087334e+35, -2.1706889553798647e+34, 8.318563643438321e+32, -1.559802348661511e+31, 1.698939241177209e+29, -1.180285031647229e+27, 5.531049937687143e+24, -1.8085903366375877e+22, 4.203276811951035e+19, -6.98211620300421e+16, 82281997048841.92, -67157299796.61345, 36084814.54808544, -11478.108105137717, 1.6370226052761176])
q_099_1 = array_if_needed([-1.9763570499484274e+35, 1.4813997374958851e+35, -1.4773854824041134e+34, 5.38853721252814e+32, -9.882387315028929e+30, 1.0635231532999732e+29, -7.334629044071992e+26, 3.420655574477631e+24, -1.1147787784365177e+22, 2.584530363912858e+19, -4.285376337404043e+16, 50430830490687.56, -41115254924.43107, 22072284.971253656, -7015.799744041691, 1.0])

def polylog2(x):
    if 0 <= x <= 0.7:
        p = p_0_70
        q = q_0_07
        offset = 0.26
    elif 0.7 < x <= 0.99:
        p = p_07_099
        q = q_07_099
        offset = 0.95
    elif 0.99 < x <= 1:
        p = p_099_1
        q = q_099_1
        offset = 0.999
    else:
        raise ValueError('Approximation is valid between 0 and 1 only.')
    x = x - offset
    return horner(p, x) / horner(q, x)

def max_abs_error(data, calc):
    max_err = 0.0
    N = len(data)
    for i in range(N):
        diff = abs(data[i] - calc[i])
        if diff > max_err:
            max_err = diff
    return max_err

def max_abs_rel_error(data, calc, max_val=1000.0):
    max_err = 0.0
    N = len(data)
    for i in range(N):
        if data[i] == 0.0:
            if calc[i] == 0.0:
                diff = 0.0
            else:
                diff = max_val
        else:
            diff = abs((data[i] - calc[i]) / data[i])
            if diff > max_val:
                diff = max_val
        if diff > max_err:
            max_err = diff
    return max_err

def max_squared_error(data, calc):
    max_err = 0.0
    N = len(data)
    for i in range(N):
        diff = abs(data[i] - calc[i])
        diff *= diff
        if diff > max_err:
            max_err = diff
    return max_err

def max_squared_rel_error(data, calc):
    max_err = 0.0
    N = len(data)
    for i in range(N):
        diff = abs((data[i] - calc[i]) / data[i])
        diff *= diff
        if diff > max_err:
            max_err = diff
    return max_err

def mean_abs_error(data, calc):
    mean_err = 0.0
    N = len(data)
    for i in range(N):
        mean_err += abs(data[i] - calc[i])
    return mean_err / N

def mean_abs_rel_error(data, calc):
    mean_err = 0.0
    N = len(data)
    for i in range(N):
        if data[i] == 0.0:
            if calc[i] == 0.0:
                pass
            else:
                mean_err += 1.0
        else:
            mean_err += abs((data[i] - calc[i]) / data[i])
    return mean_err / N

def mean_squared_error(data, calc):
    mean_err = 0.0
    N = len(data)
    for i in range(N):
        err = abs(data[i] - calc[i])
        mean_err += err * err
    return mean_err / N

def mean_squared_rel_error(data, calc):
    mean_err = 0.0
    N = len(data)
    for i in range(N):
        err = abs((data[i] - calc[i]) / data[i])
        mean_err += err * err
    return mean_err / N
sp_root = None

def root(*args, **kwargs):
    global sp_root
    if sp_root is None:
        from scipy.optimize import root as sp_root
    return sp_root(*args, **kwargs)
sp_minimize = None

def minimize(*args, **kwargs):
    global sp_minimize
    if sp_minimize is None:
        from scipy.optimize import minimize as sp_minimize
    return sp_minimize(*args, **kwargs)
sp_fsolve = None

def fsolve(*args, **kwargs):
    global sp_fsolve
    if sp_fsolve is None:
        from scipy.optimize import fsolve as sp_fsolve
    return sp_fsolve(*args, **kwargs)
sp_curve_fit = None

def curve_fit(*args, **kwargs):
    global sp_curve_fit
    if sp_curve_fit is None:
        from scipy.optimize import curve_fit as sp_curve_fit
    return sp_curve_fit(*args, **kwargs)
sp_leastsq = None

def leastsq(*args, **kwargs):
    global sp_leastsq
    if sp_leastsq is None:
        from scipy.optimize import leastsq as sp_leastsq
    return sp_leastsq(*args, **kwargs)
sp_differential_evolution = None

def differential_evolution(*args, **kwargs):
    global sp_differential_evolution
    if sp_differential_evolution is None:
        from scipy.optimize import differential_evolution as sp_differential_evolution
    return sp_differential_evolution(*args, **kwargs)
sp_lmder = None

def lmder(*args, **kwargs):
    global sp_lmder
    if sp_lmder is None:
        from scipy.optimize._minpack import _lmder as sp_lmder
    return sp_lmder(*args, **kwargs)
sp_lmfit = None

def lmfit(*args, **kwargs):
    global sp_lmfit
    if sp_lmfit is None:
        from scipy.optimize._minpack import _lmfit as sp_lmfit
    return sp_lmfit(*args, **kwargs)

def fixed_quad_Gauss_Kronrod(f, a, b, k_points, k_weights, l_weights, args):
    val_gauss_kronrod = val_gauss_legendre = 0.0
    diff = b - a
    fact = 0.5 * diff
    N = len(k_points)
    k = 0
    for i in range(N):
        x0 = 0.5 * (1.0 - k_points[i])
        x1 = 0.5 * (1.0 + k_points[i])
        x = a * x0 + b * x1
        y = f(x, *args)
        val_gauss_kronrod += fact * y * k_weights[i]
        if i % 2:
            val_gauss_legendre += fact * y * l_weights[k]
            k += 1
    return (val_gauss_kronrod, val_gauss_kronrod - val_gauss_legendre)

def quad_adaptive(f, a, b, args=(), kronrod_points=array_if_needed(kronrod_points[10]), kronrod_weights=array_if_needed(kronrod_weights[10]), legendre_weights=array_if_needed(legendre_weights[10]), epsrel=1.49e-08, epsabs=1.49e-08, depth=0, points=None):
    area, err_abs = fixed_quad_Gauss_Kronrod(f, a, b, kronrod_points, kronrod_weights, legendre_weights, args)
    if (abs(err_abs) < epsabs or (area == 0.0 or abs(err_abs / area) < epsrel)) or depth > 6:
        return (area, err_abs)
    mid = a + (b - a) * 0.5
    area_A, err_abs_A = quad_adaptive(f, a, mid, args, kronrod_points, kronrod_weights, legendre_weights, epsrel=epsrel, epsabs=epsabs * 0.5, depth=depth + 1)
    area_B, err_abs_B = quad_adaptive(f, mid, b, args, kronrod_points, kronrod_weights, legendre_weights, epsrel=epsrel, epsabs=epsabs * 0.5, depth=depth + 1)
    return (area_A + area_B, abs(err_abs_A) + abs(err_abs_B))
sp_quad = None

def lazy_quad(f, a, b, args=(), epsrel=1.49e-08, epsabs=1.49e-08, **kwargs):
    global sp_quad
    if not IS_PYPY:
        if sp_quad is None:
            from scipy.integrate import quad as sp_quad
        return sp_quad(f, a, b, args, epsrel=epsrel, epsabs=epsabs, **kwargs)
    else:
        return quad_adaptive(f, a, b, args=args, epsrel=epsrel, epsabs=epsabs)

def _call_nquad(x, func, range_funcs, epsrel, epsabs, *args):
    return nquad(func, range_funcs, args=(x,) + args, epsrel=epsrel, epsabs=epsabs)[0]

def nquad(func, ranges, args=(), epsrel=1.48e-08, epsabs=1.48e-08):
    my_low, my_high = ranges[-1](*args)
    if len(ranges) == 1:
        return quad_adaptive(func, my_low, my_high, args=args, epsrel=epsrel, epsabs=epsabs)
    return quad_adaptive(_call_nquad, my_low, my_high, args=(func, ranges[:-1], epsrel, epsabs) + args, epsrel=epsrel, epsabs=epsabs)

def dblquad(func, a, b, hfun, gfun, args=(), epsrel=1.48e-12, epsabs=1.48e-15):

    def inner_func(y, *args):
        full_args = (y,) + args
        quad_fluids = quad_adaptive(func, hfun(y, *args), gfun(y, *args), args=full_args, epsrel=epsrel, epsabs=epsabs)[0]
        return quad_fluids
    return quad_adaptive(inner_func, a, b, args=args, epsrel=epsrel, epsabs=epsabs)
if IS_PYPY:
    quad = quad_adaptive
else:
    quad = lazy_quad

def bounds_clip_naive(x, low, high):
    N = len(x)
    if low is not None:
        for i in range(N):
            if x[i] < low[i]:
                x[i] = low[i]
    if high is not None:
        for i in range(N):
            if x[i] > high[i]:
                x[i] = high[i]
    return x

def sort_nelder_mead_points_numba(sim, fsim):
    ind = np.argsort(fsim)
    sim = sim[ind, :]
    fsim = fsim[ind]
    return (sim, fsim)

def sort_nelder_mead_points_python(sim, fsim):
    sim = [x for _, x in sorted(zip(fsim, sim))]
    fsim = sorted(fsim)
    return (sim, fsim)

def nelder_mead(func, x0, args=(), xtol=0.0001, ftol=0.0001, maxiter=100, maxfun=None, initial_simplex=None, adaptive=False, initial_perturbation=0.05, initial_zero_perturbation=0.00025, low=None, high=None):
    N = len(x0)
    has_bounds = low is not None or high is not None
    if adaptive:
        dim = float(N)
        rho = 1.0
        chi = 1.0 + 2.0 / dim
        psi = 0.75 - 1.0 / (2.0 * dim)
        sigma = 1.0 - 1.0 / dim
    else:
        rho = 1.0
        chi = 2.0
        psi = 0.5
        sigma = 0.5
    rhop1 = 1.0 + rho
    rhochip1 = rho * chi + 1.0
    rhopsip1 = rho * psi + 1.0
    rhochi = rho * chi
    rhopsi = rho * psi
    onempsi = 1.0 - psi
    sort_fun = sort_nelder_mead_points_python
    sim = [x0.copy() for _ in range(N + 1)]
    if initial_simplex is None:
        for k in range(N):
            if x0[k] != 0:
                sim[k + 1][k] = (1.0 + initial_perturbation) * x0[k]
            else:
                sim[k + 1][k] = initial_zero_perturbation
    else:
        sim = [x.copy() for x in initial_simplex]
    fsim = [x0 for _ in range(N + 1)]
    for k in range(N + 1):
        fsim[k] = func(sim[k], *args)
    sim, fsim = sort_fun(sim, fsim)
    iterations = 0
    one_N = 1.0 / N
    while iterations < maxiter:
        errcheck1 = 0
        sim0 = sim[0]
        for i in range(1, N + 1):
            asim = sim[i]
            for j in range(N):
                a_xdiff = abs(sim0[j] - asim[j])
                if a_xdiff > errcheck1:
                    errcheck1 = a_xdiff
        current_fdiff = 0.0
        current_best = fsim[0]
        for i in range(1, N + 1):
            a_fdiff = abs(current_best - fsim[i])
            if a_fdiff > current_fdiff:
                current_fdiff = a_fdiff
        if errcheck1 <= xtol and current_fdiff <= ftol:
            break
        sim_last = sim[-1]
        xbar = [0.0] * N
        for j in range(N):
            xbarval = 0.0
            simj = sim[j]
            for i in range(N):
                xbar[i] += simj[i]
        for i in range(N):
            xbar[i] *= one_N
        xr = [rhop1 * xbar[i] - rho * sim_last[i] for i in range(N)]
        if has_bounds:
            xr = bounds_clip_naive(xr, low, high)
        fxr = func(xr, *args)
        if fxr < fsim[0]:
            xe = [rhochip1 * xbar[i] - rhochi * sim_last[i] for i in range(N)]
            if has_bounds:
                xe = bounds_clip_naive(xe, low, high)
            fxe = func(xe, *args)
            if fxe < fxr:
                sim[-1] = xe
                fsim[-1] = fxe
            else:
                sim[-1] = xr
                fsim[-1] = fxr
        elif fxr < fsim[-2]:
            sim[-1] = xr
            fsim[-1] = fxr
        elif fxr < fsim[-1]:
            xc = [rhopsip1 * xbar[i] - rhopsi * sim_last[i] for i in range(N)]
            if has_bounds:
                xc = bounds_clip_naive(xc, low, high)
            fxc = func(xc, *args)
            sim[-1] = xc
            fsim[-1] = fxc
        else:
            xcc = [onempsi * xbar[i] + psi * sim_last[i] for i in range(N)]
            if has_bounds:
                xcc = bounds_clip_naive(xcc, low, high)
            fxcc = func(xcc, *args)
            sim[-1] = xcc
            fsim[-1] = fxcc
        sim, fsim = sort_fun(sim, fsim)
        iterations += 1
    x = sim[0]
    fval = min(fsim)
    return (x, fval, iterations)

def fixed_point_to_residual(f_fixed_point):

    def residual_function(x, *args):
        fp_diff = f_fixed_point(x, *args)
        return [-diff for diff in fp_diff]
    return residual_function

def residual_to_fixed_point(f_residual):

    def fixed_point_function(x, *args):
        res = f_residual(x, *args)
        return [-r for r in res]
    return fixed_point_function
scipy_root_options = ('hybr', 'lm', 'broyden1', 'broyden2', 'anderson', 'linearmixing', 'diagbroyden', 'excitingmixing', 'krylov', 'df-sane')
scipy_root_options_set = frozenset(scipy_root_options)
python_solvers = ('newton_system', 'newton_system_line_search', 'newton_system_line_search_progress', 'newton_minimize', 'homotopy_solver', 'broyden2_python', 'fixed_point', 'fixed_point_aitken', 'fixed_point_gdem', 'fixed_point_anderson')
python_solvers_set = frozenset(python_solvers)
scipy_minimize_options = ('Nelder-Mead', 'Powell', 'CG', 'BFGS', 'Newton-CG', 'L-BFGS-B', 'TNC', 'COBYLA', 'SLSQP', 'trust-constr', 'trust-krylov', 'trust-ncg', 'dogleg', 'trust-exact')
scipy_requires_hessian_options = ('trust-krylov', 'trust-ncg', 'dogleg', 'trust-exact')
scipy_requires_hessian_options_set = frozenset(scipy_requires_hessian_options)
scipy_requires_jacobian_options = ('BFGS', 'Newton-CG', 'dogleg', 'trust-ncg', 'trust-krylov')
scipy_requires_jacobian_options_set = frozenset(scipy_requires_jacobian_options)
scipy_minimize_options_set = frozenset(scipy_minimize_options)
multivariate_solvers = python_solvers + scipy_root_options + scipy_minimize_options
jacobian_methods = ('python', 'numdifftools_forward', 'numdifftools_reverse', 'numdifftools_central', 'jacobi_forward', 'jacobi_central', 'jacobi_backward')
python_jacobians_set = frozenset(['python'])
hessian_methods = ('python',)
python_hessians_set = frozenset(hessian_methods)

class SolverInterface:
    __slots__ = ('damping', 'fval_iter', 'hess_fval_count', 'hess_iter', 'hessian_method', 'hessian_numpy', 'jac_fval_count', 'jac_iter', 'jacobian_method', 'jacobian_numpy', 'jacobian_order', 'jacobian_perturbation', 'jacobian_zero_offset', 'matrix_solver', 'maxiter', 'method', 'minimizing', 'objf', 'objf_numpy', 'objf_original', 'original_jac', 'scalar_objective', 'solver_analytical_jac', 'solver_numpy', 'xtol', 'ytol')

    def objf_counting(self, *args):
        self.fval_iter += 1
        return self.objf_original(*args)

    def objf_python_return_numpy(self, x, *args):
        self.fval_iter += 1
        return np.array(self.objf_original(x if type(x) is list else x.tolist(), *args))

    def objf_numpy_return_python(self, x, *args):
        self.fval_iter += 1
        return self.objf_original(np.array(x), *args).tolist()

    def objf_numpy_minimizing(self, x, *args):
        self.fval_iter += 1
        errs = self.objf_original(np.array(x), *args)
        tot = 0.0
        for v in errs:
            tot += v * v
        return float(tot)

    def objf_python_minimizing(self, x, *args):
        self.fval_iter += 1
        errs = self.objf_original(x if type(x) is list else x.tolist(), *args)
        tot = 0.0
        for v in errs:
            tot += v * v
        return tot

    def jac_minimizing(self, x, *args):
        fval = self.objf_original(x, *args)
        jval = self.original_jac(x, *args)
        N = len(fval)
        small_jac = [0.0] * N
        for i in range(N):
            temp = 0.0
            for j in range(N):
                temp += fval[j] * jval[j][i]
            small_jac[i] = 2.0 * temp
        return small_jac

    def jac_minimizing_numpy(self, x, *args):
        fval = self.objf_original(x, *args)
        jval = self.original_jac(x, *args)
        return 2.0 * np.dot(fval, jval)

    def objf_python_return_numpy_scalar(self, x, *args):
        self.fval_iter += 1
        return float(self.objf_original(x if type(x) is list else x.tolist(), *args))

    def objf_numpy_return_python_scalar(self, x, *args):
        self.fval_iter += 1
        return float(self.objf_original(np.array(x), *args))

    def __init__(self, method, objf, jac=None, xtol=1e-08, ytol=None, maxiter=100, damping=1.0, jacobian_method='python', jacobian_perturbation=1e-09, jacobian_zero_offset=1e-07, hessian_method='python', jacobian_order=1, objf_numpy=False, matrix_solver=py_solve, scalar_objective=False):
        self.method, self.objf_original, self.original_jac = (method, objf, jac)
        self.xtol, self.ytol, self.maxiter, self.damping = (xtol, ytol, maxiter, damping)
        self.jacobian_perturbation, self.jacobian_zero_offset, self.jacobian_method, self.jacobian_order, self.hessian_method = (jacobian_perturbation, jacobian_zero_offset, jacobian_method, jacobian_order, hessian_method)
        self.objf_numpy, self.matrix_solver = (objf_numpy, matrix_solver)
        if jacobian_method == 'analytical':
            self.jacobian_numpy = objf_numpy
        else:
            self.jacobian_numpy = jacobian_method not in python_jacobians_set
        if hessian_method == 'analytical':
            self.hessian_numpy = objf_numpy
        else:
            self.hessian_numpy = hessian_method not in python_hessians_set
        self.solver_numpy = solver_numpy = method not in python_solvers_set
        self.minimizing = False
        self.fval_iter = self.jac_iter = self.jac_fval_count = self.hess_iter = self.hess_fval_count = 0
        self.scalar_objective = scalar_objective
        if self.scalar_objective:
            if solver_numpy:
                if not objf_numpy:
                    self.objf = self.objf_python_return_numpy_scalar
                else:
                    self.objf = self.objf_counting
            elif objf_numpy:
                self.objf = self.objf_numpy_return_python_scalar
            else:
                self.objf = self.objf_counting
        else:
            if method in scipy_minimize_options_set:
                self.minimizing = True
                if jacobian_method == 'scipy' and method in scipy_requires_jacobian_options_set:
                    self.jacobian_method = 'python'
                self.objf = self.objf_numpy_minimizing if objf_numpy else self.objf_python_minimizing
            elif solver_numpy:
                if not objf_numpy:
                    self.objf = self.objf_python_return_numpy
                else:
                    self.objf = self.objf_counting
            elif objf_numpy:
                self.objf = self.objf_numpy_return_python
            else:
                self.objf = self.objf_counting
            if self.minimizing:
                if objf_numpy:
                    self.solver_analytical_jac = self.jac_minimizing_numpy
                else:
                    self.solver_analytical_jac = self.jac_minimizing
            else:
                self.solver_analytical_jac = self.original_jac

    def hessian(self, x, base=None, args=()):
        self.hess_iter += 1
        fval_iter, hessian_method, objf_numpy, hessian_numpy = (self.fval_iter, self.hessian_method, self.objf_numpy, self.hessian_numpy)
        return_numpy = type(x) is not list
        if self.scalar_objective:
            if not self.hessian_numpy:
                x = x if type(x) is list else x.tolist()
            else:
                x = np.array(x)
            if self.objf_numpy:
                objf = self.objf_counting if self.hessian_numpy else self.objf_numpy_return_python_scalar
            else:
                objf = self.objf_python_return_numpy if self.hessian_numpy else self.objf_counting
            h = hessian(objf, x, scalar=True, perturbation=self.jacobian_perturbation, zero_offset=self.jacobian_zero_offset, args=args)
        elif hessian_method == 'analytical':
            if objf_numpy and (not return_numpy):
                x = np.array(x)
            elif return_numpy and (not objf_numpy):
                x = x.tolist()
            raise NotImplementedError
            h = self.solver_analytical_hess(x, *args)
        else:
            if not hessian_numpy:
                x = x if type(x) is list else x.tolist()
            else:
                x = np.array(x)
            if self.minimizing:
                if objf_numpy:
                    objf = self.objf_numpy_minimizing
                else:
                    objf = self.objf_python_minimizing
            elif not hessian_numpy:
                if objf_numpy:
                    objf = self.objf_numpy_return_python
                else:
                    objf = self.objf_counting
            elif objf_numpy:
                objf = self.objf_counting
            else:
                objf = self.objf_python_return_numpy
            if hessian_method.startswith('numdifftools'):
                import numdifftools as nd
            if hessian_method == 'python':
                h = hessian(objf, x, scalar=self.minimizing, perturbation=0.0001, zero_offset=self.jacobian_zero_offset, args=args)
            elif hessian_method == 'numdifftools_forward':
                h = nd.Hessian(objf, method='forward')(x)
            elif hessian_method == 'numdifftools_reverse':
                h = nd.Hessian(objf, method='reverse')(x)
            elif hessian_method == 'numdifftools_central':
                h = nd.Hessian(objf, method='central')(x)
        self.hess_fval_count += self.fval_iter - fval_iter
        self.fval_iter = fval_iter
        if return_numpy:
            return np.array(h) if type(h) is list else h
        else:
            return h if type(h) is list else h.tolist()

    def jacobian(self, x, *args):
        self.jac_iter += 1
        fval_iter, jacobian_method, objf_numpy, jacobian_numpy = (self.fval_iter, self.jacobian_method, self.objf_numpy, self.jacobian_numpy)
        return_numpy = type(x) is not list
        if self.scalar_objective:
            if not self.jacobian_numpy:
                x = x if type(x) is list else x.tolist()
            else:
                x = np.array(x)
            if self.objf_numpy:
                objf = self.objf_counting if self.jacobian_numpy else self.objf_numpy_return_python_scalar
            else:
                objf = self.objf_python_return_numpy if self.jacobian_numpy else self.objf_counting
            j = jacobian(objf, x, scalar=True, perturbation=self.jacobian_perturbation, zero_offset=self.jacobian_zero_offset, args=args)
        elif jacobian_method == 'analytical':
            if objf_numpy and (not return_numpy):
                x = np.array(x)
            elif return_numpy and (not objf_numpy):
                x = x.tolist()
            j = self.solver_analytical_jac(x, *args)
        else:
            if not jacobian_numpy:
                x = x if type(x) is list else x.tolist()
            else:
                x = np.array(x)
            if self.minimizing:
                if objf_numpy:
                    objf = self.objf_numpy_minimizing
                else:
                    objf = self.objf_python_minimizing
            elif not jacobian_numpy:
                if objf_numpy:
                    objf = self.objf_numpy_return_python
                else:
                    objf = self.objf_counting
            elif objf_numpy:
                objf = self.objf_counting
            else:
                objf = self.objf_python_return_numpy
            if jacobian_method.startswith('numdifftools'):
                import numdifftools as nd
                numdifftools_func = nd.Gradient if self.minimizing else nd.Jacobian
                step = self.jacobian_perturbation * x
                step[np.where(step == 0)] = self.jacobian_zero_offset
            elif jacobian_method.startswith('jacobi'):
                from jacobi import jacobi
            if jacobian_method == 'python':
                j = jacobian(objf, x, scalar=self.minimizing, perturbation=self.jacobian_perturbation, zero_offset=self.jacobian_zero_offset, args=args)
            elif jacobian_method == 'numdifftools_forward':
                j = numdifftools_func(objf, method='forward', order=self.jacobian_order, step=step)(x)
            elif jacobian_method == 'numdifftools_reverse':
                j = numdifftools_func(objf, method='reverse', order=self.jacobian_order, step=step)(x)
            elif jacobian_method == 'numdifftools_central':
                j = numdifftools_func(objf, method='central', order=self.jacobian_order, step=step)(x)
            elif jacobian_method == 'jacobi_forward':
                j = jacobi(objf, x, method=1)[0]
            elif jacobian_method == 'jacobi_central':
                j = jacobi(objf, x, method=0)[0]
            elif jacobian_method == 'jacobi_backward':
                j = jacobi(objf, x, method=1)[0]
        self.jac_fval_count += self.fval_iter - fval_iter
        self.fval_iter = fval_iter
        if return_numpy:
            return np.array(j) if type(j) is list else j
        else:
            return j if type(j) is list else j.tolist()

    def solve(self, x0, args=()):
        self.fval_iter = self.jac_iter = self.jac_fval_count = self.hess_iter = self.hess_fval_count = 0
        return_numpy = type(x0) is not list
        if self.solver_numpy:
            x0 = np.array(x0)
        elif return_numpy:
            x0 = x0.tolist()
        process_root = False
        method = self.method
        if method == 'newton_system':
            sln, niter = newton_system(self.objf, x0, jac=self.jacobian, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping, solve_func=self.matrix_solver)
        elif method == 'newton_system_line_search':
            sln, niter = newton_system(self.objf, x0, jac=self.jacobian, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping, line_search=True, solve_func=self.matrix_solver, require_progress=False, check_numbers=True, Armijo=True)
        elif method == 'newton_system_line_search_progress':
            sln, niter = newton_system(self.objf, x0, jac=self.jacobian, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping, line_search=True, solve_func=self.matrix_solver, require_progress=True, check_numbers=True, Armijo=True)
        elif method == 'homotopy_solver':
            sln, niter = homotopy_solver(self.objf, x0, jac=self.jacobian, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping, line_search=True, solve_func=self.matrix_solver)
        elif method == 'broyden2_python':
            sln, niter = broyden2(x0, self.objf, self.jacobian, xtol=self.xtol, maxiter=self.maxiter, args=args)
        elif method == 'fixed_point':
            sln, niter = fixed_point(residual_to_fixed_point(self.objf), x0, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping)
        elif method == 'fixed_point_aitken':
            sln, niter = fixed_point_aitken(residual_to_fixed_point(self.objf), x0, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping)
        elif method == 'fixed_point_gdem':
            sln, niter = fixed_point_gdem(residual_to_fixed_point(self.objf), x0, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping)
        elif method == 'fixed_point_anderson':
            sln, niter = fixed_point_anderson_residual(residual_to_fixed_point(self.objf), x0, xtol=self.xtol, args=args, ytol=self.ytol, maxiter=self.maxiter, window_size=5, reg=1e-08, initial_iterations=5, acc_damping=0.3, damping=1.0)
        elif method in scipy_root_options_set:
            process_root = True
            jacobian_method = self.jacobian_method
            jac = self.jacobian if jacobian_method != 'scipy' else None
            result = root(self.objf, x0, args=args, method=method, jac=jac, tol=self.xtol)
        elif method in scipy_minimize_options_set:
            process_root = True
            jacobian_method = self.jacobian_method
            jac = self.jacobian if jacobian_method != 'scipy' else None
            hess = self.hessian if method in scipy_requires_hessian_options_set else None
            result = minimize(self.objf, x0, args=args, method=method, jac=jac, tol=self.xtol, hess=hess)
        elif method == 'newton_minimize':
            sln, niter = newton_minimize(self.objf, x0, jac=self.jacobian, hess=self.hessian, xtol=self.xtol, ytol=self.ytol, maxiter=self.maxiter, damping=self.damping, args=args)
        if process_root:
            sln = result.x
            if not return_numpy:
                sln = sln.tolist()
        elif return_numpy:
            sln = np.array(sln)
        return sln
fit_minimization_targets = {'MeanAbsErr': mean_abs_error, 'MeanRelErr': mean_abs_rel_error, 'MeanSquareErr': mean_squared_error, 'MeanSquareRelErr': mean_squared_rel_error, 'MaxAbsErr': max_abs_error, 'MaxRelErr': max_abs_rel_error, 'MaxSquareErr': max_squared_error, 'MaxSquareRelErr': max_squared_rel_error}
if not IS_PYPY:

    def splev(*args, **kwargs):
        from scipy.interpolate import splev
        return splev(*args, **kwargs)

    def bisplev(*args, **kwargs):
        from scipy.interpolate import bisplev
        return bisplev(*args, **kwargs)
else:
    splev, bisplev = (py_splev, py_bisplev)
has_scipy = False
if not SKIP_DEPENDENCIES and (not is_micropython):
    has_scipy = True
else:
    has_scipy = False
erf = None
try:
    from math import erf
except ImportError:
    pass

def _lambertw_err(x, y):
    return x * exp(x) - y

def _lambertw_log_err(x, log_y):
    return x + log(-x) - log_y

def py_lambertw(y, k=0):
    if k == 0:
        return brenth(_lambertw_err, -1.0, 700.0, (y,)) + 0j
    elif k == -1:
        return brenth(_lambertw_log_err, -800.0, -1.0, (log(-y),)) + 0j
    else:
        raise ValueError('Other branches not supported')
if IS_PYPY:
    lambertw = py_lambertw
if has_scipy:
    if not IS_PYPY:

        def lambertw(*args, **kwargs):
            from scipy.special import lambertw
            return lambertw(*args, **kwargs)

    def ellipe(m):
        from scipy.special import ellipe
        return ellipe(m)

    def gammaincc(*args, **kwargs):
        from scipy.special import gammaincc
        return gammaincc(*args, **kwargs)

    def i1(*args, **kwargs):
        from scipy.special import i1
        return i1(*args, **kwargs)

    def i0(*args, **kwargs):
        from scipy.special import i0
        return i0(*args, **kwargs)

    def k1(*args, **kwargs):
        from scipy.special import k1
        return k1(*args, **kwargs)

    def k0(*args, **kwargs):
        from scipy.special import k0
        return k0(*args, **kwargs)

    def iv(*args, **kwargs):
        from scipy.special import iv
        return iv(*args, **kwargs)

    def hyp2f1(*args, **kwargs):
        from scipy.special import hyp2f1
        return hyp2f1(*args, **kwargs)

    def ellipkinc(phi, m):
        from scipy.special import ellipkinc
        return ellipkinc(phi, m)

    def ellipeinc(phi, m):
        from scipy.special import ellipeinc
        return ellipeinc(phi, m)
    if erf is None:

        def erf(*args, **kwargs):
            from scipy.special import erf
            return erf(*args, **kwargs)
else:
    lambertw = py_lambertw
    if erf is None:

        def erf(*args, **kwargs):
            import mpmath
            return mpmath.erf(*args, **kwargs)

    def gammaincc(a, x):
        import mpmath
        return mpmath.gammainc(a, a=x, regularized=True)

    def ellipe(*args, **kwargs):
        import mpmath
        return mpmath.ellipe(*args, **kwargs)

    def gammaincc(a, x):
        import mpmath
        return mpmath.gammainc(a, a=x, regularized=True)

    def iv(*args, **kwargs):
        import mpmath
        return mpmath.besseli(*args, **kwargs)

    def hyp2f1(*args, **kwargs):
        import mpmath
        return mpmath.hyp2f1(*args, **kwargs)

    def iv(*args, **kwargs):
        import mpmath
        return mpmath.besseli(*args, **kwargs)

    def i1(x):
        import mpmath
        return mpmath.besseli(1, x)

    def i0(x):
        import mpmath
        return mpmath.besseli(0, x)

    def k1(x):
        import mpmath
        return mpmath.besselk(1, x)

    def k0(x):
        import mpmath
        return mpmath.besselk(0, x)

    def ellipkinc(phi, m):
        import mpmath
        return mpmath.ellipf(phi, m)

    def ellipeinc(phi, m):
        import mpmath
        return mpmath.ellipe(phi, m)
try:
    if FORCE_PYPY:
        lambertw = py_lambertw
        from scipy.special import ellipe, ellipeinc, ellipkinc, gamma, gammaincc, hyp2f1, i0, i1, iv, k0, k1
        if erf is None:
            from scipy.special import erf
except:
    pass
newton_generic = newton
secant_generic = secant
bisect_generic = bisect
brenth_generic = brenth
