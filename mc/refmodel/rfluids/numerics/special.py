from cmath import log as clog
from cmath import sqrt as csqrt
from math import asinh, atan2, copysign, exp, fabs, log, pi, sqrt
try:
    from math import log1p
except:
    log1p = log
try:
    from math import cbrt
except:

    def cbrt(x):
        return x ** (1.0 / 3.0)

def py_factorial(n):
    if n < 0:
        raise ValueError('Positive values only')
    factorial = 1
    for i in range(2, n + 1):
        factorial *= i
    return factorial
try:
    from math import factorial
except:
    factorial = py_factorial

def py_comb(n, k):
    if k < 0 or k > n:
        return 0
    return factorial(n) // (factorial(k) * factorial(n - k))
try:
    from math import comb
except:
    comb = py_comb
inf = float('inf')
__all__ = ['comb', 'factorial', 'py_cacos', 'py_catan', 'py_catanh', 'py_comb', 'py_factorial', 'py_hypot', 'trunc_exp', 'trunc_log']
DBL_MAX = 1.7976931348623157e+308
CM_LARGE_DOUBLE = DBL_MAX / 4.0
CM_SQRT_LARGE_DOUBLE = sqrt(CM_LARGE_DOUBLE)
DBL_MIN = 2.2250738585072014e-308
CM_SQRT_DBL_MIN = sqrt(DBL_MIN)

def py_hypot(x, y):
    x = fabs(x)
    y = fabs(y)
    if x < y:
        x, y = (y, x)
    if x == 0.0:
        return 0.0
    yx = y / x
    return x * sqrt(1.0 + yx * yx)

def py_cacos(z):
    s1 = csqrt(1.0 - z.real - z.imag * 1j)
    s2 = csqrt(1.0 + z.real + z.imag * 1j)
    r = 2.0 * atan2(s1.real, s2.real) + asinh(s2.real * s1.imag - s2.imag * s1.real) * 1j
    if z.imag == 0.0 and z.real > 1.0 and (r.imag < 0.0):
        return r.real - r.imag * 1j
    return r

def py_catan(x):
    return 0.5j * (clog(1.0 - 1j * x) - clog(1.0 + 1j * x))

def py_catanh(z):
    if z.real < 0.0:
        res = py_catanh(-z.real + z.imag * 1j)
        return -res.real + res.imag * 1j
    ay = fabs(z.imag)
    if z.real > CM_SQRT_LARGE_DOUBLE or ay > CM_SQRT_LARGE_DOUBLE:
        h = py_hypot(z.real / 2.0, z.imag / 2.0)
        real = z.real / 4.0 / h / h
        imag = -copysign(pi / 2.0, -z.imag)
    elif z.real == 1.0 and ay < CM_SQRT_DBL_MIN:
        if ay == 0.0:
            real = inf
            imag = z.imag
        else:
            real = -log(sqrt(ay) / sqrt(py_hypot(ay, 2.0)))
            imag = copysign(atan2(2.0, -ay) / 2, z.imag)
    else:
        real = log1p(4.0 * z.real / ((1 - z.real) * (1 - z.real) + ay * ay)) / 4.0
        imag = -atan2(-2.0 * z.imag, (1 - z.real) * (1 + z.real) - ay * ay) / 2.0
    return real + imag * 1j

def trunc_exp(x, trunc=1.7976931348622732e+308):
    try:
        return exp(x)
    except:
        return trunc

def trunc_log(x, trunc=-744.4400719213812):
    if x == 0.0:
        return trunc
    return log(x)
