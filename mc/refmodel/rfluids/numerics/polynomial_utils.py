from math import log, sqrt
__all__ = ['deflate_cubic_real_roots', 'exp_poly_ln_tau_coeffs2', 'exp_poly_ln_tau_coeffs3', 'poly_convert', 'polyder', 'polyint', 'polyint_over_x', 'polyint_over_x_stable', 'polyint_stable', 'polynomial_offset_scale', 'quadratic_from_points', 'stable_poly_to_unstable']
from rfluids.numerics.special import comb

def poly_add(p1, p2):
    max_len = max(len(p1), len(p2))
    result = [0.0] * max_len
    for i in range(max_len):
        coeff1 = p1[i] if i < len(p1) else 0.0
        coeff2 = p2[i] if i < len(p2) else 0.0
        result[i] = coeff1 + coeff2
    return result

def poly_mul(p1, p2):
    result = [0.0] * (len(p1) + len(p2) - 1)
    for i in range(len(p1)):
        for j in range(len(p2)):
            result[i + j] += p1[i] * p2[j]
    return result

def stable_poly_to_unstable(coeffs, low, high):
    if len(coeffs) == 0:
        return coeffs
    if high != low:
        a = 2.0 / (high - low)
        b = -(high + low) / (high - low)
        x_poly = [b, a]
        result = [coeffs[0]]
        for c in coeffs[1:]:
            result = poly_mul(result, x_poly)
            result = poly_add(result, [c])
        coeffs = result[::-1]
    for i in range(len(coeffs)):
        if coeffs[i] != 0.0:
            return coeffs[i:]
    return coeffs

def polyint_stable(coeffs, xmin, xmax):
    offset, scale = polynomial_offset_scale(xmin, xmax)
    scale = 1.0 / scale
    N = len(coeffs)
    out = [0.0] * (N + 1)
    for i in range(N):
        out[i] = scale * coeffs[i] / (N - i)
    return out

def polynomial_offset_scale(xmin, xmax):
    range_inv = 1.0 / (xmax - xmin)
    offset = (-xmax - xmin) * range_inv
    scale = 2.0 * range_inv
    return (offset, scale)

def polyint(coeffs):
    N = len(coeffs)
    out = [0.0] * (N + 1)
    for i in range(N):
        out[i] = coeffs[i] / (N - i)
    return out

def polyint_over_x(coeffs):
    N = len(coeffs)
    Nm1 = N - 1
    poly_terms = [0.0] * N
    for i in range(Nm1):
        poly_terms[i] = coeffs[i] / (Nm1 - i)
    if N:
        log_coef = coeffs[-1]
        return (poly_terms, log_coef)
    else:
        return (poly_terms, 0.0)

def polyder(c, m=1):
    cnt = m
    if cnt == 0:
        return c
    n = len(c)
    if cnt >= n:
        c = []
    else:
        der = [0.0] * n
        for i in range(cnt):
            n -= 1
            for j in range(n, 0, -1):
                der[j - 1] = j * c[j]
            c = der[0:n]
    return c

def quadratic_from_points(x0, x1, x2, f0, f1, f2):
    v0 = -x2
    v1 = f0 * (v0 + x1)
    v2 = f2 * (x0 - x1)
    v3 = f1 * (v0 + x0)
    v4 = x2 * x2
    v5 = x0 * x0
    v6 = x1 * x1
    v7 = 1.0 / (v4 * x0 + v5 * x1 + v6 * x2 - (v4 * x1 + v5 * x2 + v6 * x0))
    v8 = -v4
    a = v7 * (v1 + v2 - v3)
    b = -v7 * (f0 * (v6 + v8) - f1 * (v5 + v8) + f2 * (v5 - v6))
    c = v7 * (v1 * x1 * x2 + v2 * x0 * x1 - v3 * x0 * x2)
    return (a, b, c)

def quadratic_from_f_ders(x, v, d1, d2):
    a = d2 * 0.5
    b = d1 - d2 * x
    c = -d1 * x + d2 * x * x * 0.5 + v
    return (a, b, c)

def exp_poly_ln_tau_coeffs2(T, Tc, val, der):
    x0 = 1.0 / val
    x1 = T - Tc
    x2 = der * log(-x1 / Tc)
    c0 = der * x0 * x1
    c1 = x0 * (-T * x2 + Tc * x2 + val * log(val))
    return (c0, c1)

def exp_poly_ln_tau_coeffs3(T, Tc, val, der, der2):
    x0 = der * val
    x1 = Tc * x0
    x2 = T * x0
    x3 = der2 * val
    x4 = 2.0 * T * Tc
    x5 = x3 * x4
    x6 = T * T
    x7 = der * der
    x8 = x6 * x7
    x9 = Tc * Tc
    x10 = x7 * x9
    x11 = x4 * x7
    x12 = x3 * x6
    x13 = x3 * x9
    x14 = val * val
    x15 = 1.0 / x14
    x16 = x15 * 0.5
    x17 = log(-(T - Tc) / Tc)
    x18 = x1 * x17
    x19 = x17 * x2
    x20 = x17 * x17
    a = -x16 * (x1 + x10 - x11 - x12 - x13 - x2 + x5 + x8)
    b = x15 * (-x1 + x10 * x17 - x11 * x17 - x12 * x17 - x13 * x17 + x17 * x5 + x17 * x8 + x18 - x19 + x2)
    c = x16 * (-x1 * x20 - x10 * x20 + x11 * x20 + x12 * x20 + x13 * x20 + 2 * x14 * log(val) + 2.0 * x18 - 2.0 * x19 + x2 * x20 - x20 * x5 - x20 * x8)
    return (a, b, c)

def deflate_cubic_real_roots(b, c, d, x0):
    F = b + x0
    G = -d / x0
    D = F * F - 4.0 * G
    if D < 0.0:
        return (0.0, 0.0)
    D = sqrt(D)
    x1 = 0.5 * (D - F)
    x2 = 0.5 * (-F - D)
    return (x1, x2)

def polyint_over_x_stable_helper(coeffs, i, n, scale, offset, scale_powers, offset_powers):
    term = scale_powers[i]
    inner_term = 0.0
    for j in range(n):
        multiplier = comb(j, i)
        delta = multiplier * coeffs[-j - 1] * offset_powers[j - i]
        inner_term += delta
    return term * inner_term / i

def polyint_over_x_stable(coeffs, xmin, xmax):
    offset, scale = polynomial_offset_scale(xmin, xmax)
    n = len(coeffs)
    scale_iter = 1.0
    scale_powers = [scale_iter]
    for i in range(n):
        scale_iter *= scale
        scale_powers.append(scale_iter)
    offset_iter = 1.0
    offset_powers = [offset_iter]
    for i in range(n):
        offset_iter *= offset
        offset_powers.append(offset_iter)
    log_coeff = 0.0
    for i, coeff in enumerate(coeffs[::-1]):
        log_coeff += coeff * offset_powers[i]
    terms = [0.0]
    for i in range(1, n):
        term = polyint_over_x_stable_helper(coeffs, i, n, scale, offset, scale_powers, offset_powers)
        terms.append(term)
    terms.reverse()
    return (terms, log_coeff)

def poly_convert(coeffs, Tmin, Tmax):
    off = 0.5 * (Tmin + Tmax)
    scl = 0.5 * (Tmax - Tmin)
    degree_P = len(coeffs) - 1
    Q_coeffs = [0.0] * (degree_P + 1)
    off_powers = [1.0]
    scl_powers = [1.0]
    for _ in range(degree_P):
        off_powers.append(off_powers[-1] * off)
        scl_powers.append(scl_powers[-1] * scl)
    for i in range(len(coeffs)):
        coeff_i = coeffs[i]
        binom = 1.0
        for k in range(i + 1):
            term = coeff_i * binom * off_powers[i - k] * scl_powers[k]
            Q_coeffs[k] += term
            binom *= (i - k) / (k + 1.0)
    return Q_coeffs
