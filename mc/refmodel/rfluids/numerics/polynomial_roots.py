from cmath import sqrt as csqrt
from math import acos, cos, sin, sqrt
__all__ = ['roots_cubic', 'roots_cubic_a1', 'roots_cubic_a2', 'roots_quadratic', 'roots_quartic']
third = 1.0 / 3.0
sixth = 1.0 / 6.0
ninth = 1.0 / 9.0
twelfth = 1.0 / 12.0
two_thirds = 2.0 / 3.0
four_thirds = 4.0 / 3.0
root_three = 1.7320508075688772
one_27 = 1.0 / 27.0
complex_factor = 0.8660254037844386j

def roots_quadratic(a, b, c):
    if a == 0.0:
        root = -c / b
        return (root, root)
    D = b * b - 4.0 * a * c
    a_inv_2 = 0.5 / a
    if D < 0.0:
        D = sqrt(-D)
        x1 = (-b + D * 1j) * a_inv_2
        x2 = (-b - D * 1j) * a_inv_2
    else:
        D = sqrt(D)
        x1 = (D - b) * a_inv_2
        x2 = -(b + D) * a_inv_2
    return (x1, x2)

def roots_quartic(a, b, c, d, e):
    x0 = 1.0 / a
    x1 = b * x0
    x2 = -x1 * 0.25
    x3 = c * x0
    x4 = b * b * x0 * x0
    x5 = -two_thirds * x3 + 0.25 * x4
    x6 = x3 - 0.375 * x4
    x6_2 = x6 * x6
    x7 = x6_2 * x6
    x8 = d * x0
    x9 = x1 * (-0.5 * x3 + 0.125 * x4)
    x10 = (x8 + x9) * (x8 + x9)
    x11 = e * x0
    x12 = x1 * (x1 * (-0.0625 * x3 + 0.01171875 * x4) + 0.25 * x8)
    x13 = x6 * (x11 - x12)
    x14 = -0.125 * x10 + x13 * third - x7 / 108.0
    x19 = -four_thirds * x3
    x20 = 0.5 * x4
    x22 = 2.0 * x8 + 2.0 * x9
    x25 = -x11 + x12 - twelfth * x6_2
    if x22 == 0.0:
        x26 = csqrt(0.25 * x6_2 - x11 + x12)
        x35 = csqrt(-0.5 * x6 - x26)
        x39 = csqrt(-0.5 * x6 + x26)
        return (x2 - x35, x2 + x35, x2 - x39, x2 + x39)
    x24 = 0.0625 * x10 - x13 * sixth + x7 / 216.0
    x26 = csqrt(0.25 * x14 * x14 + one_27 * x25 * x25 * x25)
    x27 = (x24 - x26 if abs(x24 + x26) < 1e-05 * abs(x24 - x26) else x24 + x26) ** third
    x28 = 2.0 * x27
    x29 = two_thirds * x25 / x27 if x27 != 0.0 else 0.0 * x27
    x30 = csqrt(x28 - x29 + x5)
    x31 = 0.5 * x30
    x32 = x2 - x31
    x33 = x19 + x20 - x28 + x29
    x34 = x22 / x30
    x35 = csqrt(x33 + x34) * 0.5
    x38 = x2 + x31
    x39 = csqrt(x33 - x34) * 0.5
    return (x32 - x35, x32 + x35, x38 - x39, x38 + x39)

def roots_cubic_a1(b, c, d):
    t1 = b * b
    t2 = t1 * b
    t4 = c * b
    t9 = c * c
    t16 = d * d
    t19 = csqrt(12.0 * t9 * c + 12.0 * t2 * d - 54.0 * t4 * d - 3.0 * t1 * t9 + 81.0 * t16)
    t20 = -8.0 * t2 + 36.0 * t4 - 108.0 * d
    t21 = 12.0 * t19
    if t20 == 0.0 and t21 == 0.0:
        root1 = -b * third + 0j
        return (root1, root1, root1)
    t22 = (t20 - t21 if abs(t20 + t21) < 1e-05 * abs(t20 - t21) else t20 + t21) ** third
    root1 = t22 * sixth - 6.0 * (c * third - t1 * ninth) / t22 - b * third
    t28 = (c * third - t1 * ninth) / t22
    t101 = -t22 * twelfth + 3.0 * t28 - b * third
    t102 = root_three * (t22 * sixth + 6.0 * t28)
    root2 = t101 + 0.5j * t102
    root3 = t101 - 0.5j * t102
    return (root1, root2, root3)

def roots_cubic_a2(a, b, c, d):
    t2 = a * a
    t3 = d * d
    t10 = c * c
    t14 = b * b
    t15 = t14 * b
    t20 = csqrt(-18.0 * a * b * c * d + 4.0 * a * t10 * c + 4.0 * t15 * d - t14 * t10 + 27.0 * t2 * t3)
    t21 = 36.0 * c * b * a - 108.0 * d * t2 - 8.0 * t15
    t22 = 12.0 * root_three * t20 * a
    t32 = 1.0 / a
    if t21 == 0.0 and t22 == 0.0:
        root1 = -b * t32 * third + 0j
        return (root1, root1, root1)
    t31 = (t21 - t22 if abs(t21 + t22) < 1e-05 * abs(t21 - t22) else t21 + t22) ** third
    root1 = t31 * t32 * sixth - two_thirds * (3.0 * a * c - t14) * t32 / t31 - b * t32 * third
    t33 = t31 * t32
    t40 = (3.0 * a * c - t14) * t32 / t31
    t50 = -t33 * twelfth + t40 * third - b * t32 * third
    t51 = 0.5j * root_three * (t33 * sixth + two_thirds * t40)
    root2 = t50 + t51
    root3 = t50 - t51
    return (root1, root2, root3)

def roots_cubic(a, b, c, d):
    """
    Notes
    -----
    Known issue is inputs that look like
    1, -0.999999999978168, 1.698247818501352e-11, -8.47396642608142e-17
    Errors grown unbound, starting when b is -.99999 and close to 1.
    """
    if a == 0.0:
        if b == 0.0:
            root = -d / c
            return (root, root, root)
        D = c * c - 4.0 * b * d
        b_inv_2 = 0.5 / b
        if D < 0.0:
            D = sqrt(-D)
            x1 = (-c + D * 1j) * b_inv_2
            x2 = (-c - D * 1j) * b_inv_2
        else:
            D = sqrt(D)
            x1 = (D - c) * b_inv_2
            x2 = -(c + D) * b_inv_2
        return (x1, x1, x2)
    a_inv = 1.0 / a
    a_inv2 = a_inv * a_inv
    bb = b * b
    'Herbie modifications for f:\n    c*a_inv - b_a*b_a*third\n    '
    b_a = b * a_inv
    b_a2 = b_a * b_a
    f = c * a_inv - b_a2 * third
    g = (2.0 * (bb * b) * a_inv2 * a_inv - 9.0 * b * c * a_inv2 + 27.0 * d * a_inv) * one_27
    h = 0.25 * (g * g) + f * f * f * one_27
    'h has no savings on precision - 0.4 error to 0.2.\n    '
    if h == 0.0 and g == 0.0 and (f == 0.0):
        if d / a >= 0.0:
            x = -(d * a_inv) ** third
        else:
            x = (-d * a_inv) ** third
        return (x, x, x)
    elif h > 0.0:
        root_h = sqrt(h)
        R = -0.5 * g + root_h
        if R >= 0.0:
            S = R ** third
        else:
            S = -(-R) ** third
        T = -(0.5 * g) - root_h
        if T >= 0.0:
            U = T ** third
        else:
            U = -(-T) ** third
        SU = S + U
        b_3a = b * (third * a_inv)
        t1 = -0.5 * SU - b_3a
        x1 = SU - b_3a
        t2 = (S - U) * complex_factor
        x2 = t1 + t2
        x3 = t1 - t2
    else:
        t2 = a * a
        t3 = d * d
        t10 = c * c
        t14 = b * b
        t15 = t14 * b
        'This method is inaccurate when choice_term is too small; but still\n        more accurate than the other method.\n        '
        choice_term = -18.0 * a * b * c * d + 4.0 * a * t10 * c + 4.0 * t15 * d - t14 * t10 + 27.0 * t2 * t3
        if abs(choice_term) > 1e-12 or abs(b + 1.0) < 1e-07:
            t32 = 1.0 / a
            t20 = csqrt(choice_term)
            t31 = (36.0 * c * b * a + 12.0 * root_three * t20 * a - 108.0 * d * t2 - 8.0 * t15) ** third
            t33 = t31 * t32
            t32_t31 = t32 / t31
            x1 = (t33 * sixth - two_thirds * (3.0 * a * c - t14) * t32_t31 - b * t32 * third).real
            t40 = (3.0 * a * c - t14) * t32_t31
            t50 = -t33 * twelfth + t40 * third - b * t32 * third
            t51 = 0.5j * root_three * (t33 * sixth + two_thirds * t40)
            x2 = (t50 + t51).real
            x3 = (t50 - t51).real
        else:
            i = sqrt(g * g * 0.25 - h)
            j = i ** third
            'Clamied nothing saved for k.\n            '
            k = acos(-0.5 * g / i)
            k_third = k * third
            M = cos(k_third)
            N = root_three * sin(k_third)
            P = -b_a * third
            x1 = 2.0 * j * M + P
            x2 = P - j * (M + N)
            x3 = P - j * (M - N)
    return (x1, x2, x3)
