from __future__ import annotations
from cmath import sqrt as csqrt
from math import acos, acosh, asin, atan, cos, degrees, isclose, log, log1p, pi, radians, sin, sqrt, tan
from rfluids.numerics import brenth, cacos, catan, chebval, derivative, ellipe, ellipeinc, ellipkinc, linspace, newton, quad, secant, translate_bound_func
__all__: list[str] = ['TANK', 'A_cylinder', 'A_hollow_cylinder', 'A_multiple_hole_cylinder', 'A_partial_circle', 'AirCooledExchanger', 'HelicalCoil', 'HyperbolicCoolingTower', 'PlateExchanger', 'RectangularFinExchanger', 'RectangularOffsetStripFinExchanger', 'SA_conical_head', 'SA_ellipsoidal_head', 'SA_from_h', 'SA_guppy_head', 'SA_partial_cylindrical_body', 'SA_partial_horiz_conical_head', 'SA_partial_horiz_ellipsoidal_head', 'SA_partial_horiz_guppy_head', 'SA_partial_horiz_spherical_head', 'SA_partial_horiz_torispherical_head', 'SA_partial_sphere', 'SA_partial_vertical_conical_head', 'SA_partial_vertical_ellipsoidal_head', 'SA_partial_vertical_spherical_head', 'SA_partial_vertical_torispherical_head', 'SA_tank', 'SA_torispheroidal', 'V_cylinder', 'V_from_h', 'V_hollow_cylinder', 'V_horiz_conical', 'V_horiz_ellipsoidal', 'V_horiz_guppy', 'V_horiz_spherical', 'V_horiz_torispherical', 'V_multiple_hole_cylinder', 'V_partial_sphere', 'V_tank', 'V_vertical_conical', 'V_vertical_conical_concave', 'V_vertical_ellipsoidal', 'V_vertical_ellipsoidal_concave', 'V_vertical_spherical', 'V_vertical_spherical_concave', 'V_vertical_torispherical', 'V_vertical_torispherical_concave', 'a_torispherical', 'aspect_ratio', 'circle_segment_h_from_A', 'circularity', 'pitch_angle_solver', 'plate_enlargement_factor', 'sphericity']

def SA_partial_sphere(D: float, h: float) -> float:
    if h > D:
        h = D
    elif h < 0.0:
        h = 0.0
    r = D * 0.5
    a = sqrt(h * (2.0 * r - h))
    return pi * (a * a + h * h)

def V_partial_sphere(D: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    if h > D:
        h = D
    r = 0.5 * D
    a = sqrt(h * (2.0 * r - h))
    return 1 / 6.0 * pi * h * (3.0 * a * a + h * h)

def _acos_level(R: float, h: float) -> float:
    return acos(max(-1.0, min(1.0, (R - h) / R)))

def V_horiz_conical(D: float, L: float, a: float, h: float, headonly: bool=False) -> float:
    if h <= 0.0:
        return 0.0
    elif h > D:
        h = D
    R = 0.5 * D
    R_third = R * (1.0 / 3.0)
    t0 = max(-1.0, min(1.0, (R - h) / R))
    Af = R * R * acos(t0) - (R - h) * sqrt(h * (R + R - h))
    M = abs(t0)
    if h == R:
        Vf = a * R * R_third * pi
    else:
        K = acos(M) + M * M * M * acosh(1.0 / M) - 2.0 * M * sqrt(1.0 - M * M)
        if 0.0 <= h < R:
            Vf = 2.0 * a * R * R_third * K
        else:
            Vf = 2.0 * a * R * R_third * (pi - K)
    if headonly:
        Vf = 0.5 * Vf
    else:
        Vf += Af * L
    return Vf

def V_horiz_ellipsoidal(D: float, L: float, a: float, h: float, headonly: bool=False) -> float:
    if h <= 0.0:
        return 0.0
    elif h > D:
        h = D
    R = 0.5 * D
    Af = R * R * _acos_level(R, h) - (R - h) * sqrt(h * (R + R - h))
    Vf = pi * a * h * h * (1 - h / (3.0 * R))
    if headonly:
        Vf = 0.5 * Vf
    else:
        Vf += Af * L
    return Vf

def V_horiz_guppy(D: float, L: float, a: float, h: float, headonly: bool=False) -> float:
    if h <= 0.0:
        return 0.0
    elif h > D:
        h = D
    R = 0.5 * D
    x0 = sqrt(h * (R + R - h))
    Af = R * R * _acos_level(R, h) - (R - h) * x0
    Vf = 2.0 / 3.0 * a * R * R * _acos_level(R, h) + 2.0 / 9.0 * a / R * x0 * (2.0 * h - 3.0 * R) * (h + R)
    if headonly:
        Vf = Vf * 0.5
    else:
        Vf += Af * L
    return Vf

def _V_horiz_spherical_toint(x: float, R2: float, z_inv: float) -> float:
    s2 = max(R2 - x * x, 0.0)
    t2 = s2 * z_inv * z_inv
    return s2 * sqrt(s2) * z_inv * (2.0 / 3.0 - t2 * (2.0 / 15.0 - t2 * (2.0 / 35.0 - t2 * (2.0 / 63.0 - t2 * (2.0 / 99.0)))))

def V_horiz_spherical(D: float, L: float, a: float, h: float, headonly: bool=False) -> float:
    if h <= 0.0:
        return 0.0
    elif h > D:
        h = D
    R = 0.5 * D
    r = 0.5 * (a * a + R * R) / abs(a)
    w = R - h
    y = sqrt(h * (R + R - h))
    if isclose(r, R, rel_tol=2e-15):
        z = 0.0
    else:
        z = sqrt(r * r - R * R)
    Af = R * R * _acos_level(R, h) - (R - h) * sqrt(h * (R + R - h))
    if h == R and abs(a) <= R:
        Vf = pi / 6.0 * a * (3.0 * R * R + a * a)
    elif h == D and abs(a) <= R:
        Vf = pi / 3.0 * a * (3.0 * R * R + a * a)
    elif h == 0 or a in (0.0, R, -R) or z == 0.0:
        Vf = pi * a * h * h * (1.0 - h / R * (1.0 / 3.0))
    elif abs(a) >= 0.01 * D:
        R_r = R / r
        cos0 = max(-1.0, min(1.0, (R * R - r * w) / (R * (w - r))))
        cos1 = max(-1.0, min(1.0, (R * R + r * w) / (R * (w + r))))
        Vf = a / abs(a) * (2.0 / 3.0 * r * r * r * (acos(cos0) + acos(cos1) - z / r * (2.0 + R_r * R_r) * acos(w / R)) - 2.0 * (w * r * r - w * w * w * (1.0 / 3.0)) * atan(y / z) + 4.0 / 3.0 * w * y * z)
    else:
        integrated = quad(_V_horiz_spherical_toint, w, R, args=(R * R, 1.0 / z))[0]
        Vf = a / abs(a) * 2.0 * integrated
    if headonly:
        Vf = 0.5 * Vf
    else:
        Vf += Af * L
    return Vf

def V_horiz_torispherical_toint_1(x: float, w: float, c10: float, c11: float) -> float:
    n = c11 + sqrt(max(c10 - x * x, 0.0))
    n2 = n * n
    t = sqrt(max(n2 - w * w, 0.0))
    return n2 * asin(t / n) - w * t

def V_horiz_torispherical_toint_2(x: float, w: float, c10: float, c11: float, g: float, g2: float) -> float:
    n = c11 + sqrt(max(c10 - x * x, 0.0))
    n2 = n * n
    n_inv = 1.0 / n
    ans = n2 * (acos(max(min(w * n_inv, 1.0), -1.0)) - acos(min(g * n_inv, 1.0))) - w * sqrt(max(n2 - w * w, 0.0)) + g * sqrt(max(n2 - g2, 0.0))
    return ans

def V_horiz_torispherical_toint_3(x: float, r2: float, g2: float, z_inv: float) -> float:
    x2 = x * x
    return (r2 - x2) * atan(sqrt(max(g2 - x2, 0.0)) * z_inv)

def V_horiz_torispherical(D: float, L: float, f: float, k: float, h: float, headonly: bool=False) -> float:
    if h <= 0.0:
        return 0.0
    if h > D or isclose(h, D, rel_tol=2e-15):
        h = D
    if f is None or k is None:
        raise ValueError('Missing f or k')
    R = 0.5 * D
    R2 = R * R
    hh = h * h
    Af = R2 * _acos_level(R, h) - (R - h) * sqrt(h * (R + R - h))
    r = f * D
    alpha = asin((1.0 - 2.0 * k) / (2.0 * (f - k)))
    cos_alpha = cos(alpha)
    sin_alpha = sin(alpha)
    a1 = r * (1.0 - cos_alpha)
    g = r * sin_alpha
    z = r * cos_alpha
    h1 = k * D * (1.0 - sin_alpha)
    h2 = D - h1
    c10 = k * k * D * D
    c11 = R - k * D
    g2 = g * g
    r2 = r * r
    if 0.0 <= h <= h1:
        w = R - h
        Vf = 2.0 * quad(V_horiz_torispherical_toint_1, 0.0, sqrt(2.0 * k * D * h - hh), (w, c10, c11))[0]
    elif h1 < h < h2:
        w = R - h
        wmax1 = R - h1
        V1max = quad(V_horiz_torispherical_toint_1, 0.0, sqrt(2.0 * k * D * h1 - h1 * h1), (wmax1, c10, c11))[0]
        V2 = quad(V_horiz_torispherical_toint_2, 0.0, k * D * cos_alpha, (w, c10, c11, g, g2))[0]
        V3 = quad(V_horiz_torispherical_toint_3, w, g, (r2, g2, 1.0 / z))[0] - 0.5 * z * (g * g * acos(w / g) - w * sqrt(2.0 * g * (h - h1) - (h - h1) * (h - h1)))
        Vf = 2.0 * (V1max + V2 + V3)
    else:
        w = R - h
        wmax1 = R - h1
        wmax2 = R - h2
        wwerird = R - (D - h)
        upper_1 = sqrt(2.0 * k * D * h1 - h1 * h1)
        upper_2 = sqrt(2.0 * k * D * (D - h) - (D - h) * (D - h))
        upper_3 = k * D * cos_alpha
        V1max = quad(V_horiz_torispherical_toint_1, 0.0, upper_1, (wmax1, c10, c11))[0]
        if upper_2 != 0.0:
            V1weird = quad(V_horiz_torispherical_toint_1, 0.0, upper_2, (wwerird, c10, c11))[0]
        else:
            V1weird = 0.0
        V2max = quad(V_horiz_torispherical_toint_2, 0.0, upper_3, (wmax2, c10, c11, g, g2))[0]
        V3max = pi / 6.0 * a1 * (3.0 * g * g + a1 * a1)
        Vf = 2.0 * (2.0 * V1max - V1weird + V2max + V3max)
    if headonly:
        Vf = 0.5 * Vf
    else:
        Vf += Af * L
    return Vf

def V_vertical_conical(D: float, a: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    if h < a:
        ratio = D * h / a
        Vf = 0.25 * pi * ratio * ratio * (1.0 / 3.0) * h
    else:
        Vf = 0.25 * pi * D * D * (h - a * (2.0 / 3.0))
    return Vf

def V_vertical_ellipsoidal(D: float, a: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    if h < a:
        ratio = D * h / a
        Vf = 0.25 * pi * ratio * ratio * (a - h * (1.0 / 3.0))
    else:
        Vf = 0.25 * pi * D * D * (h - a * (1.0 / 3.0))
    return Vf

def V_vertical_spherical(D: float, a: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    if h < a:
        Vf = 0.25 * pi * h * h * (2.0 * a + 0.5 * D * D / a - 4 / 3.0 * h)
    else:
        Vf = 0.25 * pi * (2.0 / 3.0 * a * a * a - 0.5 * a * D * D + h * D * D)
    return Vf

def V_vertical_torispherical(D: float, f: float, k: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    if f is None or k is None:
        raise ValueError('f and k are required')
    alpha = asin((1.0 - 2.0 * k) / (2.0 * (f - k)))
    sin_alpha = sin(alpha)
    cos_alpha = cos(alpha)
    a1 = f * D * (1.0 - cos_alpha)
    a2 = k * D * cos_alpha
    D1 = 2.0 * f * D * sin_alpha
    x1 = k * D * sin_alpha
    s = x1 * x1
    t = a2 + a2
    u = h - f * D * (1.0 - cos_alpha)
    h2 = h * h
    if 0.0 <= h <= a1:
        Vf = 0.25 * pi * h2 * (a1 + a1 + 0.5 * D1 * D1 / a1 - 4.0 / 3.0 * h)
    elif a1 < h <= a1 + a2:
        x2 = 0.5 * D - k * D
        u2 = u * u
        Vf = 0.25 * pi * a1 * (2.0 / 3.0 * a1 * a1 + 0.5 * D1 * D1) + pi * u * (x2 * x2 + s) + pi * u2 * (0.5 * t - u * (1.0 / 3.0)) + pi * D * (1.0 - 2.0 * k) * (0.25 * (2.0 * u - t) * sqrt(s + t * u - u2) + 0.25 * t * sqrt(s) + 0.5 * k * k * D * D * (acos((t - 2.0 * u) / (2.0 * k * D)) - alpha))
    else:
        ratio = 0.5 * D - k * D
        Vf = 0.25 * pi * (2.0 / 3.0 * a1 * a1 * a1 + 0.5 * a1 * D1 * D1) + 0.5 * pi * t * (ratio * ratio + s) + pi * t * t * t * (1.0 / 12.0) + pi * D * (1.0 - 2.0 * k) * (0.25 * t * sqrt(s) + k * k * D * D * (1.0 / 2.0) * asin(cos(alpha))) + 0.25 * pi * D * D * (h - (a1 + a2))
    return Vf

def V_vertical_conical_concave(D: float, a: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    if h < abs(a):
        a_plus_h = a + h
        Vf = pi * D * D * (1.0 / 12.0) * (3.0 * h + a - a_plus_h * a_plus_h * a_plus_h / (a * a))
    else:
        Vf = pi * D * D * (1.0 / 12.0) * (3.0 * h + a)
    return Vf

def V_vertical_ellipsoidal_concave(D: float, a: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    if h < abs(a):
        a_plus_h = a + h
        Vf = pi * D * D * (1.0 / 12.0) * (3.0 * h + 2.0 * a - a_plus_h * a_plus_h * (2.0 * a - h) / (a * a))
    else:
        Vf = pi * D * D * (1.0 / 12.0) * (3.0 * h + 2.0 * a)
    return Vf

def V_vertical_spherical_concave(D: float, a: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    D2 = D * D
    a2 = a * a
    if h < abs(a):
        a_plus_h = a + h
        Vf = pi * (1.0 / 12) * (3.0 * D2 * h + a * (1.0 / 2.0) * (3.0 * D2 + 4.0 * a2) + a_plus_h * a_plus_h * a_plus_h * (4.0 - (3.0 * D2 + 12.0 * a2) / (2.0 * a * a_plus_h)))
    else:
        Vf = pi * (1.0 / 12) * (3.0 * D2 * h + a * (1.0 / 2.0) * (3.0 * D2 + 4.0 * a2))
    return Vf

def V_vertical_torispherical_concave(D: float, f: float, k: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    alpha = asin((1.0 - 2.0 * k) / (2.0 * (f - k)))
    cos_alpha = cos(alpha)
    sin_alpha = sin(alpha)
    a1 = f * D * (1 - cos_alpha)
    a2 = k * D * cos_alpha
    D1 = 2.0 * f * D * sin_alpha
    s = k * D * sin_alpha
    s *= s
    t = 2.0 * a2

    def V1(h):
        u = h - f * D * (1.0 - cos_alpha)
        ratio = 0.5 * D - k * D
        v1 = 0.25 * pi * (2.0 / 3.0 * a1 * a1 * a1 + 0.5 * a1 * D1 * D1) + pi * u * (ratio * ratio + s)
        v1 += u * u * (0.5 * pi * t - pi * (1.0 / 3.0) * u)
        v1 += pi * D * (1.0 - 2.0 * k) * ((2.0 * u - t) * 0.25 * sqrt(s + t * u - u * u) + 0.25 * t * sqrt(s) + k * k * D * D * 0.5 * (acos((t - 2.0 * u) / (2.0 * k * D)) - alpha))
        return v1

    def V2(h):
        v2 = 0.25 * pi * h * h * (2.0 * a1 + D1 * D1 / (2.0 * a1) - 4 / 3.0 * h)
        return v2
    if 0 <= h < a2:
        Vf = 0.25 * pi * D * D * h - V1(a1 + a2) + V1(a1 + a2 - h)
    elif a2 <= h < a1 + a2:
        Vf = 0.25 * pi * D * D * h - V1(a1 + a2) + V2(a1 + a2 - h)
    else:
        Vf = 0.25 * pi * D * D * h - V1(a1 + a2)
    return Vf

def SA_ellipsoidal_head(D: float, a: float) -> float:
    if D == a * 2.0:
        return 0.5 * pi * D * D
    R = 0.5 * D
    if a < R:
        R, a = (min((R, a)), max((R, a)))
        e1 = sqrt(1.0 - R * R / (a * a))
        if e1 != 1.0:
            log_term = log1p(e1) - log1p(-e1)
        else:
            log_term = 0.0
        return (2.0 * pi * a * a + pi * R * R / e1 * log_term) * 0.5
    else:
        return pi * R * R + pi * a * a * R * 1.0 / sqrt(a * a - R * R) * acos(R / abs(a))

def SA_conical_head(D: float, a: float) -> float:
    return 0.5 * pi * D * sqrt(a * a + 0.25 * D * D)

def SA_guppy_head(D: float, a: float) -> float:
    return 0.25 * pi * D * sqrt(a * a + D * D) + 0.5 * pi * D * a

def SA_torispheroidal(D: float, f: float, k: float) -> float:
    D2 = D * D
    x1 = 2.0 * pi * D2
    k_inv = 1.0 / k
    x2 = (0.5 - k) / (f - k)
    alpha_1 = f * (1.0 - sqrt(1.0 - x2 * x2))
    alpha_2 = f - sqrt(f * f - 2.0 * f * k + k - 0.25)
    alpha = alpha_1
    S1 = x1 * f * alpha_1
    alpha = alpha_2
    S2_sub = asin((alpha - alpha_2) * k_inv) - asin((alpha_1 - alpha_2) * k_inv)
    S2 = x1 * k * (alpha - alpha_1 + (0.5 - k) * S2_sub)
    return S1 + S2

def SA_tank(D: float, L: float, sideA: str | None=None, sideB: str | None=None, sideA_a: float=0, sideB_a: float=0, sideA_f: float | None=None, sideA_k: float | None=None, sideB_f: float | None=None, sideB_k: float | None=None) -> tuple[float, float, float, float]:
    if sideA == 'conical':
        sideA_SA = SA_conical_head(D=D, a=sideA_a)
    elif sideA == 'ellipsoidal':
        sideA_SA = SA_ellipsoidal_head(D=D, a=sideA_a)
    elif sideA == 'guppy':
        sideA_SA = SA_guppy_head(D=D, a=sideA_a)
    elif sideA == 'spherical':
        sideA_SA = pi * (sideA_a * sideA_a + 0.25 * D * D)
    elif sideA == 'torispherical':
        if sideA_f is None or sideA_k is None:
            raise ValueError("Missing torispherical 'f' or 'k' parameter for sideA")
        sideA_SA = SA_torispheroidal(D=D, f=sideA_f, k=sideA_k)
    else:
        sideA_SA = 0.25 * pi * D * D
    if sideA == sideB and sideA_a == sideB_a and (sideA_f == sideB_f) and (sideA_k == sideB_k):
        sideB_SA = sideA_SA
    elif sideB == 'conical':
        sideB_SA = SA_conical_head(D=D, a=sideB_a)
    elif sideB == 'ellipsoidal':
        sideB_SA = SA_ellipsoidal_head(D=D, a=sideB_a)
    elif sideB == 'guppy':
        sideB_SA = SA_guppy_head(D=D, a=sideB_a)
    elif sideB == 'spherical':
        sideB_SA = pi * (sideB_a * sideB_a + 0.25 * D * D)
    elif sideB == 'torispherical':
        if sideB_f is None or sideB_k is None:
            raise ValueError("Missing torispherical 'f' or 'k' parameter for sideB")
        sideB_SA = SA_torispheroidal(D=D, f=sideB_f, k=sideB_k)
    else:
        sideB_SA = 0.25 * pi * D * D
    lateral_SA = pi * D * L
    SA = sideA_SA + sideB_SA + lateral_SA
    return (SA, sideA_SA, sideB_SA, lateral_SA)

def V_tank(D: float, L: float, horizontal: bool=True, sideA: str | None=None, sideB: str | None=None, sideA_a: float=0.0, sideB_a: float=0.0, sideA_f: float | None=None, sideA_k: float | None=None, sideB_f: float | None=None, sideB_k: float | None=None) -> tuple[float, float, float, float]:
    if sideA is not None and sideA not in ('conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy'):
        raise ValueError('Unsupported head type for side A')
    if sideB is not None and sideB not in ('conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy'):
        raise ValueError('Unsupported head type for side B')
    sideA_f2 = 0.0
    sideA_k2 = 0.0
    sideB_f2 = 0.0
    sideB_k2 = 0.0
    if sideA == 'torispherical':
        if sideA_f is None or sideA_k is None:
            raise ValueError("sideA_f and sideA_k are required when sideA is 'torispherical'")
        sideA_f2 = sideA_f
        sideA_k2 = sideA_k
    if sideB == 'torispherical':
        if sideB_f is None or sideB_k is None:
            raise ValueError("sideB_f and sideB_k are required when sideB is 'torispherical'")
        sideB_f2 = sideB_f
        sideB_k2 = sideB_k
    R = 0.5 * D
    sideA_V = sideB_V = lateral_V = 0.0
    if horizontal:
        if sideA == 'conical' and sideB == 'conical' and (sideA_a == sideB_a):
            sideB_V = sideA_V = V_horiz_conical(D, L, sideA_a, D, headonly=True)
        else:
            if sideA == 'conical':
                sideA_V = V_horiz_conical(D, L, sideA_a, D, headonly=True)
            if sideB == 'conical':
                sideB_V = V_horiz_conical(D, L, sideB_a, D, headonly=True)
        if sideA == 'ellipsoidal' and sideB == 'ellipsoidal' and (sideA_a == sideB_a):
            sideB_V = sideA_V = V_horiz_ellipsoidal(D, L, sideA_a, D, headonly=True)
        else:
            if sideA == 'ellipsoidal':
                sideA_V = V_horiz_ellipsoidal(D, L, sideA_a, D, headonly=True)
            if sideB == 'ellipsoidal':
                sideB_V = V_horiz_ellipsoidal(D, L, sideB_a, D, headonly=True)
        if sideA == 'guppy' and sideB == 'guppy' and (sideA_a == sideB_a):
            sideB_V = sideA_V = V_horiz_guppy(D, L, sideA_a, D, headonly=True)
        else:
            if sideA == 'guppy':
                sideA_V = V_horiz_guppy(D, L, sideA_a, D, headonly=True)
            if sideB == 'guppy':
                sideB_V = V_horiz_guppy(D, L, sideB_a, D, headonly=True)
        if sideA == 'spherical' and sideB == 'spherical' and (sideA_a == sideB_a):
            sideB_V = sideA_V = V_horiz_spherical(D, L, sideA_a, D, headonly=True)
        else:
            if sideA == 'spherical':
                sideA_V = V_horiz_spherical(D, L, sideA_a, D, headonly=True)
            if sideB == 'spherical':
                sideB_V = V_horiz_spherical(D, L, sideB_a, D, headonly=True)
        if sideA == 'torispherical' and sideB == 'torispherical' and (sideA_f == sideB_f) and (sideA_k == sideB_k):
            sideB_V = sideA_V = V_horiz_torispherical(D, L, sideA_f2, sideA_k2, D, headonly=True)
        else:
            if sideA == 'torispherical':
                sideA_V = V_horiz_torispherical(D, L, sideA_f2, sideA_k2, D, headonly=True)
            if sideB == 'torispherical':
                sideB_V = V_horiz_torispherical(D, L, sideB_f2, sideB_k2, D, headonly=True)
        Af = R * R * _acos_level(R, D) - (R - D) * sqrt(D * (R + R - D))
        lateral_V = L * Af
    else:
        if sideA == 'conical' and sideB == 'conical' and (sideA_a == sideB_a):
            sideB_V = sideA_V = V_vertical_conical(D, sideA_a, h=sideA_a)
        else:
            if sideA == 'conical':
                sideA_V = V_vertical_conical(D, sideA_a, h=sideA_a)
            if sideB == 'conical':
                sideB_V = V_vertical_conical(D, sideB_a, h=sideB_a)
        if sideA == 'ellipsoidal' and sideB == 'ellipsoidal' and (sideA_a == sideB_a):
            sideB_V = sideA_V = V_vertical_ellipsoidal(D, sideA_a, h=sideA_a)
        else:
            if sideA == 'ellipsoidal':
                sideA_V = V_vertical_ellipsoidal(D, sideA_a, h=sideA_a)
            if sideB == 'ellipsoidal':
                sideB_V = V_vertical_ellipsoidal(D, sideB_a, h=sideB_a)
        if sideA == 'spherical' and sideB == 'spherical' and (sideA_a == sideB_a):
            sideB_V = sideA_V = V_vertical_spherical(D, sideA_a, h=sideA_a)
        else:
            if sideA == 'spherical':
                sideA_V = V_vertical_spherical(D, sideA_a, h=sideA_a)
            if sideB == 'spherical':
                sideB_V = V_vertical_spherical(D, sideB_a, h=sideB_a)
        if sideA == 'torispherical' and sideB == 'torispherical' and (sideA_f == sideB_f) and (sideA_k == sideB_k):
            sideB_V = sideA_V = V_vertical_torispherical(D, sideA_f2, sideA_k2, h=sideA_a)
        else:
            if sideA == 'torispherical':
                sideA_V = V_vertical_torispherical(D, sideA_f2, sideA_k2, h=sideA_a)
            if sideB == 'torispherical':
                sideB_V = V_vertical_torispherical(D, sideB_f2, sideB_k2, h=sideB_a)
        lateral_V = 0.25 * pi * D * D * L
    return (lateral_V + sideA_V + sideB_V, sideA_V, sideB_V, lateral_V)

def SA_partial_cylindrical_body(L: float, D: float, h: float) -> float:
    if h < 0.0:
        return 0.0
    elif h > D:
        h = D
    C = D * _acos_level(0.5 * D, h)
    return C * L

def A_partial_circle(D: float, h: float) -> float:
    if h > D:
        h = D
    elif h < 0.0:
        return 0.0
    R = 0.5 * D
    SA = R * R * _acos_level(R, h) - (R - h) * sqrt(h * (R + R - h))
    if SA < 0.0:
        SA = 0.0
    return SA

def circle_segment_area_inner(h: float, R: float, A_expect: float) -> tuple[float, float]:
    x0 = R * R
    x1 = -h
    x2 = R + x1
    x3 = sqrt(h * (2.0 * R + x1))
    x4 = x2 * x2
    A_err = x0 * acos(x2 / R) - x2 * x3 - A_expect
    der = R / sqrt(1.0 - x4 / x0) + x3 - x4 / x3
    return (A_err, der)

def circle_segment_h_from_A(A: float, D: float) -> float:
    if A == 0.0:
        return 0.0
    R = 0.5 * D
    A_circle = pi * R * R
    if A > 0.5 * A_circle:
        if isclose(A, A_circle, rel_tol=1e-14):
            return D
        return D - circle_segment_h_from_A(A_circle - A, D)
    return newton(circle_segment_area_inner, x0=0.25 * R, fprime=True, high=R, low=0.0, args=(R, A), xtol=1e-12, bisection=True)

def SA_partial_horiz_conical_head(D: float, a: float, h: float) -> float:
    if h > D:
        h = D
    elif h < 0:
        return 0.0
    R = 0.5 * D
    R_inv = 1.0 / R
    return sqrt(a * a + R * R) * R_inv * (R * R * _acos_level(R, h) - (R - h) * sqrt(h * (R + R - h)))

def _SA_partial_horiz_spherical_head_to_int(x: float, R2: float, a4: float, c1: float, c2: float) -> float:
    x2 = x * x
    to_pow = (R2 - x2) / (c2 - a4 * x2)
    if to_pow < 0.0:
        to_pow = 0.0
    num = c1 * sqrt(to_pow)
    if num > 1.0:
        return 0.5 * pi
    return asin(num)

def SA_partial_horiz_spherical_head(D: float, a: float, h: float) -> float:
    R = 0.5 * D
    if a == R:
        return pi * R * h
    elif h <= 0.0:
        return 0.0
    elif h > D:
        h = D
    fact = (a * a + R * R) / abs(a)
    R2 = R * R
    a2 = a + a
    a4 = a2 * a2
    c1 = 2.0 * abs(a)
    c2 = (a * a + R2) * (a * a + R2)
    SA = fact * quad(_SA_partial_horiz_spherical_head_to_int, R - h, R, args=(R2, a4, c1, c2))[0]
    return SA

def _SA_partial_horiz_ellipsoidal_head_to_int_dbl(x, y, c1, R2, R4, h):
    y2 = y * y
    x2 = x * x
    num = c1 * (x2 + y2) - R4
    den = x2 + (y2 - R2)
    to_sqrt = num / den
    if to_sqrt < 0.0:
        return _SA_partial_horiz_ellipsoidal_head_to_int_dbl(x, y * (1.0 - 1e-12), c1, R2, R4, h)
    return sqrt(to_sqrt)

def _SA_partial_horiz_ellipsoidal_head_limits(x, c1, R2, R4, h):
    return [0.0, sqrt(R2 - x * x)]

def _SA_partial_horiz_ellipsoidal_head_limits2(c1, R2, R4, h):
    R = sqrt(R2)
    return [R - h, R]

def _SA_partial_horiz_ellipsoidal_head_to_int(y: float, c1: float, R2: float, R4: float) -> float:
    y2 = y * y
    t0 = c1 * y2
    x6 = c1 * (y2 - R2) / (t0 - R4)
    ans = sqrt(R4 - t0) * float(ellipe(x6))
    return ans

def SA_partial_horiz_ellipsoidal_head(D: float, a: float, h: float) -> float:
    R = 0.5 * D
    if R - h >= R:
        return 0.0
    elif h > D:
        h = D
    R2 = R * R
    R4 = R2 * R2
    a2 = a * a
    c1 = R2 - a2
    quad_val = quad(_SA_partial_horiz_ellipsoidal_head_to_int, R - h, R, args=(c1, R2, R4))[0]
    SA = 2.0 / R * quad_val
    return SA

def _SA_partial_horiz_guppy_head_to_int(x: float, a: float, R: float) -> float:
    x0 = a * a
    x1 = R - x
    x2 = x1 * x1
    x3 = 1.0 / x2
    x4 = x0 * x3 + 1.0
    x5 = R * R
    x6 = x * x
    x7 = x5 - x6
    x8 = sqrt(x7)
    x9 = x4 * x8
    x10 = x0 + 4.0 * x5
    x17 = sqrt(sqrt(x10))
    x11 = x17 * x17
    x12 = 1.0 / x11
    x13 = a * x7
    x14 = x12 * x13 * x3 + 1.0
    x15 = a * x12
    x16 = sqrt(a)
    x18 = 2 * atan(x16 * x8 / (x1 * x17))
    x19 = 0.5 - 0.5 * x15
    x100 = -2.0 * R * x * x11 + x11 * x5 + x11 * x6 + x13
    x20 = x1 * x14 * sqrt(x2 * x5 * (x0 + x2) / (x100 * x100)) / x5
    return 0.08333333333333333 * ((-4.0 * x10 ** 0.75 * x16 * x20 * float(ellipeinc(x18, x19)) + 4.0 * x9 + 2.0 * x17 * x20 * (a * x11 + x10) * float(ellipkinc(x18, x19)) / x16 + 8.0 * x15 * x9 / x14) * 1.0 / sqrt(x4))

def SA_partial_horiz_guppy_head(D: float, a: float, h: float) -> float:
    R = 0.5 * D
    if a == R:
        return pi * R * h
    elif h < 0.0:
        return 0.0
    elif h > D:
        h = D
    if -R == h - R:
        return 0.0
    quad_val = float(quad(_SA_partial_horiz_guppy_head_to_int, -R, h - R, args=(a, R))[0])
    SA = 2.0 * quad_val
    return SA

def _SA_partial_horiz_torispherical_head_int_1(x: float, b: float, c: float) -> float:
    x = float(x)
    x0 = x * x
    x1 = b - x0
    x2 = sqrt(x1)
    x3 = -b + x0
    x4 = c * c
    x5 = 1.0 / csqrt(x1 - x4 + 0j)
    x6 = x3 + x4
    x7 = sqrt(b)
    x3_pow = (x3 + 0j) ** (-1.5)
    ans = x * cacos(c / x2) + x3_pow * x5 * (-c * x1 * csqrt(-x6 * x6) * catan(x * x2 / (csqrt(x3) * csqrt(x6))) + x6 * x7 * csqrt(-x1 * x1) * catan(c * x * x5 / x7)) / csqrt(-x6 / x1)
    return abs(ans.real)

def _SA_partial_horiz_torispherical_head_int_2(y: float, t2: float, s: float, c1: float) -> float:
    y = float(y)
    y2 = y * y
    x10 = csqrt(t2 - y2 + 0j)
    x = csqrt(c1 - y2 + (s + s) * x10).real
    x0 = t2 - y2
    x1 = s * x10.real
    t10 = x1 + x1 + s * s + x0
    x3 = t10 - x * x
    ans = 0.0
    if x3 > 0.0 and x0 != 0.0:
        x4 = sqrt(x3)
        x5 = t2 * t10 / (x0 * x3)
        if x5 > 0.0:
            ans = x4 * sqrt(x5) * atan(x / x4)
    return ans

def _SA_partial_horiz_torispherical_head_int_3(y: float, x: float, s: float, t2: float) -> float:
    x2 = x * x
    y2 = y * y
    x10 = sqrt(t2 - x2)
    num = (s + x10) * (s + x10) * x2 + (t2 - x2) * y2
    den = (t2 - x2) * (s * s + t2 - x2 - y2 + 2.0 * s * x10)
    f = sqrt(1.0 + num / den)
    return f

def SA_partial_horiz_torispherical_head(D: float, f: float, k: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    elif h > D:
        h = D
    R = D / 2.0
    r = f * D
    alpha = asin((1.0 - 2.0 * k) / (2.0 * (f - k)))
    cos_alpha = cos(alpha)
    sin_alpha = sin(alpha)
    s = R - k * D
    t = k * D
    s2 = s * s
    t2 = t * t
    a1 = r * (1.0 - cos_alpha)
    a2 = k * D * cos_alpha
    c = f * D * cos_alpha
    b = f * f * D * D
    c1 = s2 + t2 - (R - h) ** 2

    def G_lim(x):
        x2 = x * x
        try:
            G = sqrt(c1 - x2 + (s + s) * sqrt(t2 - x2))
        except:
            G = sqrt(c1 - x2 + (s + s) * sqrt(t2 - x2 + 0j) + 0j)
        return G.real
    limit_1 = k * D * (1.0 - sin_alpha)
    if h < limit_1 or isclose(h, limit_1, rel_tol=1e-13):
        SA = quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, sqrt(2 * k * D * h - h * h), args=(t2, s, c1))[0]
        return 2.0 * SA
    elif limit_1 < h <= R:
        if D * 0.499 < h < D * 0.501:
            from scipy.integrate import dblquad
            SA = 2.0 * dblquad(_SA_partial_horiz_torispherical_head_int_3, 0.0, a2, lambda x: 0, G_lim, args=(s, t2))[0]
        else:
            SA = 2.0 * quad(_SA_partial_horiz_torispherical_head_int_2, 0.0, a2, args=(t2, s, c1))[0]
        try:
            high = _SA_partial_horiz_torispherical_head_int_1(f * D * sin_alpha, b, c)
        except:
            high = _SA_partial_horiz_torispherical_head_int_1(f * D * sin_alpha * (1.0 + 1e-14), b, c)
        int_1_term1 = high - _SA_partial_horiz_torispherical_head_int_1(R - h, b, c)
        SA += 2.0 * f * D * int_1_term1
    else:
        SA = 2.0 * pi * f * D * a1 + 2.0 * pi * k * D * (a2 + (R - k * D) * asin(a2 / (k * D)))
        SA -= SA_partial_horiz_torispherical_head(D, f, k, h=D - h)
    return SA

def SA_partial_vertical_conical_head(D: float, a: float, h: float) -> float:
    if a == 0.0:
        return 0.25 * pi * D * D
    elif h <= 0.0:
        return 0.0
    elif h > a:
        h = a
    R = 0.5 * D
    SA = pi * R * h * h * sqrt(a * a + R * R) / (a * a)
    return SA

def SA_partial_vertical_ellipsoidal_head(D: float, a: float, h: float) -> float:
    if a == 0.0:
        return 0.25 * pi * D * D
    elif h <= 0.0:
        return 0.0
    elif h > a:
        h = a
    R = 0.5 * D
    SA = pi * R * R
    a2 = a * a
    a_inv = 1.0 / a
    R2 = R * R
    SA -= pi * (a - h) * R * sqrt(a2 * a2 - (a - h) * (a - h) * (a2 - R2)) * a_inv * a_inv
    if a > R:
        SA += pi * a2 * R / sqrt(a2 - R2) * (acos(R * a_inv) - asin((a - h) * sqrt(a2 - R2) * a_inv * a_inv))
    elif a == R:
        return pi * D * h
    else:
        x1 = sqrt(R2 - a2)
        num = a * (x1 + R)
        den = (a - h) * x1 + sqrt(a2 * a2 + (a - h) * (a - h) * (R2 - a2))
        SA += pi * a2 * R / x1 * log(num / den)
    return SA

def SA_partial_vertical_spherical_head(D: float, a: float, h: float) -> float:
    if a == 0.0:
        return 0.25 * pi * D * D
    elif h <= 0.0:
        return 0.0
    elif h > a:
        h = a
    R = 0.5 * D
    SA = pi * h * ((a * a + R * R) / a)
    return SA

def SA_partial_vertical_torispherical_head(D: float, f: float, k: float, h: float) -> float:
    if h <= 0.0:
        return 0.0
    R = 0.5 * D
    alpha = asin((1.0 - 2.0 * k) / (2.0 * (f - k)))
    cos_alpha = cos(alpha)
    a1 = f * D * (1.0 - cos_alpha)
    a2 = k * D * cos_alpha
    a = a1 + a2
    if h > a:
        h = a
    if h < a1:
        SA = 2.0 * pi * f * D * h
    elif a1 <= h <= a:
        SA = 2.0 * pi * f * D * a1
        kD_inv = 1.0 / (k * D)
        SA += 2.0 * pi * k * D * (h - a1 + (R - k * D) * (asin(a2 * kD_inv) - asin((a - h) * kD_inv)))
    else:
        return 0.0
    return SA

def a_torispherical(D: float, f: float, k: float) -> float:
    alpha = asin((1.0 - 2.0 * k) / (2.0 * (f - k)))
    cos_alpha = cos(alpha)
    a1 = f * D * (1 - cos_alpha)
    a2 = k * D * cos_alpha
    return a1 + a2

def V_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str | None=None, sideB: str | None=None, sideA_a: float=0, sideB_a: float=0, sideA_f: float | None=None, sideA_k: float | None=None, sideB_f: float | None=None, sideB_k: float | None=None) -> float:
    if sideA is not None and sideA not in ('conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy'):
        raise ValueError('Unsupported head type for side A')
    if sideB is not None and sideB not in ('conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy'):
        raise ValueError('Unsupported head type for side B')
    sideA_f2 = 0.0
    sideA_k2 = 0.0
    sideB_f2 = 0.0
    sideB_k2 = 0.0
    if sideA == 'torispherical':
        if sideA_f is None or sideA_k is None:
            raise ValueError("sideA_f and sideA_k are required when sideA is 'torispherical'")
        sideA_f2 = sideA_f
        sideA_k2 = sideA_k
    if sideB == 'torispherical':
        if sideB_f is None or sideB_k is None:
            raise ValueError("sideB_f and sideB_k are required when sideB is 'torispherical'")
        sideB_f2 = sideB_f
        sideB_k2 = sideB_k
    R = 0.5 * D
    V = 0.0
    if horizontal:
        if h > D:
            h = D
        if sideA == 'conical' and sideB == 'conical' and (sideA_a == sideB_a):
            V += 2.0 * V_horiz_conical(D, L, sideA_a, h, headonly=True)
        else:
            if sideA == 'conical':
                V += V_horiz_conical(D, L, sideA_a, h, headonly=True)
            if sideB == 'conical':
                V += V_horiz_conical(D, L, sideB_a, h, headonly=True)
        if sideA == 'ellipsoidal' and sideB == 'ellipsoidal' and (sideA_a == sideB_a):
            V += 2.0 * V_horiz_ellipsoidal(D, L, sideA_a, h, headonly=True)
        else:
            if sideA == 'ellipsoidal':
                V += V_horiz_ellipsoidal(D, L, sideA_a, h, headonly=True)
            if sideB == 'ellipsoidal':
                V += V_horiz_ellipsoidal(D, L, sideB_a, h, headonly=True)
        if sideA == 'guppy' and sideB == 'guppy' and (sideA_a == sideB_a):
            V += 2.0 * V_horiz_guppy(D, L, sideA_a, h, headonly=True)
        else:
            if sideA == 'guppy':
                V += V_horiz_guppy(D, L, sideA_a, h, headonly=True)
            if sideB == 'guppy':
                V += V_horiz_guppy(D, L, sideB_a, h, headonly=True)
        if sideA == 'spherical' and sideB == 'spherical' and (sideA_a == sideB_a):
            V += 2.0 * V_horiz_spherical(D, L, sideA_a, h, headonly=True)
        else:
            if sideA == 'spherical':
                V += V_horiz_spherical(D, L, sideA_a, h, headonly=True)
            if sideB == 'spherical':
                V += V_horiz_spherical(D, L, sideB_a, h, headonly=True)
        if sideA == 'torispherical' and sideB == 'torispherical' and (sideA_f == sideB_f) and (sideA_k == sideB_k):
            V += 2.0 * V_horiz_torispherical(D, L, sideA_f2, sideA_k2, h, headonly=True)
        else:
            if sideA == 'torispherical':
                V += V_horiz_torispherical(D, L, sideA_f2, sideA_k2, h, headonly=True)
            if sideB == 'torispherical':
                V += V_horiz_torispherical(D, L, sideB_f2, sideB_k2, h, headonly=True)
        Af = R * R * _acos_level(R, h) - (R - h) * sqrt(h * (R + R - h))
        V += L * Af
    else:
        max_h = L + sideA_a + sideB_a
        if h > max_h:
            h = max_h
        if sideA in ('conical', 'ellipsoidal', 'torispherical', 'spherical'):
            if sideA == 'conical':
                V += V_vertical_conical(D, sideA_a, h=min(sideA_a, h))
            if sideA == 'ellipsoidal':
                V += V_vertical_ellipsoidal(D, sideA_a, h=min(sideA_a, h))
            if sideA == 'spherical':
                V += V_vertical_spherical(D, sideA_a, h=min(sideA_a, h))
            if sideA == 'torispherical':
                V += V_vertical_torispherical(D, sideA_f2, sideA_k2, h=min(sideA_a, h))
        if h >= sideA_a + L:
            V += 0.25 * pi * D * D * L
        elif h > sideA_a:
            V += 0.25 * pi * D * D * (h - sideA_a)
        if h > sideA_a + L:
            h2 = sideB_a - (h - sideA_a - L)
            if sideB == 'conical':
                V += V_vertical_conical(D, sideB_a, h=sideB_a)
                V -= V_vertical_conical(D, sideB_a, h=h2)
            if sideB == 'ellipsoidal':
                V += V_vertical_ellipsoidal(D, sideB_a, h=sideB_a)
                V -= V_vertical_ellipsoidal(D, sideB_a, h=h2)
            if sideB == 'spherical':
                V += V_vertical_spherical(D, sideB_a, h=sideB_a)
                V -= V_vertical_spherical(D, sideB_a, h=h2)
            if sideB == 'torispherical':
                V += V_vertical_torispherical(D, sideB_f2, sideB_k2, h=sideB_a)
                V -= max(0.0, V_vertical_torispherical(D, sideB_f2, sideB_k2, h=h2))
    return V

def SA_from_h(h: float, D: float, L: float, horizontal: bool=True, sideA: str | None=None, sideB: str | None=None, sideA_a: float=0.0, sideB_a: float=0.0, sideA_f: float | None=None, sideA_k: float | None=None, sideB_f: float | None=None, sideB_k: float | None=None) -> float:
    if sideA is not None and sideA not in ('conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy'):
        raise ValueError('Unsupported head type for side A')
    if sideB is not None and sideB not in ('conical', 'ellipsoidal', 'torispherical', 'spherical', 'guppy'):
        raise ValueError('Unsupported head type for side B')
    R = 0.5 * D
    SA = 0.0
    if horizontal:
        if h > D:
            h = D
        if sideA == 'conical':
            SA += SA_partial_horiz_conical_head(D, sideA_a, h)
        if sideB == 'conical':
            SA += SA_partial_horiz_conical_head(D, sideB_a, h)
        if sideA == 'ellipsoidal':
            SA += SA_partial_horiz_ellipsoidal_head(D, sideA_a, h)
        if sideB == 'ellipsoidal':
            SA += SA_partial_horiz_ellipsoidal_head(D, sideB_a, h)
        if sideA == 'guppy':
            SA += SA_partial_horiz_guppy_head(D, sideA_a, h)
        if sideB == 'guppy':
            SA += SA_partial_horiz_guppy_head(D, sideB_a, h)
        if sideA == 'spherical':
            SA += SA_partial_horiz_spherical_head(D, sideA_a, h)
        if sideB == 'spherical':
            SA += SA_partial_horiz_spherical_head(D, sideB_a, h)
        if sideA == 'torispherical':
            if sideA_f is not None and sideA_k is not None:
                SA += SA_partial_horiz_torispherical_head(D, sideA_f, sideA_k, h)
            else:
                raise ValueError('Torispherical sideA but no `f` and `k` provided')
        if sideB == 'torispherical':
            if sideB_f is not None and sideB_k is not None:
                SA += SA_partial_horiz_torispherical_head(D, sideB_f, sideB_k, h)
            else:
                raise ValueError('Torispherical sideB but no `f` and `k` provided')
        if sideA is None:
            SA += A_partial_circle(D, h)
        if sideB is None:
            SA += A_partial_circle(D, h)
        SA += L * D * _acos_level(0.5 * D, h)
    else:
        max_h = L + sideA_a + sideB_a
        if h > max_h:
            h = max_h
        if sideA in ('conical', 'ellipsoidal', 'torispherical', 'spherical'):
            if sideA == 'conical':
                SA += SA_partial_vertical_conical_head(D, sideA_a, h=min(sideA_a, h))
            elif sideA == 'ellipsoidal':
                SA += SA_partial_vertical_ellipsoidal_head(D, sideA_a, h=min(sideA_a, h))
            elif sideA == 'spherical':
                SA += SA_partial_vertical_spherical_head(D, sideA_a, h=min(sideA_a, h))
            elif sideA == 'torispherical':
                if sideA_f is not None and sideA_k is not None:
                    SA += SA_partial_vertical_torispherical_head(D, sideA_f, sideA_k, h=min(sideA_a, h))
                else:
                    raise ValueError('Torispherical sideA but no `f` and `k` provided')
        elif sideA is None:
            SA += 0.25 * pi * D * D
        if h >= sideA_a + L:
            SA += pi * D * L
        elif h > sideA_a:
            SA += pi * D * (h - sideA_a)
        if h >= sideA_a + L:
            h2 = sideB_a - (h - sideA_a - L)
            if sideB == 'conical':
                if sideB_a == 0.0:
                    SA += 0.25 * pi * D * D
                else:
                    SA += SA_partial_vertical_conical_head(D, sideB_a, h=sideB_a)
                    SA -= SA_partial_vertical_conical_head(D, sideB_a, h=h2)
            elif sideB == 'ellipsoidal':
                if sideB_a == 0.0:
                    SA += 0.25 * pi * D * D
                else:
                    SA += SA_partial_vertical_ellipsoidal_head(D, sideB_a, h=sideB_a)
                    SA -= SA_partial_vertical_ellipsoidal_head(D, sideB_a, h=h2)
            elif sideB == 'spherical':
                if sideB_a == 0.0:
                    SA += 0.25 * pi * D * D
                else:
                    SA += SA_partial_vertical_spherical_head(D, sideB_a, h=sideB_a)
                    SA -= SA_partial_vertical_spherical_head(D, sideB_a, h=h2)
            elif sideB == 'torispherical':
                if sideB_a == 0.0:
                    SA += 0.25 * pi * D * D
                elif sideB_f is not None and sideB_k is not None:
                    SA += SA_partial_vertical_torispherical_head(D, sideB_f, sideB_k, h=sideB_a)
                    SA -= max(0.0, SA_partial_vertical_torispherical_head(D, sideB_f, sideB_k, h=h2))
                else:
                    raise ValueError('Torispherical sideB but no `f` and `k` provided')
            elif sideB is None and h == sideA_a + L:
                SA += 0.25 * pi * D * D
    return SA

def tank_from_two_specs_err(guess: list[float], spec0: float, spec1: float, spec0_name: str, spec1_name: str, h: float, horizontal: bool, sideA: None, sideB: None, sideA_a: None, sideB_a: None, sideA_f: None, sideA_k: None, sideB_f: None, sideB_k: None, sideA_a_ratio: None, sideB_a_ratio: None) -> list[float]:
    D, L_over_D = (float(guess[0]), float(guess[1]))
    obj = TANK(D=D, L_over_D=L_over_D, horizontal=horizontal, sideA=sideA, sideB=sideB, sideA_a=sideA_a, sideB_a=sideB_a, sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k, sideA_a_ratio=sideA_a_ratio, sideB_a_ratio=sideB_a_ratio)
    if h is not None:
        h = min(h, obj.h_max)
    if spec0_name == 'V':
        err0 = obj.V_total - spec0
    elif spec0_name == 'SA':
        err0 = obj.A - spec0
    elif spec0_name == 'V_partial':
        err0 = obj.V_from_h(h) - spec0
    elif spec0_name == 'SA_partial':
        err0 = obj.SA_from_h(h) - spec0
    elif spec0_name == 'A_cross':
        err0 = obj.A_cross_sectional(h) - spec0
    if spec1_name == 'V':
        err1 = obj.V_total - spec1
    elif spec1_name == 'SA':
        err1 = obj.A - spec1
    elif spec1_name == 'V_partial':
        err1 = obj.V_from_h(h) - spec1
    elif spec1_name == 'SA_partial':
        err1 = obj.SA_from_h(h) - spec1
    elif spec1_name == 'A_cross':
        err1 = obj.A_cross_sectional(h) - spec1
    return [err0, err1]

class TANK:
    table = False
    chebyshev = False
    __full_path__ = __module__ + '.TANK'

    def __str__(self):
        orient = 'Horizontal' if self.horizontal else 'Vertical'
        if self.sideA is None and self.sideB is None:
            sides = 'no heads'
        elif self.sideA == self.sideB:
            if self.sideA_a == self.sideB_a:
                sides = self.sideA + f' heads, a={self.sideA_a:f} m'
            else:
                sides = self.sideA + f' heads, sideA a={self.sideA_a:f} m, sideB a={self.sideB_a:f} m'
        else:
            if self.sideA:
                A = f'{self.sideA} head on sideA with a={self.sideA_a:f} m'
            else:
                A = 'no head on sideA'
            if self.sideB:
                B = f' and {self.sideB} head on sideB with a={self.sideB_a:f} m'
            else:
                B = ' and no head on sideB'
            sides = A + B
        return f'<{orient} tank, V={self.V_total:f} m^3, D={self.D:f} m, L={self.L:f} m, {sides}.>'

    def __repr__(self):
        attributes = ', '.join((f'{slot}={getattr(self, slot)!r}' for slot in self.model_inputs if getattr(self, slot) is not None))
        return f'{self.__class__.__name__}({attributes})'

    def __hash__(self):
        return hash(tuple((getattr(self, slot) for slot in self.model_inputs)))
    model_inputs = ('D', 'L', 'horizontal', 'sideA', 'sideB', 'sideA_a', 'sideB_a', 'sideA_f', 'sideA_k', 'sideB_f', 'sideB_k', 'sideA_a_ratio', 'sideB_a_ratio', 'L_over_D', 'V')

    def __init__(self, D: float | None=None, L: float | None=None, horizontal: bool=True, sideA: str | None=None, sideB: str | None=None, sideA_a: float | None=None, sideB_a: float | None=None, sideA_f: float | None=None, sideA_k: float | None=None, sideB_f: float | None=None, sideB_k: float | None=None, sideA_a_ratio: float | None=None, sideB_a_ratio: float | None=None, L_over_D: float | None=None, V: int | None=None) -> None:
        self.D = D
        self.L = L
        self.L_over_D = L_over_D
        self.V = V
        self.horizontal = horizontal
        sideA_same, sideB_same = (sideA == 'same', sideB == 'same')
        if sideA_same and (not sideB_same):
            sideA, sideA_a, sideA_a_ratio, sideA_f, sideA_k = (sideB, sideB_a, sideB_a_ratio, sideB_f, sideB_k)
        elif sideB_same and (not sideA_same):
            sideB, sideB_a, sideB_a_ratio, sideB_f, sideB_k = (sideA, sideA_a, sideA_a_ratio, sideA_f, sideA_k)
        elif sideA_same and sideB_same:
            raise ValueError('Cannot specify both sides as same')
        self.sideA = sideA
        if sideA is None and sideA_a is None:
            sideA_a = 0.0
        self.sideA_a = sideA_a
        if sideA_a is None and sideA_a_ratio is None and (sideA is not None and sideA != 'torispherical'):
            sideA_a_ratio = 0.25
        self.sideA_a_ratio = sideA_a_ratio
        if sideA_a is None and sideA == 'torispherical':
            if sideA_f is None:
                sideA_f = 1.0
            if sideA_k is None:
                sideA_k = 0.06
        self.sideA_f = sideA_f
        self.sideA_k = sideA_k
        self.sideB = sideB
        if sideB is None and sideB_a is None:
            sideB_a = 0.0
        self.sideB_a = sideB_a
        if sideB_a is None and sideB_a_ratio is None and (sideB is not None and sideB != 'torispherical'):
            sideB_a_ratio = 0.25
        self.sideB_a_ratio = sideB_a_ratio
        if sideB_a is None and sideB == 'torispherical':
            if sideB_f is None:
                sideB_f = 1.0
            if sideB_k is None:
                sideB_k = 0.06
        self.sideB_f = sideB_f
        self.sideB_k = sideB_k
        if self.horizontal:
            self.vertical = False
            self.orientation = 'horizontal'
            self.angle = 0
        else:
            self.vertical = True
            self.orientation = 'vertical'
            self.angle = 90
        if self.V:
            self._solve_tank_for_V()
        self.set_misc()

    def set_misc(self) -> None:
        if self.D is not None and self.L is not None:
            self.L_over_D = self.L / self.D
        elif self.D is not None and self.L_over_D is not None:
            self.L = self.D * self.L_over_D
        elif self.L is not None and self.L_over_D is not None:
            self.D = self.L / self.L_over_D
        D = self.D
        self.R = self.D / 2.0
        if self.sideA is not None and D is not None and (self.sideA_a is None) and (self.sideA in ('conical', 'ellipsoidal', 'guppy', 'spherical')):
            self.sideA_a = D * self.sideA_a_ratio
        if self.sideB is not None and D is not None and (self.sideB_a is None) and (self.sideB in ('conical', 'ellipsoidal', 'guppy', 'spherical')):
            self.sideB_a = D * self.sideB_a_ratio
        if self.sideA == 'torispherical' and self.sideA_f is not None and (self.sideA_k is not None):
            self.sideA_a = a_torispherical(D, self.sideA_f, self.sideA_k)
        if self.sideB == 'torispherical' and self.sideB_f is not None and (self.sideB_k is not None):
            self.sideB_a = a_torispherical(D, self.sideB_f, self.sideB_k)
        if self.sideA_a_ratio is None and self.sideA_a is not None:
            self.sideA_a_ratio = self.sideA_a / D
        elif self.sideA_a_ratio is not None and self.sideA_a is not None and (self.sideA_a != D * self.sideA_a_ratio):
            self.sideA_a_ratio = self.sideA_a / D
        if self.sideB_a_ratio is None and self.sideB_a is not None:
            self.sideB_a_ratio = self.sideB_a / D
        elif self.sideB_a_ratio is not None and self.sideB_a is not None and (self.sideB_a != D * self.sideB_a_ratio):
            self.sideB_a_ratio = self.sideB_a / D
        h_max = 0.0
        if self.horizontal:
            h_max += self.D
        else:
            h_max += self.L
            if self.sideA_a is not None:
                h_max += self.sideA_a
            if self.sideB_a is not None:
                h_max += self.sideB_a
        self.h_max = h_max
        self.V_total, self.V_sideA, self.V_sideB, self.V_lateral = V_tank(D=D, L=self.L, sideA=self.sideA, sideB=self.sideB, sideA_a=self.sideA_a, sideB_a=self.sideB_a, sideA_f=self.sideA_f, sideA_k=self.sideA_k, sideB_f=self.sideB_f, sideB_k=self.sideB_k, horizontal=self.horizontal)
        self.A, self.A_sideA, self.A_sideB, self.A_lateral = SA_tank(D=D, L=self.L, sideA=self.sideA, sideB=self.sideB, sideA_a=self.sideA_a, sideB_a=self.sideB_a, sideA_f=self.sideA_f, sideA_k=self.sideA_k, sideB_f=self.sideB_f, sideB_k=self.sideB_k)
        A_circular_plate = 0.25 * pi * D * D
        self.A_sideA_extra = self.A_sideA - A_circular_plate
        self.A_sideB_extra = self.A_sideB - A_circular_plate

    @staticmethod
    def from_two_specs(spec0: float, spec1: float, spec0_name: str='V', spec1_name: str='A_cross', h: float | None=None, horizontal: bool=True, sideA: None=None, sideB: None=None, sideA_a: None=None, sideB_a: None=None, sideA_f: None=None, sideA_k: None=None, sideB_f: None=None, sideB_k: None=None, sideA_a_ratio: None=None, sideB_a_ratio: None=None) -> TANK:
        args = (spec0, spec1, spec0_name, spec1_name, h, horizontal, sideA, sideB, sideA_a, sideB_a, sideA_f, sideA_k, sideB_f, sideB_k, sideA_a_ratio, sideB_a_ratio)
        new_f, translate_into, translate_outof = translate_bound_func(tank_from_two_specs_err, bounds=[(0.0001, 10000.0), (0.0001, 10000.0)])
        guess = translate_into([1.0, 3.0])
        from scipy.optimize import fsolve
        ans = fsolve(new_f, guess, args=args, xtol=1e-10, factor=0.1)
        val0, val1 = translate_outof(ans)
        return TANK(D=float(val0), L_over_D=float(val1), horizontal=horizontal, sideA=sideA, sideB=sideB, sideA_a=sideA_a, sideB_a=sideB_a, sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k, sideA_a_ratio=sideA_a_ratio, sideB_a_ratio=sideB_a_ratio)

    def add_thickness(self, thickness: float, sideA_thickness: None=None, sideB_thickness: None=None) -> TANK:
        kwargs = dict(D=self.D, L=self.L, horizontal=self.horizontal, sideA=self.sideA, sideB=self.sideB, sideA_a=self.sideA_a, sideB_a=self.sideB_a, sideA_f=self.sideA_f, sideA_k=self.sideA_k, sideB_f=self.sideB_f, sideB_k=self.sideB_k)
        if sideA_thickness is None:
            sideA_thickness = thickness
        if sideB_thickness is None:
            sideB_thickness = thickness
        kwargs['D'] += 2.0 * thickness
        kwargs['L'] += sideA_thickness + sideB_thickness
        if self.sideA != 'torispherical':
            kwargs['sideA_a'] += sideA_thickness
        else:
            del kwargs['sideA_a']
        if self.sideB != 'torispherical':
            kwargs['sideB_a'] += sideB_thickness
        else:
            del kwargs['sideB_a']
        return TANK(**kwargs)

    def SA_from_h(self, h: float, method: str='full') -> float:
        if method == 'full':
            return SA_from_h(h, self.D, self.L, self.horizontal, self.sideA, self.sideB, self.sideA_a, self.sideB_a, self.sideA_f, self.sideA_k, self.sideB_f, self.sideB_k)
        else:
            raise ValueError("Allowable methods are 'full' .")

    def V_from_h(self, h: float, method: str='full') -> float:
        if method == 'full':
            return V_from_h(h, self.D, self.L, self.horizontal, self.sideA, self.sideB, self.sideA_a, self.sideB_a, self.sideA_f, self.sideA_k, self.sideB_f, self.sideB_k)
        elif method == 'chebyshev':
            if not self.chebyshev:
                self.set_chebyshev_approximators()
            return self.V_from_h_cheb(h)
        else:
            raise ValueError("Allowable methods are 'full' or 'chebyshev'.")

    def h_from_V(self, V: float, method: str='spline') -> float:
        if method == 'spline':
            try:
                if not self.table:
                    self.set_table()
                return float(self.interp_h_from_V(V))
            except:
                return self.h_from_V(V, 'brenth')
        elif method == 'chebyshev':
            if not self.chebyshev:
                self.set_chebyshev_approximators()
            return self.h_from_V_cheb(V)
        elif method == 'brenth':
            to_solve = lambda h: self.V_from_h(h, method='full') - V
            return brenth(to_solve, 0.0, self.h_max)
        else:
            raise ValueError("Allowable methods are 'full' or 'chebyshev', or 'brenth'.")

    def A_cross_sectional(self, h: float, method: str='full') -> float:
        if h in (self.h_max, 0.0):
            return 0.0
        return derivative(lambda h: self.V_from_h(h), h, dx=1e-07 * h, order=3, n=1)

    def set_table(self, n: int=100, dx: None=None) -> None:
        if dx:
            self.heights = linspace(0.0, self.h_max, int(self.h_max / dx) + 1)
        else:
            self.heights = linspace(0.0, self.h_max, n)
        self.volumes = [self.V_from_h(h) for h in self.heights]
        from scipy.interpolate import PchipInterpolator
        self.interp_h_from_V = PchipInterpolator(self.volumes, self.heights, extrapolate=False)
        self.table = True

    def set_chebyshev_approximators(self, deg_forward=50, deg_backwards=200):
        import numpy as np
        from rfluids.optional.pychebfun import Chebfun
        to_fit = lambda h: self.V_from_h(h, 'full')
        self.c_forward = Chebfun.from_function(np.vectorize(to_fit), [0.0, self.h_max], N=deg_forward).coefficients().tolist()
        self.V_from_h_cheb = lambda x: chebval((2.0 * x - self.h_max) / self.h_max, self.c_forward)
        to_fit = lambda h: self.h_from_V(h, 'brenth')
        self.c_backward = Chebfun.from_function(np.vectorize(to_fit), [0.0, self.V_total], N=deg_backwards).coefficients().tolist()
        self.h_from_V_cheb = lambda x: chebval((2.0 * x - self.V_total) / self.V_total, self.c_backward)
        self.chebyshev = True

    def _V_solver_error(self, Vtarget: int, D: float, L: float, horizontal: bool, sideA: str | None, sideB: str | None, sideA_a: float | None, sideB_a: float | None, sideA_f: float | None, sideA_k: float | None, sideB_f: float | None, sideB_k: float | None, sideA_a_ratio: float | None, sideB_a_ratio: float | None) -> float:
        a = TANK(D=float(D), L=float(L), horizontal=horizontal, sideA=sideA, sideB=sideB, sideA_a=sideA_a, sideB_a=sideB_a, sideA_f=sideA_f, sideA_k=sideA_k, sideB_f=sideB_f, sideB_k=sideB_k, sideA_a_ratio=sideA_a_ratio, sideB_a_ratio=sideB_a_ratio)
        error = Vtarget - a.V_total
        return error

    def _solve_tank_for_V(self) -> None:
        if self.L and (self.sideA_a or self.sideB_a):
            raise ValueError('Cannot specify head sizes when solving for V')
        if self.D and self.L or (self.D and self.L_over_D) or (self.L and self.L_over_D):
            raise ValueError('Only one of D, L, or L_over_D can be specified            when solving for V')
        if self.sideA is not None and (self.sideA_a_ratio is None and self.sideA_a is None) and (self.sideA != 'torispherical') or (self.sideB is not None and (self.sideB_a_ratio is None and self.sideB_a is None) and (self.sideB != 'torispherical')):
            raise ValueError('When heads are specified, head parameter ratios are required')
        if self.D:
            solve_L = lambda L: self._V_solver_error(self.V, self.D, L, self.horizontal, self.sideA, self.sideB, self.sideA_a, self.sideB_a, self.sideA_f, self.sideA_k, self.sideB_f, self.sideB_k, self.sideA_a_ratio, self.sideB_a_ratio)
            Lguess = self.V / (pi / 4 * self.D ** 2)
            self.L = float(secant(solve_L, Lguess, xtol=1e-13))
        elif self.L:
            solve_D = lambda D: self._V_solver_error(self.V, D, self.L, self.horizontal, self.sideA, self.sideB, self.sideA_a, self.sideB_a, self.sideA_f, self.sideA_k, self.sideB_f, self.sideB_k, self.sideA_a_ratio, self.sideB_a_ratio)
            Dguess = sqrt(4 * self.V / pi / self.L)
            self.D = float(secant(solve_D, Dguess, xtol=1e-13))
        else:
            Lguess = (4 * self.V * self.L_over_D ** 2 / pi) ** (1 / 3.0)
            solve_L_D = lambda L: self._V_solver_error(self.V, L / self.L_over_D, L, self.horizontal, self.sideA, self.sideB, self.sideA_a, self.sideB_a, self.sideA_f, self.sideA_k, self.sideB_f, self.sideB_k, self.sideA_a_ratio, self.sideB_a_ratio)
            self.L = float(secant(solve_L_D, Lguess, xtol=1e-13))
            self.D = self.L / self.L_over_D

class HelicalCoil:

    def __repr__(self):
        s = f'<Helical coil, total height={self.H_total} m, total outer diameter={self.Do_total} m, tube outer diameter={self.Dt} m, number of turns={self.N}, pitch={self.pitch} m'
        if self.Di:
            s += f', inside diameter {self.Di} m'
        s += '>'
        return s

    def __init__(self, Dt: float, Do: float | None=None, pitch: float | None=None, H: float | None=None, N: float | None=None, H_total: float | None=None, Do_total: float | None=None, Di: float | None=None) -> None:
        if H_total is not None:
            H = H_total - Dt
        if Do_total is not None:
            Do = Do_total - Dt
        if Do is not None:
            Do_final: float = Do
        else:
            raise ValueError('Either `Do` or `Do_total` must be specified')
        self.Do = Do_final
        self.Dt = Dt
        self.Do_total = self.Do + self.Dt
        if N is not None and pitch is not None:
            N_final: float = N
            pitch_final: float = pitch
            H_final: float = N * pitch
            if pitch_final < self.Dt:
                raise ValueError('Pitch is too small - tubes are colliding; pitch must be larger than tube diameter.')
        elif N is not None and H is not None:
            N_final = N
            H_final = H
            pitch_final = H / N
            if pitch_final < self.Dt:
                raise ValueError('Pitch is too small - tubes are colliding')
        elif H is not None and pitch is not None:
            pitch_final = pitch
            H_final = H
            N_final = H / pitch
            if pitch_final < self.Dt:
                raise ValueError('Pitch is too small - tubes are colliding; pitch must be larger than tube diameter.')
        else:
            raise ValueError('Must specify two of: N, pitch, or H')
        self.N = N_final
        self.pitch = pitch_final
        self.H = H_final
        self.H_total = self.Dt + self.H
        if self.Dt > self.Do:
            raise ValueError('Tube diameter is larger than helix outer diameter - not feasible.')
        self.tube_circumference = pi * self.Do
        self.tube_length = sqrt((self.tube_circumference * self.N) ** 2 + self.H ** 2)
        self.surface_area = self.tube_length * pi * self.Dt
        self.helix_angle = atan(self.pitch / (pi * self.Do))
        self.curvature = self.Dt / self.Do / (1.0 + 4 * pi ** 2 * tan(self.helix_angle) ** 2)
        self.total_inlet_area = pi / 4.0 * self.Dt ** 2
        self.total_volume = self.total_inlet_area * self.tube_length
        if Di is not None:
            self.Di = Di
            self.inner_surface_area = self.tube_length * pi * self.Di
            self.inlet_area = pi / 4.0 * self.Di ** 2
            self.inner_volume = self.inlet_area * self.tube_length
            self.annulus_area = self.total_inlet_area - self.inlet_area
            self.annulus_volume = self.total_volume - self.inner_volume

def plate_enlargement_factor(amplitude: float, wavelength: float) -> float:
    b = 2.0 * amplitude
    return 2.0 * float(ellipe(-b * b * pi * pi / (wavelength * wavelength))) / pi

class PlateExchanger:

    def __repr__(self):
        s = '<Plate heat exchanger, amplitude={:g} m, wavelength={:g} m, chevron_angles={} degrees, area enhancement factor={:g}'.format(self.a, self.wavelength, '/'.join([str(i) for i in self.chevron_angles]), self.plate_enlargement_factor)
        if self.width and self.length:
            s += f', width={self.width:g} m, length={self.length:g} m'
        if self.d_port:
            s += f', port diameter={self.d_port:g} m'
        if self.plates and self.width and self.length:
            s += f', heat transfer area={self.A_heat_transfer:g} m^2, {self.plates:g} plates>'
        else:
            s += '>'
        return s

    @property
    def plate_exchanger_identifier(self) -> str:
        wave_rounded = round(self.wavelength * 1000, 2)
        amplitude_rounded = round(self.amplitude * 1000, 2)
        a1 = self.chevron_angles[0]
        a2 = self.chevron_angles[1]
        s = f'L{wave_rounded}A{amplitude_rounded}B{a1}-{a2}'
        return s

    def __init__(self, amplitude: float, wavelength: float, chevron_angle: int=45, chevron_angles: tuple[int, int] | None=None, width: float | None=None, length: float | None=None, thickness: None=None, d_port: float | None=None, plates: int | None=None) -> None:
        self.amplitude = self.a = amplitude
        self.b = 2 * self.amplitude
        self.wavelength = self.pitch = wavelength
        if chevron_angles is not None:
            self.chevron_angles = chevron_angles
            self.chevron_angle = self.beta = 0.5 * (chevron_angles[0] + chevron_angles[1])
        else:
            self.chevron_angle = self.beta = chevron_angle
            self.chevron_angles = (chevron_angle, chevron_angle)
        self.inclination_angle = 90 - self.chevron_angle
        self.plate_corrugation_aspect_ratio = self.gamma = 4 * self.a / self.wavelength
        self.plate_enlargement_factor = plate_enlargement_factor(self.amplitude, self.wavelength)
        self.D_eq = 4 * self.amplitude
        self.D_hydraulic = 4 * self.amplitude / self.plate_enlargement_factor
        self.width = width
        self.length = length
        self.thickness = thickness
        self.d_port = d_port
        self.plates = plates
        if d_port is not None and length is not None:
            self.length_port = length + d_port
        if width is not None and length is not None:
            self.A_plate_surface = length * width * self.plate_enlargement_factor
            if plates is not None:
                self.A_heat_transfer = (plates - 2) * self.A_plate_surface
        if width is not None:
            self.A_channel_flow = self.width * self.b
        if plates is not None:
            self.channels = self.plates - 1
            self.channels_per_fluid = 0.5 * self.channels

class RectangularFinExchanger:

    def __init__(self, fin_height: float, fin_thickness: float, fin_spacing: float, length: float | None=None, width: float | None=None, layers: int | None=None, plate_thickness: float | None=None, flow: str='crossflow') -> None:
        self.h = self.fin_height = fin_height
        self.t = self.fin_thickness = fin_thickness
        self.s = self.fin_spacing = fin_spacing
        self.L = self.length = length
        self.W = self.width = width
        self.layers = layers
        self.flow = flow
        self.plate_thickness = plate_thickness
        self.channel_height = self.fin_height - self.fin_thickness
        self.channel_width = self.fin_spacing - self.fin_thickness
        self.fin_count = 1.0 / self.fin_spacing
        self.blockage_ratio = (self.s * self.h - self.s * self.t - (self.h - self.t) * self.t) / (self.s * self.h)
        self.A_channel = (self.s - self.t) * (self.h - self.t)
        self.P_channel = 2 * (self.s - self.t) + 2 * (self.h - self.t)
        self.Dh = 4 * self.A_channel / self.P_channel
        self.set_overall_geometry()

    def set_overall_geometry(self) -> None:
        if self.plate_thickness:
            self.layer_thickness = self.plate_thickness + self.fin_height
        if self.length and self.width:
            self.layer_fin_count = round(self.fin_count * self.width, 0)
            if hasattr(self, 'SA_fin'):
                self.A_HX_layer = self.layer_fin_count * self.SA_fin * self.length
            else:
                self.A_HX_layer = self.P_channel * self.length * self.layer_fin_count
            if self.layers:
                self.A_HX = self.layers * self.A_HX_layer
                if self.plate_thickness:
                    self.height = self.layer_thickness * self.layers + self.plate_thickness
                    self.volume = self.length * self.width * self.height
                    self.A_specific_HX = self.A_HX / self.volume

class RectangularOffsetStripFinExchanger(RectangularFinExchanger):

    def __init__(self, fin_length: float, fin_height: float, fin_thickness: float, fin_spacing: float, length: None=None, width: None=None, layers: None=None, plate_thickness: None=None, flow: str='crossflow') -> None:
        self.l = self.fin_length = fin_length
        self.h = self.fin_height = fin_height
        self.t = self.fin_thickness = fin_thickness
        self.s = self.fin_spacing = fin_spacing
        self.blockage_ratio = self.omega = 2 * self.t / self.s * (1.0 - self.t / self.h) + self.t / self.h * (1 - 2 * self.t / self.s)
        self.blockage_ratio_Kim = self.t / self.h + self.t / self.s - self.t ** 2 / (self.h * self.s)
        self.alpha = self.s / self.h
        self.delta = self.t / self.l
        self.gamma = self.t / self.s
        self.A_channel = (self.h - self.t) * (self.s - self.t)
        self.A = 2.0 * (self.l * (self.h - self.t) + self.l * (self.s - self.t) + self.t * (self.h - self.t)) + self.t * (self.s - 2 * self.t)
        self.Dh = 4.0 * self.l * self.A_channel / self.A
        self.P_channel = 2 * (self.s - self.t) + 2 * (self.h - self.t)
        self.Dh_Kays_London = 4 * self.A_channel / (2 * (self.h - self.t) + 2 * (self.s - self.t))
        self.Dh_Joshi_Webb = 2 * self.l * (self.h - self.t) * (self.s - 2 * self.t) / (self.l * (self.h - self.t) + self.l * (self.s - self.t) + self.t * (self.h - self.t))
        self.L = self.length = length
        self.W = self.width = width
        self.layers = layers
        self.flow = flow
        self.plate_thickness = plate_thickness
        self.fin_count = 1.0 / self.fin_spacing
        self.set_overall_geometry()

class HyperbolicCoolingTower:

    def __repr__(self):
        s = '<Hyperbolic cooling tower, inlet diameter=%g m, outlet diameter=%g m, inlet height=%g m, outlet height=%g m, throat diameter=%g m, throat height=%g m, base diameter=%g m>'
        s = s % (self.D_inlet, self.D_outlet, self.H_inlet, self.H_outlet, self.D_throat, self.H_throat, self.D_base)
        return s

    def __init__(self, H_inlet, D_outlet, H_outlet, D_inlet=None, D_base=None, D_throat=None, H_throat=None, H_support=None, D_support=None, n_support=None, inlet_rounding=None):
        self.D_outlet = D_outlet
        self.H_inlet = H_inlet
        self.H_outlet = H_outlet
        if H_throat is None:
            H_throat = 2 / 3.0 * H_outlet
        self.H_throat = H_throat
        if D_throat is None:
            if D_inlet is not None:
                D_throat = 0.63 * D_inlet
            else:
                raise ValueError('Provide either `D_throat`, or `D_inlet` so it may be estimated.')
        self.D_throat = D_throat
        if D_inlet is None and D_base is None:
            raise ValueError('Need `D_inlet` or `D_base`')
        if D_base is not None:
            b = self.D_throat * self.H_throat / sqrt(D_base ** 2 - self.D_throat ** 2)
            D_inlet = 2 * self.D_throat * sqrt((self.H_throat - H_inlet) ** 2 + b ** 2) / (2 * b)
        elif D_inlet is not None:
            b = self.D_throat * (self.H_throat - H_inlet) / sqrt(D_inlet ** 2 - self.D_throat ** 2)
            D_base = 2 * self.D_throat * sqrt(self.H_throat ** 2 + b ** 2) / (2 * b)
        self.D_inlet = D_inlet
        self.D_base = D_base
        self.b_lower = b
        self.b_upper = self.D_throat * (self.H_outlet - self.H_throat) / sqrt(self.D_outlet ** 2 - self.D_throat ** 2)
        self.H_support = H_support
        self.D_support = D_support
        self.n_support = n_support
        self.inlet_rounding = inlet_rounding

    def plot(self, pts=100):
        import matplotlib.pyplot as plt
        Zs = linspace(0, self.H_outlet, pts)
        Rs = [self.diameter(Z) * 0.5 for Z in Zs]
        plt.plot(Zs, Rs)
        plt.plot(Zs, [-v for v in Rs])
        plt.show()

    def diameter(self, H):
        if H <= self.H_throat:
            H = self.H_throat - H
            b = self.b_lower
        else:
            H = H - self.H_throat
            b = self.b_upper
        R = self.D_throat * sqrt(H * H + b * b) / (2.0 * b)
        return R * 2.0

class AirCooledExchanger:

    def __repr__(self):
        attributes = ', '.join((f'{slot}={getattr(self, slot)!r}' for slot in self.model_inputs))
        return f'{self.__class__.__name__}({attributes})'

    def __hash__(self):
        return hash(tuple((getattr(self, slot) for slot in self.model_inputs)))
    model_inputs = ('tube_rows', 'tube_passes', 'tubes_per_row', 'tube_length', 'tube_diameter', 'fin_thickness', 'angle', 'pitch', 'pitch_parallel', 'pitch_normal', 'fin_diameter', 'fin_height', 'fin_density', 'fin_interval', 'parallel_bays', 'bundles_per_bay', 'fans_per_bay', 'corbels', 'tube_thickness', 'fan_diameter')

    def __init__(self, tube_rows: int, tube_passes: int, tubes_per_row: int, tube_length: float, tube_diameter: float, fin_thickness: float, angle: float | None=None, pitch: float | None=None, pitch_parallel: float | None=None, pitch_normal: float | None=None, pitch_ratio: float | None=None, fin_diameter: float | None=None, fin_height: float | None=None, fin_density: float | None=None, fin_interval: float | None=None, parallel_bays: int=1, bundles_per_bay: int=1, fans_per_bay: int=1, corbels: bool=False, tube_thickness: float | None=None, fan_diameter: float | None=None) -> None:
        self.tube_rows = tube_rows
        self.tube_passes = tube_passes
        self.tubes_per_row = tubes_per_row
        self.tube_length = tube_length
        self.tube_diameter = tube_diameter
        self.fin_thickness = fin_thickness
        self.fan_diameter = fan_diameter
        if pitch_ratio is not None:
            if pitch is None:
                pitch = self.tube_diameter * pitch_ratio
            else:
                raise ValueError('Specify only one of `pitch_ratio` or `pitch`')
        angle, pitch, pitch_parallel, pitch_normal = pitch_angle_solver(angle=angle, pitch=pitch, pitch_parallel=pitch_parallel, pitch_normal=pitch_normal)
        self.angle = angle
        self.pitch = pitch
        self.pitch_ratio = pitch / self.tube_diameter
        self.pitch_parallel = pitch_parallel
        self.pitch_normal = pitch_normal
        self.pitch_diagonal = sqrt(pitch_parallel ** 2 + (0.5 * pitch_normal) ** 2)
        if fin_diameter is None and fin_height is None:
            raise ValueError('Specify only one of `fin_diameter` or `fin_height`')
        elif fin_diameter is not None:
            fin_height = 0.5 * (fin_diameter - tube_diameter)
            fin_diameter_final: float = fin_diameter
            fin_height_final: float = fin_height
        elif fin_height is not None:
            fin_diameter_final = tube_diameter + 2.0 * fin_height
            fin_height_final = fin_height
        else:
            raise ValueError('This should never happen')
        self.fin_height = fin_height_final
        self.fin_diameter = fin_diameter_final
        if fin_density is None and fin_interval is None:
            raise ValueError('Specify only one of `fin_density` or `fin_interval`')
        elif fin_density is not None:
            fin_interval = 1.0 / fin_density
            fin_density_final: float = fin_density
            fin_interval_final: float = fin_interval
        elif fin_interval is not None:
            fin_density_final = 1.0 / fin_interval
            fin_interval_final = fin_interval
        else:
            raise ValueError('This should never happen')
        self.fin_interval = fin_interval_final
        self.fin_density = fin_density_final
        self.parallel_bays = parallel_bays
        self.bundles_per_bay = bundles_per_bay
        self.fans_per_bay = fans_per_bay
        self.corbels = corbels
        self.tube_thickness = tube_thickness
        self.bare_length: float | None
        if self.fin_interval:
            self.bare_length = self.fin_interval - self.fin_thickness
        else:
            self.bare_length = None
        self.tubes_per_bundle = self.tubes_per_row * self.tube_rows
        self.tubes_per_bay = self.tubes_per_bundle * self.bundles_per_bay
        self.tubes = self.tubes_per_bay * self.parallel_bays
        self.A_bare_tube_per_tube = pi * self.tube_diameter * self.tube_length
        self.A_bare_tube_per_row = self.A_bare_tube_per_tube * self.tubes_per_row
        self.A_bare_tube_per_bundle = self.A_bare_tube_per_tube * self.tubes_per_bundle
        self.A_bare_tube_per_bay = self.A_bare_tube_per_tube * self.tubes_per_bay
        self.A_bare_tube = self.A_bare_tube_per_tube * self.tubes
        self.A_tube_showing_per_tube = pi * self.tube_diameter * self.tube_length * (1.0 - self.fin_thickness / self.fin_interval)
        self.A_tube_showing_per_row = self.A_tube_showing_per_tube * self.tubes_per_row
        self.A_tube_showing_per_bundle = self.A_tube_showing_per_tube * self.tubes_per_bundle
        self.A_tube_showing_per_bay = self.A_tube_showing_per_tube * self.tubes_per_bay
        self.A_tube_showing = self.A_tube_showing_per_tube * self.tubes
        self.A_per_fin = 2.0 * pi / 4.0 * (self.fin_diameter ** 2 - self.tube_diameter ** 2) + pi * self.fin_diameter * self.fin_thickness
        self.A_fin_per_tube = self.fin_density * self.tube_length * self.A_per_fin
        self.A_fin_per_row = self.A_fin_per_tube * self.tubes_per_row
        self.A_fin_per_bundle = self.A_fin_per_tube * self.tubes_per_bundle
        self.A_fin_per_bay = self.A_fin_per_tube * self.tubes_per_bay
        self.A_fin = self.A_fin_per_tube * self.tubes
        self.A_per_tube = self.A_tube_showing_per_tube + self.A_fin_per_tube
        self.A_per_row = self.A_tube_showing_per_row + self.A_fin_per_row
        self.A_per_bundle = self.A_tube_showing_per_bundle + self.A_fin_per_bundle
        self.A_per_bay = self.A_tube_showing_per_bay + self.A_fin_per_bay
        self.A = self.A_tube_showing + self.A_fin
        self.A_increase = self.A / self.A_bare_tube
        A_extra = 0.0
        self.A_diagonal_per_bundle = 2.0 * self.tubes_per_row * self.tube_length * (self.pitch_diagonal - self.tube_diameter - 2.0 * self.fin_density * self.fin_height * self.fin_thickness) + A_extra
        self.A_normal_per_bundle = self.tubes_per_row * self.tube_length * (self.pitch_normal - self.tube_diameter - 2.0 * self.fin_density * self.fin_height * self.fin_thickness) + A_extra
        self.A_min_per_bundle = min(self.A_diagonal_per_bundle, self.A_normal_per_bundle)
        self.A_min_per_bay = self.A_min_per_bundle * self.bundles_per_bay
        self.A_min = self.A_min_per_bay * self.parallel_bays
        i = 0.5 if self.corbels else 1.0
        self.A_face_per_bundle = self.pitch_normal * self.tube_length * (self.tubes_per_row + i)
        self.A_face_per_bay = self.A_face_per_bundle * self.bundles_per_bay
        self.A_face = self.A_face_per_bay * self.parallel_bays
        self.flow_area_contraction_ratio = self.A_min / self.A_face
        self.Di: float | None
        self.A_tube_flow: float | None
        self.A_tube_flow_per_row: float | None
        self.A_tube_flow_per_bundle: float | None
        self.A_tube_flow_per_bay: float | None
        self.A_tube_flow_total: float | None
        self.tube_volume_per_tube: float | None
        self.tube_volume_per_row: float | None
        self.tube_volume_per_bundle: float | None
        self.tube_volume_per_bay: float | None
        self.tube_volume: float | None
        if self.tube_thickness is not None:
            self.Di = self.tube_diameter - self.tube_thickness * 2.0
            self.A_tube_flow = pi / 4.0 * self.Di * self.Di
            self.A_tube_flow_per_row = self.A_tube_flow * self.tubes_per_row
            self.A_tube_flow_per_bundle = self.A_tube_flow * self.tubes_per_bundle
            self.A_tube_flow_per_bay = self.A_tube_flow * self.tubes_per_bay
            self.A_tube_flow_total = self.A_tube_flow * self.tubes
            self.tube_volume_per_tube = self.A_tube_flow * self.tube_length
            self.tube_volume_per_row = self.tube_volume_per_tube * self.tubes_per_row
            self.tube_volume_per_bundle = self.tube_volume_per_tube * self.tubes_per_bundle
            self.tube_volume_per_bay = self.tube_volume_per_tube * self.tubes_per_bay
            self.tube_volume = self.tube_volume_per_tube * self.tubes
        else:
            self.Di = None
            self.A_tube_flow = None
            self.A_tube_flow_per_row = None
            self.A_tube_flow_per_bundle = None
            self.A_tube_flow_per_bay = None
            self.A_tube_flow_total = None
            self.tube_volume_per_tube = None
            self.tube_volume_per_row = None
            self.tube_volume_per_bundle = None
            self.tube_volume_per_bay = None
            self.tube_volume = None
        if self.tube_rows % self.tube_passes == 0:
            self.channels = self.tubes_per_bundle / self.tube_passes
        else:
            self.channels = self.tubes_per_row
        if self.angle == 30:
            self.pitch_str = 'triangular'
            self.pitch_class = 'staggered'
        elif self.angle == 60:
            self.pitch_str = 'rotated triangular'
            self.pitch_class = 'staggered'
        elif self.angle == 45:
            self.pitch_str = 'rotated square'
            self.pitch_class = 'in-line'
        elif self.angle == 90:
            self.pitch_str = 'square'
            self.pitch_class = 'in-line'
        else:
            self.pitch_str = 'custom'
            self.pitch_class = 'custom'

def pitch_angle_solver(angle: float | None=None, pitch: float | None=None, pitch_parallel: float | None=None, pitch_normal: float | None=None) -> tuple[float, float, float, float] | tuple[int, float, float, float]:
    if angle is not None and pitch is not None:
        pitch_normal = pitch * sin(radians(angle))
        pitch_parallel = pitch * cos(radians(angle))
    elif angle is not None and pitch_normal is not None:
        pitch = pitch_normal / sin(radians(angle))
        pitch_parallel = pitch * cos(radians(angle))
    elif angle is not None and pitch_parallel is not None:
        pitch = pitch_parallel / cos(radians(angle))
        pitch_normal = pitch * sin(radians(angle))
    elif pitch_normal is not None and pitch is not None:
        angle = degrees(asin(pitch_normal / pitch))
        pitch_parallel = pitch * cos(radians(angle))
    elif pitch_parallel is not None and pitch is not None:
        angle = degrees(acos(pitch_parallel / pitch))
        pitch_normal = pitch * sin(radians(angle))
    elif pitch_parallel is not None and pitch_normal is not None:
        angle = degrees(asin(pitch_normal / sqrt(pitch_normal ** 2 + pitch_parallel ** 2)))
        pitch = sqrt(pitch_normal ** 2 + pitch_parallel ** 2)
    else:
        raise ValueError('Two of the arguments are required')
    return (angle, pitch, pitch_parallel, pitch_normal)

def sphericity(A: float, V: float) -> float:
    return pi ** (1 / 3.0) * (6 * V) ** (2 / 3.0) / A

def aspect_ratio(Dmin: float, Dmax: float) -> float:
    return Dmin / Dmax

def circularity(A: float, P: float) -> float:
    return 4 * pi * A / P ** 2

def A_cylinder(D: float, L: float) -> float:
    cap = pi * D ** 2 / 4 * 2
    side = pi * D * L
    return cap + side

def V_cylinder(D: float, L: float) -> float:
    return pi * D ** 2 / 4 * L

def A_hollow_cylinder(Di: float, Do: float, L: float) -> float:
    side_o = pi * Do * L
    side_i = pi * Di * L
    cap_circle = pi * Do ** 2 / 4 * 2
    cap_removed = pi * Di ** 2 / 4 * 2
    return side_o + side_i + cap_circle - cap_removed

def V_hollow_cylinder(Di: float, Do: float, L: float) -> float:
    return pi * Do ** 2 / 4 * L - pi * Di ** 2 / 4 * L

def A_multiple_hole_cylinder(Do: float, L: float, holes: list[tuple[float, int]]) -> float:
    side_o = pi * Do * L
    cap_circle = pi * Do ** 2 / 4 * 2
    A = cap_circle + side_o
    for Di, n in holes:
        side_i = pi * Di * L
        cap_removed = pi * Di ** 2 / 4 * 2
        A = A + side_i * n - cap_removed * n
    return A

def V_multiple_hole_cylinder(Do: float, L: float, holes: list[tuple[float, int]]) -> float:
    V = pi * Do ** 2 / 4 * L
    for Di, n in holes:
        V -= pi * Di * Di / 4 * L * n
    return V
