from __future__ import annotations
from math import exp, log, sqrt
from rfluids.constants import foot, g, psi
from rfluids.numerics import implementation_optimize_tck, splev
__all__: list[str] = ['K_Souders_Brown_theoretical', 'K_Sounders_Brown_theoretical', 'K_separator_Watkins', 'K_separator_demister_York', 'v_Souders_Brown', 'v_Sounders_Brown']
tck_Watkins = implementation_optimize_tck([[-5.115995809754082, -5.115995809754082, -5.115995809754082, -5.115995809754082, -4.160106231099973, -3.209113630523477, -1.2175106961204154, 0.4587657198189318, 1.1197669427405068, 1.6925908552310418, 1.6925908552310418, 1.6925908552310418, 1.6925908552310418], [-1.4404286048266364, -1.2375168139385286, -0.9072614905522024, -0.7662335745829165, -0.944537665617708, -1.957339717378027, -3.002614318094637, -3.5936804378352956, -3.8779153181940553, 0.0, 0.0, 0.0, 0.0], 3])

def K_separator_Watkins(x: float, rhol: float, rhog: float, horizontal: bool=False, method: str='spline') -> float:
    factor = (1.0 - x) / x * sqrt(rhog / rhol)
    if method == 'spline':
        K = exp(float(splev(log(factor), tck_Watkins)))
    elif method == 'blackwell':
        X = log(factor)
        A = -1.877478097
        B = -0.81145804597
        C = -0.1870744085
        D = -0.0145228667
        E = -0.00101148518
        K = exp(A + X * (B + X * (C + X * (D + E * X))))
    elif method == 'branan':
        X = log(factor)
        A = -1.942936
        B = -0.814894
        C = -0.17939
        D = -0.012379
        E = 0.000386235
        F = 0.00025955
        K = exp(A + X * (B + X * (C + X * (D + X * (E + F * X)))))
    else:
        raise ValueError("Only methods 'spline', 'branan', and 'blackwell' are supported.")
    K *= foot
    if horizontal:
        K *= 1.25
    return K

def K_separator_demister_York(P: float, horizontal: bool=False) -> float:
    P = P / psi
    if P < 15:
        if P < 1:
            P = 1
        K = 0.1821 + 0.0029 * P + 0.046 * log(P)
    elif P < 40:
        K = 0.35
    else:
        if P > 5500:
            P = 5500
        K = 0.43 - 0.023 * log(P)
    K *= foot
    if horizontal:
        K *= 1.25
    return K

def v_Souders_Brown(K: float, rhol: float, rhog: float) -> float:
    return K * sqrt((rhol - rhog) / rhog)

def K_Souders_Brown_theoretical(D: float, Cd: float, g: float=g) -> float:
    return sqrt(4.0 / 3.0 * g * D / Cd)
v_Sounders_Brown = v_Souders_Brown
K_Sounders_Brown_theoretical = K_Souders_Brown_theoretical
