from __future__ import annotations
from math import sqrt
from rfluids.constants import g, pi
__all__: list[str] = ['Geldart_Ling', 'Matsumoto_1974', 'Matsumoto_1975', 'Matsumoto_1977', 'Rizk', 'Schade', 'Weber_saltation']

def Rizk(mp: float, dp: float, rhog: float, D: float) -> float:
    alpha = 1440.0 * dp + 1.96
    beta = 1100.0 * dp + 2.5
    term1 = 0.1 ** alpha
    Frs_sorta = 1.0 / sqrt(g * D)
    expression1 = term1 * Frs_sorta ** beta
    expression2 = mp / rhog / (pi / 4 * D * D)
    return (expression2 / expression1) ** (1.0 / (1.0 + beta))

def Matsumoto_1974(mp: float, rhop: float, dp: float, rhog: float, D: float, Vterminal: float=1) -> float:
    A = pi / 4 * D ** 2
    Frp = Vterminal / sqrt(g * dp)
    Frs_sorta = 1.0 / sqrt(g * D)
    expression1 = 0.448 * sqrt(rhop / rhog) * (Frp / 10.0) ** (-1.75) * (Frs_sorta / 10.0) ** 3
    expression2 = mp / rhog / A
    return (expression2 / expression1) ** (1 / 4.0)

def Matsumoto_1975(mp: float, rhop: float, dp: float, rhog: float, D: float, Vterminal: float=1) -> float:
    A = pi / 4 * D ** 2
    Frp = Vterminal / sqrt(g * dp)
    Frs_sorta = 1.0 / sqrt(g * D)
    expression1 = 1.11 * (rhop / rhog) ** 0.55 * (Frp / 10.0) ** (-2.3) * (Frs_sorta / 10.0) ** 3
    expression2 = mp / rhog / A
    return (expression2 / expression1) ** (1 / 4.0)

def Matsumoto_1977(mp: float, rhop: float, dp: float, rhog: float, D: float, Vterminal: float=1) -> float:
    limit = 1.39 * D * (rhop / rhog) ** (-0.74)
    A = pi / 4 * D ** 2
    if limit < dp:
        Frp = Vterminal / sqrt(g * dp)
        Frs_sorta = 1.0 / sqrt(g * D)
        expression1 = 0.373 * (rhop / rhog) ** 1.06 * (Frp / 10.0) ** (-3.7) * (Frs_sorta / 10.0) ** 3.61
        expression2 = mp / rhog / A
        return (expression2 / expression1) ** (1 / 4.61)
    else:
        Frs_sorta = 1.0 / sqrt(g * D)
        expression1 = 5560 * (dp / D) ** 1.43 * (Frs_sorta / 10.0) ** 4
        expression2 = mp / rhog / A
        return (expression2 / expression1) ** 0.2

def Schade(mp: float, rhop: float, dp: float, rhog: float, D: float) -> float:
    B = (D / dp) ** 0.025 * (rhop / rhog) ** 0.34
    A = sqrt(g * D)
    C = mp / (rhog * pi / 4 * D ** 2)
    return (C ** 0.11 * B * A) ** (1 / 1.11)

def Weber_saltation(mp: float, rhop: float, dp: float, rhog: float, D: float, Vterminal: float=4) -> float:
    if Vterminal <= 3:
        term1 = (7 + 8 / 3.0 * Vterminal) * (dp / D) ** 0.1
    else:
        term1 = 15.0 * (dp / D) ** 0.1
    term2 = 1.0 / sqrt(g * D)
    term3 = mp / rhog / (pi / 4 * D ** 2)
    return (term1 / term2 * sqrt(sqrt(term3))) ** (1 / 1.25)

def Geldart_Ling(mp: float, rhog: float, D: float, mug: float) -> float:
    Gs = mp / (0.25 * pi * D * D)
    if Gs / D <= 47000.0:
        return 1.5 * Gs ** 0.465 * D ** (-0.01) * mug ** 0.055 * rhog ** (-0.42)
    else:
        return 8.7 * Gs ** 0.302 * D ** 0.153 * mug ** 0.055 * rhog ** (-0.42)
