from __future__ import annotations
from math import cos, exp, log, pi, radians, sin, sqrt
from rfluids.constants import g
from rfluids.core import Froude
__all__: list[str] = ['Armand', 'Baroczy', 'Beattie_Whalley', 'Chisholm_Armand', 'Chisholm_voidage', 'Cicchitti', 'Dix', 'Domanski_Didion', 'Duckler', 'Fauske', 'Fourar_Bories', 'Graham', 'Gregory_Scott', 'Guzhov', 'Harms', 'Huq_Loth', 'Kawahara', 'Kopte_Newell_Chato', 'Lin_Kwok', 'Lockhart_Martinelli_Xtt', 'McAdams', 'Nicklin_Wilkes_Davidson', 'Nishino_Yamazaki', 'Rouhani_1', 'Rouhani_2', 'Smith', 'Steiner', 'Sun_Duffey_Peng', 'Tandon_Varma_Gupta', 'Thom', 'Turner_Wallis', 'Woldesemayat_Ghajar', 'Xu_Fang_voidage', 'Yashar', 'Zivi', 'density_two_phase', 'gas_liquid_viscosity', 'gas_liquid_viscosity_methods', 'homogeneous', 'liquid_gas_viscosity_correlations', 'liquid_gas_voidage', 'liquid_gas_voidage_methods', 'two_phase_voidage_correlations', 'two_phase_voidage_experimental']

def Thom(x: float, rhol: float, rhog: float, mul: float, mug: float) -> float:
    return 1.0 / (1.0 + (1.0 - x) / x * (rhog / rhol) ** 0.89 * (mul / mug) ** 0.18)

def Zivi(x: float, rhol: float, rhog: float) -> float:
    return 1.0 / (1.0 + (1.0 - x) / x * (rhog / rhol) ** (2 / 3.0))

def Smith(x: float, rhol: float, rhog: float) -> float:
    K = 0.4
    x_ratio = (1.0 - x) / x
    root = sqrt((rhol / rhog + K * x_ratio) / (1.0 + K * x_ratio))
    alpha = 1.0 / (1.0 + x_ratio * (rhog / rhol) * (K + (1.0 - K) * root))
    return alpha

def Fauske(x: float, rhol: float, rhog: float) -> float:
    return 1.0 / (1.0 + (1.0 - x) / x * sqrt(rhog / rhol))

def Chisholm_voidage(x: float, rhol: float, rhog: float) -> float:
    S = sqrt(1.0 - x * (1.0 - rhol / rhog))
    alpha = 1.0 / (1.0 + (1.0 - x) / x * rhog / rhol * S)
    return alpha

def Turner_Wallis(x: float, rhol: float, rhog: float, mul: float, mug: float) -> float:
    return 1.0 / (1.0 + ((1.0 - x) / x) ** 0.72 * (rhog / rhol) ** 0.4 * (mul / mug) ** 0.08)

def homogeneous(x: float, rhol: float, rhog: float) -> float:
    if x == 1.0:
        return 1.0
    elif x == 0.0:
        return 0.0
    return 1.0 / (1.0 + (1.0 - x) / x * (rhog / rhol))

def Chisholm_Armand(x: float, rhol: float, rhog: float) -> float:
    alpha_h = homogeneous(x, rhol, rhog)
    return alpha_h / (alpha_h + sqrt(1.0 - alpha_h))

def Armand(x: float, rhol: float, rhog: float) -> float:
    return 0.833 * homogeneous(x, rhol, rhog)

def Nishino_Yamazaki(x: float, rhol: float, rhog: float) -> float:
    alpha_h = homogeneous(x, rhol, rhog)
    return 1.0 - sqrt((1.0 - x) * rhog / (x * rhol)) * sqrt(alpha_h)

def Guzhov(x: float, rhol: float, rhog: float, m: float, D: float) -> float:
    rho_tp = 1.0 / ((1 - x) / rhol + x / rhog)
    G = m / (0.25 * pi * D * D)
    V_tp = G / rho_tp
    Fr = Froude(V=V_tp, L=D, squared=True)
    alpha_h = homogeneous(x, rhol, rhog)
    return 0.81 * (1 - exp(-2.2 * sqrt(Fr))) * alpha_h

def Kawahara(x: float, rhol: float, rhog: float, D: float) -> float:
    if D > 0.00025:
        return Armand(x, rhol, rhog)
    elif D > 7.5e-05:
        C1, C2 = (0.03, 0.97)
    else:
        C1, C2 = (0.02, 0.98)
    alpha_h = homogeneous(x, rhol, rhog)
    return C1 * sqrt(alpha_h) / (1.0 - C2 * sqrt(alpha_h))

def Lockhart_Martinelli_Xtt(x: float, rhol: float, rhog: float, mul: float, mug: float, pow_x: float=0.9, pow_rho: float=0.5, pow_mu: float=0.1, n: float | None=None) -> float:
    if n is not None:
        pow_x = (2 - n) / 2.0
        pow_mu = n / 2.0
    return ((1.0 - x) / x) ** pow_x * (rhog / rhol) ** pow_rho * (mul / mug) ** pow_mu

def Baroczy(x: float, rhol: float, rhog: float, mul: float, mug: float) -> float:
    Xtt = Lockhart_Martinelli_Xtt(x, rhol, rhog, mul, mug, pow_x=0.74, pow_rho=0.65, pow_mu=0.13)
    return 1.0 / (1 + Xtt)

def Tandon_Varma_Gupta(x: float, rhol: float, rhog: float, mul: float, mug: float, m: float, D: float) -> float:
    G = m / (0.25 * pi * D * D)
    Rel = G * D / mul
    Xtt = Lockhart_Martinelli_Xtt(x, rhol, rhog, mul, mug)
    Fxtt = 0.15 * (1.0 / Xtt + 2.85 * Xtt ** (-0.476))
    if Rel < 1125.0:
        alpha = 1.0 - 1.928 * Rel ** (-0.315) / Fxtt + 0.9293 * Rel ** (-0.63) / (Fxtt * Fxtt)
    else:
        alpha = 1.0 - 0.38 * Rel ** (-0.088) / Fxtt + 0.0361 * Rel ** (-0.176) / (Fxtt * Fxtt)
    return alpha

def Harms(x: float, rhol: float, rhog: float, mul: float, mug: float, m: float, D: float) -> float:
    G = m / (0.25 * pi * D * D)
    Rel = G * D * (1.0 - x) / mul
    Xtt = Lockhart_Martinelli_Xtt(x, rhol, rhog, mul, mug)
    term = 1.74 + 0.104 * sqrt(Rel)
    return (1 - 10.06 * Rel ** (-0.875) * term * term * 1.0 / sqrt(1.376 + 7.242 * Xtt ** (-1.655))) ** 2

def Domanski_Didion(x: float, rhol: float, rhog: float, mul: float, mug: float) -> float:
    Xtt = Lockhart_Martinelli_Xtt(x, rhol, rhog, mul, mug)
    if Xtt < 10.0:
        return (1.0 + Xtt ** 0.8) ** (-0.378)
    else:
        return 0.823 - 0.157 * log(Xtt)

def Graham(x: float, rhol: float, rhog: float, mul: float, mug: float, m: float, D: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    Ft = sqrt(G * G * x * x * x / ((1.0 - x) * rhog * rhog * g * D))
    if Ft < 0.01032:
        return 0.0
    else:
        log_Ft = log(Ft)
        return 1.0 - exp(-1.0 - 0.3 * log_Ft - 0.0328 * log_Ft * log_Ft)

def Yashar(x: float, rhol: float, rhog: float, mul: float, mug: float, m: float, D: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    Ft = sqrt(G * G * x * x * x / ((1.0 - x) * rhog * rhog * g * D))
    Xtt = Lockhart_Martinelli_Xtt(x, rhol, rhog, mul, mug)
    return (1 + 1.0 / Ft + Xtt) ** (-0.321)

def Huq_Loth(x: float, rhol: float, rhog: float) -> float:
    term = 1.0 - x
    B = 2.0 * x * term
    D = sqrt(1.0 + 2.0 * B * (rhol / rhog - 1.0))
    return 1.0 - 2.0 * term * term / (1.0 - 2.0 * x + D)

def Kopte_Newell_Chato(x, rhol, rhog, m, D, g=g):
    G = m / (0.25 * pi * D * D)
    Ft = sqrt(G * G * x * x * x / ((1.0 - x) * rhog * rhog * g * D))
    if Ft < 0.044:
        return homogeneous(x, rhol, rhog)
    else:
        log_Ft = log(Ft)
        return 1.045 - exp(-1 - 0.342 * log_Ft - 0.0268 * log_Ft * log_Ft + 0.00597 * log_Ft * log_Ft * log_Ft)

def Steiner(x: float, rhol: float, rhog: float, sigma: float, m: float, D: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    C0 = 1.0 + 0.12 * (1.0 - x)
    vgm = 1.18 * (1.0 - x) / sqrt(rhol) * sqrt(sqrt(g * sigma * (rhol - rhog)))
    return x / (rhog * (C0 * (x / rhog + (1.0 - x) / rhol) + vgm / G))

def Rouhani_1(x: float, rhol: float, rhog: float, sigma: float, m: float, D: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    C0 = 1.0 + 0.2 * (1.0 - x)
    vgm = 1.18 * (1.0 - x) / sqrt(rhol) * sqrt(sqrt(g * sigma * (rhol - rhog)))
    return x / (rhog * (C0 * (x / rhog + (1.0 - x) / rhol) + vgm / G))

def Rouhani_2(x: float, rhol: float, rhog: float, sigma: float, m: float, D: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    C0 = 1.0 + 0.2 * (1.0 - x) * sqrt(sqrt(g * D)) * sqrt(rhol / G)
    vgm = 1.18 * (1.0 - x) / sqrt(rhol) * sqrt(sqrt(g * sigma * (rhol - rhog)))
    return x / (rhog * (C0 * (x / rhog + (1 - x) / rhol) + vgm / G))

def Nicklin_Wilkes_Davidson(x: float, rhol: float, rhog: float, m: float, D: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    C0 = 1.2
    vgm = 0.35 * sqrt(g * D)
    return x / (rhog * (C0 * (x / rhog + (1.0 - x) / rhol) + vgm / G))

def Gregory_Scott(x: float, rhol: float, rhog: float) -> float:
    C0 = 1.19
    return x / (rhog * (C0 * (x / rhog + (1.0 - x) / rhol)))

def Dix(x: float, rhol: float, rhog: float, sigma: float, m: float, D: float, g: float=g) -> float:
    A = 0.25 * pi * D * D
    vgs = m * x / (rhog * A)
    vls = m * (1.0 - x) / (rhol * A)
    G = m / A
    C0 = vgs / (vls + vgs) * (1.0 + (vls / vgs) ** (rhog / rhol) ** 0.1)
    vgm = 2.9 * sqrt(sqrt(g * sigma * (rhol - rhog) / (rhol * rhol)))
    return x / (rhog * (C0 * (x / rhog + (1.0 - x) / rhol) + vgm / G))

def Sun_Duffey_Peng(x: float, rhol: float, rhog: float, sigma: float, m: float, D: float, P: float, Pc: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    Pr = P / Pc if Pc is not None else 0.5
    C0 = 1.0 / (0.82 + 0.18 * Pr)
    vgm = 1.41 * sqrt(sqrt(g * sigma * (rhol - rhog) / (rhol * rhol)))
    return x / (rhog * (C0 * (x / rhog + (1.0 - x) / rhol) + vgm / G))

def Xu_Fang_voidage(x: float, rhol: float, rhog: float, m: float, D: float, g: float=g) -> float:
    G = m / (0.25 * pi * D * D)
    alpha_h = homogeneous(x, rhol, rhog)
    Frlo = G * G / (g * D * rhol * rhol)
    return 1.0 / (1.0 + (1.0 + 2.0 * Frlo ** (-0.2) * alpha_h ** 3.5) * ((1.0 - x) / x) * (rhog / rhol))

def Woldesemayat_Ghajar(x: float, rhol: float, rhog: float, sigma: float, m: float, D: float, P: float, angle: float=0, g: float=g) -> float:
    A = 0.25 * pi * D * D
    vgs = m * x / (rhog * A)
    vls = m * (1.0 - x) / (rhol * A)
    first = vgs * (1.0 + (vls / vgs) ** (rhog / rhol) ** 0.1)
    second = 2.9 * sqrt(sqrt(g * D * sigma * (1.0 + cos(radians(angle))) * (rhol - rhog) / (rhol * rhol)))
    if P is None:
        P = 101325.0
    third = (1.22 + 1.22 * sin(radians(angle))) ** (101325.0 / P)
    return vgs / (first + second * third)
two_phase_voidage_correlations = {'Thom': (Thom, ('x', 'rhol', 'rhog', 'mul', 'mug')), 'Zivi': (Zivi, ('x', 'rhol', 'rhog')), 'Smith': (Smith, ('x', 'rhol', 'rhog')), 'Fauske': (Fauske, ('x', 'rhol', 'rhog')), 'Chisholm_voidage': (Chisholm_voidage, ('x', 'rhol', 'rhog')), 'Turner Wallis': (Turner_Wallis, ('x', 'rhol', 'rhog', 'mul', 'mug')), 'homogeneous': (homogeneous, ('x', 'rhol', 'rhog')), 'Chisholm Armand': (Chisholm_Armand, ('x', 'rhol', 'rhog')), 'Armand': (Armand, ('x', 'rhol', 'rhog')), 'Nishino Yamazaki': (Nishino_Yamazaki, ('x', 'rhol', 'rhog')), 'Guzhov': (Guzhov, ('x', 'rhol', 'rhog', 'm', 'D')), 'Kawahara': (Kawahara, ('x', 'rhol', 'rhog', 'D')), 'Baroczy': (Baroczy, ('x', 'rhol', 'rhog', 'mul', 'mug')), 'Tandon Varma Gupta': (Tandon_Varma_Gupta, ('x', 'rhol', 'rhog', 'mul', 'mug', 'm', 'D')), 'Harms': (Harms, ('x', 'rhol', 'rhog', 'mul', 'mug', 'm', 'D')), 'Domanski Didion': (Domanski_Didion, ('x', 'rhol', 'rhog', 'mul', 'mug')), 'Graham': (Graham, ('x', 'rhol', 'rhog', 'mul', 'mug', 'm', 'D', 'g')), 'Yashar': (Yashar, ('x', 'rhol', 'rhog', 'mul', 'mug', 'm', 'D', 'g')), 'Huq_Loth': (Huq_Loth, ('x', 'rhol', 'rhog')), 'Kopte_Newell_Chato': (Kopte_Newell_Chato, ('x', 'rhol', 'rhog', 'm', 'D', 'g')), 'Steiner': (Steiner, ('x', 'rhol', 'rhog', 'sigma', 'm', 'D', 'g')), 'Rouhani 1': (Rouhani_1, ('x', 'rhol', 'rhog', 'sigma', 'm', 'D', 'g')), 'Rouhani 2': (Rouhani_2, ('x', 'rhol', 'rhog', 'sigma', 'm', 'D', 'g')), 'Nicklin Wilkes Davidson': (Nicklin_Wilkes_Davidson, ('x', 'rhol', 'rhog', 'm', 'D', 'g')), 'Gregory_Scott': (Gregory_Scott, ('x', 'rhol', 'rhog')), 'Dix': (Dix, ('x', 'rhol', 'rhog', 'sigma', 'm', 'D', 'g')), 'Sun Duffey Peng': (Sun_Duffey_Peng, ('x', 'rhol', 'rhog', 'sigma', 'm', 'D', 'P', 'Pc', 'g')), 'Xu Fang voidage': (Xu_Fang_voidage, ('x', 'rhol', 'rhog', 'm', 'D', 'g')), 'Woldesemayat Ghajar': (Woldesemayat_Ghajar, ('x', 'rhol', 'rhog', 'sigma', 'm', 'D', 'P', 'angle', 'g'))}
_unknown_two_phase_voidage_corr = f'Method not recognized; available methods are {list(two_phase_voidage_correlations.keys())}'

def liquid_gas_voidage_methods(x: float, rhol: float, rhog: float, D: float | None=None, m: float | None=None, mul: float | None=None, mug: float | None=None, sigma: float | None=None, P: float | None=None, Pc: float | None=None, angle: float=0.0, g: float=g, check_ranges: bool=False) -> list[str]:
    vals = {'x': x, 'rhol': rhol, 'rhog': rhog, 'D': D, 'm': m, 'mul': mul, 'mug': mug, 'sigma': sigma, 'P': P, 'Pc': Pc, 'angle': angle, 'g': g, 'check_ranges': check_ranges}
    usable_methods = []
    for method, value in two_phase_voidage_correlations.items():
        f, args = value
        if all((vals[i] is not None for i in args)):
            usable_methods.append(method)
    return usable_methods
liquid_gas_voidage_methods_needing_D = frozenset(['Dix', 'Graham', 'Guzhov', 'Harms', 'Kawahara', 'Kopte_Newell_Chato', 'Nicklin Wilkes Davidson', 'Rouhani 1', 'Rouhani 2', 'Steiner', 'Sun Duffey Peng', 'Tandon Varma Gupta', 'Woldesemayat Ghajar', 'Xu Fang voidage', 'Yashar'])
liquid_gas_voidage_methods_needing_m = frozenset(['Dix', 'Graham', 'Guzhov', 'Harms', 'Kopte_Newell_Chato', 'Nicklin Wilkes Davidson', 'Rouhani 1', 'Rouhani 2', 'Steiner', 'Sun Duffey Peng', 'Tandon Varma Gupta', 'Woldesemayat Ghajar', 'Xu Fang voidage', 'Yashar'])
liquid_gas_voidage_methods_needing_mul = frozenset(['Baroczy', 'Domanski Didion', 'Graham', 'Harms', 'Tandon Varma Gupta', 'Thom', 'Turner Wallis', 'Yashar'])
liquid_gas_voidage_methods_needing_mug = frozenset(['Baroczy', 'Domanski Didion', 'Graham', 'Harms', 'Tandon Varma Gupta', 'Thom', 'Turner Wallis', 'Yashar'])
liquid_gas_voidage_methods_needing_sigma = frozenset(['Dix', 'Rouhani 1', 'Rouhani 2', 'Steiner', 'Sun Duffey Peng', 'Woldesemayat Ghajar'])
liquid_gas_voidage_methods_needing_P = frozenset(['Sun Duffey Peng', 'Woldesemayat Ghajar'])
liquid_gas_voidage_methods_needing_Pc = frozenset(['Sun Duffey Peng'])

def liquid_gas_voidage(x: float, rhol: float, rhog: float, D: float | None=None, m: float | None=None, mul: float | None=None, mug: float | None=None, sigma: float | None=None, P: float | None=None, Pc: float | None=None, angle: int=0, g: float=g, Method: str | None=None) -> float:
    if Method is None:
        Method2 = 'homogeneous'
    else:
        Method2 = Method
    D2 = 0.0
    m2 = 0.0
    mul2 = 0.0
    mug2 = 0.0
    sigma2 = 0.0
    P2 = 0.0
    Pc2 = 0.0
    if Method2 in liquid_gas_voidage_methods_needing_D:
        if D is None:
            raise TypeError(f'{Method2} requires D')
        D2 = D
    if Method2 in liquid_gas_voidage_methods_needing_m:
        if m is None:
            raise TypeError(f'{Method2} requires m')
        m2 = m
    if Method2 in liquid_gas_voidage_methods_needing_mul:
        if mul is None:
            raise TypeError(f'{Method2} requires mul')
        mul2 = mul
    if Method2 in liquid_gas_voidage_methods_needing_mug:
        if mug is None:
            raise TypeError(f'{Method2} requires mug')
        mug2 = mug
    if Method2 in liquid_gas_voidage_methods_needing_sigma:
        if sigma is None:
            raise TypeError(f'{Method2} requires sigma')
        sigma2 = sigma
    if Method2 in liquid_gas_voidage_methods_needing_P:
        if P is None:
            raise TypeError(f'{Method2} requires P')
        P2 = P
    if Method2 in liquid_gas_voidage_methods_needing_Pc:
        if Pc is None:
            raise TypeError(f'{Method2} requires Pc')
        Pc2 = Pc
    if Method2 == 'Thom':
        return Thom(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2)
    elif Method2 == 'Zivi':
        return Zivi(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Smith':
        return Smith(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Fauske':
        return Fauske(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Chisholm_voidage':
        return Chisholm_voidage(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Turner Wallis':
        return Turner_Wallis(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2)
    elif Method2 == 'homogeneous':
        return homogeneous(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Chisholm Armand':
        return Chisholm_Armand(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Armand':
        return Armand(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Nishino Yamazaki':
        return Nishino_Yamazaki(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Guzhov':
        return Guzhov(x=x, rhol=rhol, rhog=rhog, m=m2, D=D2)
    elif Method2 == 'Kawahara':
        return Kawahara(x=x, rhol=rhol, rhog=rhog, D=D2)
    elif Method2 == 'Baroczy':
        return Baroczy(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2)
    elif Method2 == 'Tandon Varma Gupta':
        return Tandon_Varma_Gupta(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2, m=m2, D=D2)
    elif Method2 == 'Harms':
        return Harms(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2, m=m2, D=D2)
    elif Method2 == 'Domanski Didion':
        return Domanski_Didion(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2)
    elif Method2 == 'Graham':
        return Graham(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2, m=m2, D=D2, g=g)
    elif Method2 == 'Yashar':
        return Yashar(x=x, rhol=rhol, rhog=rhog, mul=mul2, mug=mug2, m=m2, D=D2, g=g)
    elif Method2 == 'Huq_Loth':
        return Huq_Loth(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Kopte_Newell_Chato':
        return Kopte_Newell_Chato(x=x, rhol=rhol, rhog=rhog, m=m2, D=D2, g=g)
    elif Method2 == 'Steiner':
        return Steiner(x=x, rhol=rhol, rhog=rhog, sigma=sigma2, m=m2, D=D2, g=g)
    elif Method2 == 'Rouhani 1':
        return Rouhani_1(x=x, rhol=rhol, rhog=rhog, sigma=sigma2, m=m2, D=D2, g=g)
    elif Method2 == 'Rouhani 2':
        return Rouhani_2(x=x, rhol=rhol, rhog=rhog, sigma=sigma2, m=m2, D=D2, g=g)
    elif Method2 == 'Nicklin Wilkes Davidson':
        return Nicklin_Wilkes_Davidson(x=x, rhol=rhol, rhog=rhog, m=m2, D=D2, g=g)
    elif Method2 == 'Gregory_Scott':
        return Gregory_Scott(x=x, rhol=rhol, rhog=rhog)
    elif Method2 == 'Dix':
        return Dix(x=x, rhol=rhol, rhog=rhog, sigma=sigma2, m=m2, D=D2, g=g)
    elif Method2 == 'Sun Duffey Peng':
        return Sun_Duffey_Peng(x=x, rhol=rhol, rhog=rhog, sigma=sigma2, m=m2, D=D2, P=P2, Pc=Pc2, g=g)
    elif Method2 == 'Xu Fang voidage':
        return Xu_Fang_voidage(x=x, rhol=rhol, rhog=rhog, m=m2, D=D2, g=g)
    elif Method2 == 'Woldesemayat Ghajar':
        return Woldesemayat_Ghajar(x=x, rhol=rhol, rhog=rhog, sigma=sigma2, m=m2, D=D2, P=P2, angle=angle, g=g)
    else:
        raise ValueError(_unknown_two_phase_voidage_corr)

def density_two_phase(alpha: float, rhol: float, rhog: float) -> float:
    return alpha * rhog + (1.0 - alpha) * rhol

def two_phase_voidage_experimental(rho_lg: float, rhol: float, rhog: float) -> float:
    return (rho_lg - rhol) / (rhog - rhol)

def Beattie_Whalley(x: float, mul: float, mug: float, rhol: float, rhog: float) -> float:
    alpha = homogeneous(x, rhol, rhog)
    return mul * (1.0 - alpha) * (1.0 + 2.5 * alpha) + mug * alpha

def McAdams(x: float, mul: float, mug: float) -> float:
    return 1.0 / (x / mug + (1.0 - x) / mul)

def Cicchitti(x: float, mul: float, mug: float) -> float:
    return x * mug + (1.0 - x) * mul

def Lin_Kwok(x: float, mul: float, mug: float) -> float:
    return mul * mug / (mug + x ** 1.4 * (mul - mug))

def Fourar_Bories(x: float, mul: float, mug: float, rhol: float, rhog: float) -> float:
    rhom = 1.0 / (x / rhog + (1.0 - x) / rhol)
    nul = mul / rhol
    nug = mug / rhog
    term = sqrt(x * nug) + sqrt((1.0 - x) * nul)
    return rhom * term * term

def Duckler(x: float, mul: float, mug: float, rhol: float, rhog: float) -> float:
    return (x * mug / rhog + (1.0 - x) * mul / rhol) / (x / rhog + (1.0 - x) / rhol)
liquid_gas_viscosity_correlations = {'Beattie Whalley': (Beattie_Whalley, 1), 'Fourar Bories': (Fourar_Bories, 1), 'Duckler': (Duckler, 1), 'McAdams': (McAdams, 0), 'Cicchitti': (Cicchitti, 0), 'Lin Kwok': (Lin_Kwok, 0)}
liquid_gas_viscosity_correlations_list = ['Beattie Whalley', 'Fourar Bories', 'Duckler', 'McAdams', 'Cicchitti', 'Lin Kwok']

def gas_liquid_viscosity_methods(rhol: float | None=None, rhog: float | None=None, check_ranges: bool=False) -> list[str]:
    methods = ['McAdams', 'Cicchitti', 'Lin Kwok']
    if rhol is not None and rhog is not None:
        methods = list(liquid_gas_viscosity_correlations_list)
    return methods
_gas_liquid_viscosity_method_unknown = f'Method not recognized; available methods are {list(liquid_gas_viscosity_correlations.keys())}'
gas_liquid_viscosity_methods_needing_rhol = frozenset(['Beattie Whalley', 'Duckler', 'Fourar Bories'])
gas_liquid_viscosity_methods_needing_rhog = frozenset(['Beattie Whalley', 'Duckler', 'Fourar Bories'])

def gas_liquid_viscosity(x: float, mul: float, mug: float, rhol: float | None=None, rhog: float | None=None, Method: str | None=None) -> float:
    if Method is None:
        Method = 'McAdams'
    rhol2 = 0.0
    rhog2 = 0.0
    if Method in gas_liquid_viscosity_methods_needing_rhol:
        if rhol is None:
            raise TypeError(f'{Method} requires rhol')
        rhol2 = rhol
    if Method in gas_liquid_viscosity_methods_needing_rhog:
        if rhog is None:
            raise TypeError(f'{Method} requires rhog')
        rhog2 = rhog
    if Method == 'Beattie Whalley':
        return Beattie_Whalley(x, mul, mug, rhol=rhol2, rhog=rhog2)
    elif Method == 'Fourar Bories':
        return Fourar_Bories(x, mul, mug, rhol=rhol2, rhog=rhog2)
    elif Method == 'Duckler':
        return Duckler(x, mul, mug, rhol=rhol2, rhog=rhog2)
    elif Method == 'McAdams':
        return McAdams(x, mul, mug)
    elif Method == 'Cicchitti':
        return Cicchitti(x, mul, mug)
    elif Method == 'Lin Kwok':
        return Lin_Kwok(x, mul, mug)
    else:
        raise ValueError(_gas_liquid_viscosity_method_unknown)
