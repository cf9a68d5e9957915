from __future__ import annotations
from math import log, pi, sqrt
from rfluids.constants import g
__all__: list[str] = ['COV_motionless_mixer', 'K_motionless_mixer', 'Kp_helical_ribbon_Rieger', 'agitator_time_homogeneous', 'size_tee', 'time_helical_ribbon_Grenville']
max_Fo_for_turbulent = 1 / 1225.0
min_regime_constant_for_turbulent = 6370.0

def adjust_homogeneity(fraction: float) -> float:
    multiplier = log(1 - fraction) / log(0.05)
    return multiplier

def agitator_time_homogeneous(N: float, P: float, T: float, H: float, mu: float, rho: float, D: float | None=None, homogeneity: float=0.95) -> float:
    if not D:
        D = T * 0.5
    Np = P * g / rho / N ** 3 / D ** 5
    Re_imp = rho / mu * D ** 2 * N
    regime_constant = Np ** (1 / 3.0) * Re_imp
    if regime_constant >= min_regime_constant_for_turbulent:
        Fo = 5.2 / regime_constant
    else:
        Fo = (183.0 / regime_constant) ** 2
    time = rho * T ** 1.5 * sqrt(H) / mu * Fo
    multiplier = adjust_homogeneity(homogeneity)
    return time * multiplier

def Kp_helical_ribbon_Rieger(D: float, h: float, nb: int, pitch: float, width: float, T: float) -> float:
    c = 0.5 * (T - D)
    return 82.8 * h / D * (c / D) ** (-0.38) * (pitch / D) ** (-0.35) * (width / D) ** 0.2 * nb ** 0.78

def time_helical_ribbon_Grenville(Kp: float, N: float) -> float:
    return 896000.0 * Kp ** (-1.69) / N

def size_tee(Q1: float, Q2: float, D: float, D2: float | None, n: int=1, pipe_diameters: float=5) -> float:
    V1 = Q1 / (pi / 4 * D ** 2)
    if D2 is None:
        D2 = (Q2 / Q1) ** (2 / 3.0) * D
    V2 = Q2 / (pi / 4 * D2 ** 2)
    B = n ** 2 * (D2 / D) ** 2 * (V2 / V1) ** 2
    if not n == 1 and (not n == 2) and (not n == 3) and (not n == 4):
        raise ValueError('Only 1 or 4 side streams investigated')
    if n == 1:
        if B < 0.7:
            E = 1.33
        else:
            E = 1.33 + 0.95 * log(B / 0.7)
    elif n == 2:
        if B < 0.8:
            E = 1.44
        else:
            E = 1.44 + 0.95 * log(B / 0.8) ** 1.5
    elif n == 3:
        if B < 0.8:
            E = 1.75
        else:
            E = 1.75 + 0.95 * log(B / 0.8) ** 1.8
    elif B < 2:
        E = 1.97
    else:
        E = 1.97 + 0.95 * log(B / 2.0) ** 2
    COV = sqrt(0.32 / B ** 0.86 * pipe_diameters ** (-E))
    return COV
'Data from:\nPaul, Edward L, Victor A Atiemo-Obeng, and Suzanne M Kresta.\nHandbook of Industrial Mixing: Science and Practice.\nHoboken, N.J.: Wiley-Interscience, 2004.'
StatixMixers = {}
StatixMixers['KMS'] = {'Name': 'KMS', 'Vendor': 'Chemineer', 'Description': 'Twisted ribbon. Alternating left and right twists.', 'KL': 6.9, 'KiL': 0.87, 'KT': 150, 'KiT': 0.5}
StatixMixers['SMX'] = {'Name': 'SMX', 'Vendor': 'Koch-Glitsch', 'Description': 'Guide vanes 45 degrees to pipe axis. Adjacent elements rotated 90 degrees.', 'KL': 37.5, 'KiL': 0.63, 'KT': 500, 'KiT': 0.46}
StatixMixers['SMXL'] = {'Name': 'SMXL', 'Vendor': 'Koch-Glitsch', 'Description': 'Similar to SMX, but intersection bars at 30 degrees to pipe axis.', 'KL': 7.8, 'KiL': 0.85, 'KT': 100, 'KiT': 0.87}
StatixMixers['SMF'] = {'Name': 'SMF', 'Vendor': 'Koch-Glitsch', 'Description': 'Three guide vanes projecting from the tube wall in a way as to not contact. Designed for applications subject to plugging.', 'KL': 5.6, 'KiL': 0.83, 'KT': 130, 'KiT': 0.4}

def COV_motionless_mixer(Ki: float, Q1: float, Q2: float, pipe_diameters: float) -> float:
    Cv = Q2 / (Q1 + Q2)
    COV0 = sqrt((1 - Cv) / Cv)
    COVr = Ki ** pipe_diameters
    COV = COV0 * COVr
    return COV

def K_motionless_mixer(K: float, L: float, D: float, fd: float) -> float:
    return L / D * fd * K
