from __future__ import annotations
from math import exp, isinf, log, pi, sqrt
from rfluids.constants import R
from rfluids.numerics import brenth, lambertw, secant
__all__: list[str] = ['IGT', 'Fritzsche', 'Muller', 'Oliphant', 'P_critical_flow', 'P_isothermal_critical_flow', 'P_stagnation', 'Panhandle_A', 'Panhandle_B', 'Spitzglass_high', 'Spitzglass_low', 'T_critical_flow', 'T_stagnation', 'T_stagnation_ideal', 'Weymouth', 'is_critical_flow', 'isentropic_T_rise_compression', 'isentropic_efficiency', 'isentropic_work_compression', 'isothermal_gas', 'isothermal_work_compression', 'polytropic_exponent', 'stagnation_energy']

def isothermal_work_compression(P1: float, P2: float, T: float, Z: float=1.0) -> float:
    return Z * R * T * log(P2 / P1)

def isentropic_work_compression(T1: float, k: float, Z: float=1.0, P1: float | None=None, P2: float | None=None, W: float | None=None, eta: float | None=None) -> float:
    if W is None and eta is not None and (P1 is not None) and (P2 is not None):
        return k / (k - 1.0) * Z * R * T1 * ((P2 / P1) ** ((k - 1.0) / k) - 1.0) / eta
    elif P1 is None and eta is not None and (W is not None) and (P2 is not None):
        return P2 * (1.0 + W * eta / (R * T1 * Z) - W * eta / (R * T1 * Z * k)) ** (-k / (k - 1.0))
    elif P2 is None and eta is not None and (W is not None) and (P1 is not None):
        return P1 * (1.0 + W * eta / (R * T1 * Z) - W * eta / (R * T1 * Z * k)) ** (k / (k - 1.0))
    elif eta is None and P1 is not None and (P2 is not None) and (W is not None):
        return R * T1 * Z * k * ((P2 / P1) ** ((k - 1.0) / k) - 1.0) / (W * (k - 1.0))
    else:
        raise ValueError('Three of W, P1, P2, and eta must be specified.')

def isentropic_T_rise_compression(T1: float, P1: float, P2: float, k: float, eta: float=1) -> float:
    dT = T1 * ((P2 / P1) ** ((k - 1.0) / k) - 1.0) / eta
    return T1 + dT

def isentropic_efficiency(P1: float, P2: float, k: float, eta_s: float | None=None, eta_p: float | None=None) -> float:
    if eta_s is None and eta_p is not None:
        return ((P2 / P1) ** ((k - 1.0) / k) - 1.0) / ((P2 / P1) ** ((k - 1.0) / (k * eta_p)) - 1.0)
    elif eta_p is None and eta_s is not None:
        return (k - 1.0) * log(P2 / P1) / (k * log((eta_s + (P2 / P1) ** ((k - 1.0) / k) - 1.0) / eta_s))
    else:
        raise ValueError('Either eta_s or eta_p is required')

def polytropic_exponent(k: float, n: float | None=None, eta_p: float | None=None) -> float:
    if n is None and eta_p is not None:
        return k * eta_p / (1.0 - k * (1.0 - eta_p))
    elif eta_p is None and n is not None:
        return n * (k - 1.0) / (k * (n - 1.0))
    else:
        raise ValueError('Either n or eta_p is required')

def T_critical_flow(T: float, k: float) -> float:
    return T * 2.0 / (k + 1.0)

def P_critical_flow(P: float, k: float) -> float:
    return P * (2.0 / (k + 1.0)) ** (k / (k - 1.0))

def P_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float:
    x = (D + L * fd) / D
    if x > 700.0:
        w = x
        for _ in range(8):
            w = x + log(w)
        return P / sqrt(w)
    lambert_term = float(lambertw(-exp((-D - L * fd) / D), -1).real)
    return P * exp((D * (lambert_term + 1.0) + L * fd) / (2.0 * D))

def P_upstream_isothermal_critical_flow(P: float, fd: float, D: float, L: float) -> float:
    x = (fd * L + D) / D
    if x > 700.0:
        w = x
        for _ in range(8):
            w = x + log(w)
        return P * sqrt(w)
    lambertw_term = float(lambertw(-exp(-(fd * L + D) / D), -1).real)
    return exp(-0.5 * (D * lambertw_term + fd * L + D) / D) * P

def is_critical_flow(P1: float, P2: float, k: float) -> bool:
    Pcf = P_critical_flow(P1, k)
    return Pcf > P2

def stagnation_energy(V: float) -> float:
    return 0.5 * V * V

def P_stagnation(P: float, T: float, Tst: float, k: float) -> float:
    return P * (Tst / T) ** (k / (k - 1.0))

def T_stagnation(T: float, P: float, Pst: float, k: float) -> float:
    return T * (Pst / P) ** ((k - 1.0) / k)

def T_stagnation_ideal(T: float, V: float, Cp: float) -> float:
    return T + 0.5 * V * V / Cp

def isothermal_gas_err_P1(P1: float, fd: float, rho: float, P2: float, L: float, D: float, m: float) -> float:
    return m - sqrt(0.0625 * pi * pi * D ** 4 * rho / (P1 * (fd * L / D + 2.0 * log(P1 / P2))) * ((P1 - P2) * (P1 + P2)))

def isothermal_gas_err_P2(P2: float, rho: float, fd: float, P1: float, L: float, D: float, m: float) -> float:
    return m - isothermal_gas(rho, fd, P1=P1, P2=P2, L=L, D=D)

def isothermal_gas_err_P2_basis(P1: float, P2: float, rho: float, fd: float, m: float, L: float, D: float) -> float:
    return abs(P2 - isothermal_gas(rho, fd, m=m, P1=P1, P2=None, L=L, D=D))

def isothermal_gas_err_D(D: float, m: float, rho: float, fd: float, P1: float, P2: float, L: float) -> float:
    return m - isothermal_gas(rho, fd, P1=P1, P2=P2, L=L, D=D)

def isothermal_gas(rho: float, fd: float, P1: float | None=None, P2: float | None=None, L: float | None=None, D: float | None=None, m: float | None=None) -> float:
    if m is None and P1 is not None and (P2 is not None) and (L is not None) and (D is not None):
        Pcf = P_isothermal_critical_flow(P=P1, fd=fd, D=D, L=L)
        if P2 < Pcf:
            raise ValueError(f'Given outlet pressure is not physically possible due to the formation of choked flow at P2={Pcf:f}, specified outlet pressure was {P2:f}')
        if P2 > P1:
            raise ValueError('Specified outlet pressure is larger than the inlet pressure; fluid will flow backwards.')
        return sqrt(0.0625 * pi * pi * D ** 4 * rho / (P1 * (fd * L / D + 2.0 * log(P1 / P2))) * ((P1 - P2) * (P1 + P2)))
    elif L is None and P1 is not None and (P2 is not None) and (D is not None) and (m is not None):
        return D * (pi * pi * D ** 4 * rho * (P1 * P1 - P2 * P2) - 32.0 * P1 * m * m * log(P1 / P2)) / (16.0 * P1 * fd * m * m)
    elif P1 is None and L is not None and (P2 is not None) and (D is not None) and (m is not None):
        Pcf = P_upstream_isothermal_critical_flow(P=P2, fd=fd, D=D, L=L)
        try:
            P1 = secant(isothermal_gas_err_P2_basis, (P2 + Pcf) / 2.0, args=(P2, rho, fd, m, L, D))
            if not P2 <= P1:
                raise ValueError('Failed')
            return P1
        except:
            try:
                return brenth(isothermal_gas_err_P1, P2, Pcf, args=(fd, rho, P2, L, D, m))
            except:
                m_max = -isothermal_gas_err_P1(Pcf, fd, rho, P2, L, D, 0.0)
                raise ValueError(f'The desired mass flow rate of {m:f} kg/s cannot be achieved with the specified downstream pressure; the maximum flow rate is {m_max:f} kg/s at an upstream pressure of {Pcf:f} Pa')
    elif P2 is None and L is not None and (P1 is not None) and (D is not None) and (m is not None):
        try:
            Pcf = P_isothermal_critical_flow(P=P1, fd=fd, D=D, L=L)
            m_max = isothermal_gas(rho, fd, P1=P1, P2=Pcf, L=L, D=D)
            if not m <= m_max:
                raise ValueError('Failed')
            C = fd * L / D
            B = (pi / 4 * D ** 2) ** 2 * rho
            arg = -B / m ** 2 * P1 * exp(-(-C * m ** 2 + B * P1) / m ** 2)
            lambert_ans = float(lambertw(arg, k=-1).real)
            if isinf(lambert_ans):
                raise ValueError('Should not be infinity')
            P2 = P1 / exp((-C * m ** 2 + lambert_ans * m ** 2 + B * P1) / m ** 2 / 2.0)
            if not P2 < P1:
                raise ValueError('Should not be the case')
            return P2
        except:
            Pcf = P_isothermal_critical_flow(P=P1, fd=fd, D=D, L=L)
            try:
                return brenth(isothermal_gas_err_P2, Pcf, P1, args=(rho, fd, P1, L, D, m))
            except:
                m_max = isothermal_gas(rho, fd, P1=P1, P2=Pcf, L=L, D=D)
                raise ValueError(f'The desired mass flow rate cannot be achieved with the specified upstream pressure of {P1:f} Pa; the maximum flow rate is {m_max:f} kg/s at a downstream pressure of {Pcf:f}')
    elif D is None and P2 is not None and (P1 is not None) and (L is not None) and (m is not None):
        try:
            return secant(isothermal_gas_err_D, 0.1, args=(m, rho, fd, P1, P2, L))
        except:
            P_ratio2 = P1 / P2 * (P1 / P2)
            D_max = fd * L / (P_ratio2 - 1.0 - log(P_ratio2))
            return brenth(isothermal_gas_err_D, 1e-09 * D_max, (1.0 - 1e-09) * D_max, args=(m, rho, fd, P1, P2, L))
    else:
        raise ValueError('This function solves for either mass flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def Panhandle_A(SG: float, Tavg: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=0.92) -> float:
    c1 = 1.0788
    c2 = 0.8539
    c3 = 0.5394
    c4 = 2.6182
    c5 = 158.02053287069572
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * E * (Ts / Ps) ** c1 * ((P1 ** 2 - P2 ** 2) / (L * SG ** c2 * Tavg * Zavg)) ** c3 * D ** c4
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return (Q * (Ts / Ps) ** (-c1) * (SG ** (-c2) * (P1 ** 2 - P2 ** 2) / (L * Tavg * Zavg)) ** (-c3) / (E * c5)) ** (1.0 / c4)
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt(L * SG ** c2 * Tavg * Zavg * (D ** (-c4) * Q * (Ts / Ps) ** (-c1) / (E * c5)) ** (1.0 / c3) + P2 ** 2)
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt(-L * SG ** c2 * Tavg * Zavg * (D ** (-c4) * Q * (Ts / Ps) ** (-c1) / (E * c5)) ** (1.0 / c3) + P1 ** 2)
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return SG ** (-c2) * (D ** (-c4) * Q * (Ts / Ps) ** (-c1) / (E * c5)) ** (-1.0 / c3) * (P1 ** 2 - P2 ** 2) / (Tavg * Zavg)
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def Panhandle_B(SG: float, Tavg: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=0.92) -> float:
    c1 = 1.02
    c2 = 0.961
    c3 = 0.51
    c4 = 2.53
    c5 = 152.88116342980555
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * E * (Ts / Ps) ** c1 * ((P1 ** 2 - P2 ** 2) / (L * SG ** c2 * Tavg * Zavg)) ** c3 * D ** c4
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return (Q * (Ts / Ps) ** (-c1) * (SG ** (-c2) * (P1 ** 2 - P2 ** 2) / (L * Tavg * Zavg)) ** (-c3) / (E * c5)) ** (1.0 / c4)
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt(L * SG ** c2 * Tavg * Zavg * (D ** (-c4) * Q * (Ts / Ps) ** (-c1) / (E * c5)) ** (1.0 / c3) + P2 ** 2)
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt(-L * SG ** c2 * Tavg * Zavg * (D ** (-c4) * Q * (Ts / Ps) ** (-c1) / (E * c5)) ** (1.0 / c3) + P1 ** 2)
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return SG ** (-c2) * (D ** (-c4) * Q * (Ts / Ps) ** (-c1) / (E * c5)) ** (-1.0 / c3) * (P1 ** 2 - P2 ** 2) / (Tavg * Zavg)
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def Weymouth(SG: float, Tavg: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=0.92) -> float:
    c3 = 0.5
    c4 = 2.667
    c5 = 137.32958099425124
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * E * (Ts / Ps) * ((P1 ** 2 - P2 ** 2) / (L * SG * Tavg * Zavg)) ** c3 * D ** c4
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return (Ps * Q * ((P1 ** 2 - P2 ** 2) / (L * SG * Tavg * Zavg)) ** (-c3) / (E * Ts * c5)) ** (1.0 / c4)
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt(L * SG * Tavg * Zavg * (D ** (-c4) * Ps * Q / (E * Ts * c5)) ** (1.0 / c3) + P2 ** 2)
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt(-L * SG * Tavg * Zavg * (D ** (-c4) * Ps * Q / (E * Ts * c5)) ** (1.0 / c3) + P1 ** 2)
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return (D ** (-c4) * Ps * Q / (E * Ts * c5)) ** (-1.0 / c3) * (P1 ** 2 - P2 ** 2) / (SG * Tavg * Zavg)
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def _to_solve_Spitzglass_high(D: float, Q: float, SG: float, Tavg: float, L: float, P1: float, P2: float, Ts: float, Ps: float, Zavg: float, E: float) -> float:
    return Q - Spitzglass_high(SG=SG, Tavg=Tavg, L=L, D=D, P1=P1, P2=P2, Ts=Ts, Ps=Ps, Zavg=Zavg, E=E)

def Spitzglass_high(SG: float, Tavg: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=1.0) -> float:
    c3 = 1.1811023622047243
    c4 = 0.09144
    c5 = 125.106
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * E * Ts / Ps * D ** 2.5 * sqrt((P1 ** 2 - P2 ** 2) / (L * SG * Zavg * Tavg * (1 + c4 / D + c3 * D)))
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return secant(_to_solve_Spitzglass_high, 0.5, args=(Q, SG, Tavg, L, P1, P2, Ts, Ps, Zavg, E))
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt((D ** 6 * E ** 2 * P2 ** 2 * Ts ** 2 * c5 ** 2 + D ** 2 * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c3 + D * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg + L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c4) / (D ** 6 * E ** 2 * Ts ** 2 * c5 ** 2))
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt((D ** 6 * E ** 2 * P1 ** 2 * Ts ** 2 * c5 ** 2 - D ** 2 * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c3 - D * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg - L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c4) / (D ** 6 * E ** 2 * Ts ** 2 * c5 ** 2))
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return D ** 6 * E ** 2 * Ts ** 2 * c5 ** 2 * (P1 ** 2 - P2 ** 2) / (Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * (D ** 2 * c3 + D + c4))
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def _to_solve_Spitzglass_low(D: float, Q: float, SG: float, Tavg: float, L: float, P1: float, P2: float, Ts: float, Ps: float, Zavg: float, E: float) -> float:
    return Q - Spitzglass_low(SG=SG, Tavg=Tavg, L=L, D=D, P1=P1, P2=P2, Ts=Ts, Ps=Ps, Zavg=Zavg, E=E)

def Spitzglass_low(SG: float, Tavg: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=1.0) -> float:
    c3 = 1.1811023622047243
    c4 = 0.09144
    c5 = 125.106
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * Ts / Ps * D ** 2.5 * E * sqrt((P1 - P2) * 2 * (Ps + 1210.0) / (L * SG * Tavg * Zavg * (1 + c4 / D + c3 * D)))
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return secant(_to_solve_Spitzglass_low, 0.5, args=(Q, SG, Tavg, L, P1, P2, Ts, Ps, Zavg, E))
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return 0.5 * (2.0 * D ** 6 * E ** 2 * P2 * Ts ** 2 * c5 ** 2 * (Ps + 1210.0) + D ** 2 * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c3 + D * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg + L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c4) / (D ** 6 * E ** 2 * Ts ** 2 * c5 ** 2 * (Ps + 1210.0))
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return 0.5 * (2.0 * D ** 6 * E ** 2 * P1 * Ts ** 2 * c5 ** 2 * (Ps + 1210.0) - D ** 2 * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c3 - D * L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg - L * Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * c4) / (D ** 6 * E ** 2 * Ts ** 2 * c5 ** 2 * (Ps + 1210.0))
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return 2.0 * D ** 6 * E ** 2 * Ts ** 2 * c5 ** 2 * (P1 * Ps + 1210.0 * P1 - P2 * Ps - 1210.0 * P2) / (Ps ** 2 * Q ** 2 * SG * Tavg * Zavg * (D ** 2 * c3 + D + c4))
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def _to_solve_Oliphant(D: float, Q: float, SG: float, Tavg: float, L: float, P1: float, P2: float, Ts: float, Ps: float, Zavg: float, E: float) -> float:
    return Q - Oliphant(SG=SG, Tavg=Tavg, L=L, D=D, P1=P1, P2=P2, Ts=Ts, Ps=Ps, Zavg=Zavg, E=E)

def Oliphant(SG: float, Tavg: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=0.92) -> float:
    c1 = 84.58717613991857
    c2 = 0.20915193504605287
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c1 * (D ** 2.5 + c2 * D ** 3) * Ts / Ps * sqrt((P1 ** 2 - P2 ** 2) / (L * SG * Tavg))
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return secant(_to_solve_Oliphant, 0.5, args=(Q, SG, Tavg, L, P1, P2, Ts, Ps, Zavg, E))
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt(L * Ps ** 2 * Q ** 2 * SG * Tavg / (Ts ** 2 * c1 ** 2 * (D ** 3 * c2 + D ** 2.5) ** 2) + P2 ** 2)
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt(-L * Ps ** 2 * Q ** 2 * SG * Tavg / (Ts ** 2 * c1 ** 2 * (D ** 3 * c2 + D ** 2.5) ** 2) + P1 ** 2)
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return Ts ** 2 * c1 ** 2 * (P1 ** 2 - P2 ** 2) * (D ** 3 * c2 + D ** 2.5) ** 2 / (Ps ** 2 * Q ** 2 * SG * Tavg)
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def Fritzsche(SG: float, Tavg: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=1.0) -> float:
    c5 = 93.50009798751128
    c2 = 0.8587
    c3 = 0.538
    c4 = 2.69
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * E * (Ts / Ps) * ((P1 ** 2 - P2 ** 2) / (SG ** c2 * Tavg * L * Zavg)) ** c3 * D ** c4
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return (Ps * Q * (SG ** (-c2) * (P1 ** 2 - P2 ** 2) / (L * Tavg * Zavg)) ** (-c3) / (E * Ts * c5)) ** (1.0 / c4)
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt(L * SG ** c2 * Tavg * Zavg * (D ** (-c4) * Ps * Q / (E * Ts * c5)) ** (1.0 / c3) + P2 ** 2)
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt(-L * SG ** c2 * Tavg * Zavg * (D ** (-c4) * Ps * Q / (E * Ts * c5)) ** (1.0 / c3) + P1 ** 2)
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return SG ** (-c2) * (D ** (-c4) * Ps * Q / (E * Ts * c5)) ** (-1.0 / c3) * (P1 ** 2 - P2 ** 2) / (Tavg * Zavg)
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def Muller(SG: float, Tavg: float, mu: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=1.0) -> float:
    c5 = 15.774399086420773
    c2 = 0.575
    c3 = 2.725
    c4 = 0.425
    c1 = 0.15
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * Ts / Ps * E * ((P1 ** 2 - P2 ** 2) / Tavg / L / Zavg) ** c2 * D ** c3 / SG ** c4 / mu ** c1
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return (Ps * Q * SG ** c4 * mu ** c1 * ((P1 ** 2 - P2 ** 2) / (L * Tavg * Zavg)) ** (-c2) / (E * Ts * c5)) ** (1.0 / c3)
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt(L * Tavg * Zavg * (D ** (-c3) * Ps * Q * SG ** c4 * mu ** c1 / (E * Ts * c5)) ** (1 / c2) + P2 ** 2)
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt(-L * Tavg * Zavg * (D ** (-c3) * Ps * Q * SG ** c4 * mu ** c1 / (E * Ts * c5)) ** (1 / c2) + P1 ** 2)
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return (D ** (-c3) * Ps * Q * SG ** c4 * mu ** c1 / (E * Ts * c5)) ** (-1 / c2) * (P1 ** 2 - P2 ** 2) / (Tavg * Zavg)
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')

def IGT(SG: float, Tavg: float, mu: float, L: float | None=None, D: float | None=None, P1: float | None=None, P2: float | None=None, Q: float | None=None, Ts: float=288.7, Ps: float=101325.0, Zavg: float=1.0, E: float=1.0) -> float:
    c5 = 24.62412451461407
    c2 = 5.0 / 9.0
    c3 = 8.0 / 3.0
    c4 = 4.0 / 9.0
    c1 = 1.0 / 9.0
    if Q is None and L is not None and (D is not None) and (P1 is not None) and (P2 is not None):
        return c5 * Ts / Ps * E * ((P1 ** 2 - P2 ** 2) / Tavg / L / Zavg) ** c2 * D ** c3 / SG ** c4 / mu ** c1
    elif D is None and L is not None and (Q is not None) and (P1 is not None) and (P2 is not None):
        return (Ps * Q * SG ** c4 * mu ** c1 * ((P1 ** 2 - P2 ** 2) / (L * Tavg * Zavg)) ** (-c2) / (E * Ts * c5)) ** (1.0 / c3)
    elif P1 is None and L is not None and (Q is not None) and (D is not None) and (P2 is not None):
        return sqrt(L * Tavg * Zavg * (D ** (-c3) * Ps * Q * SG ** c4 * mu ** c1 / (E * Ts * c5)) ** (1 / c2) + P2 ** 2)
    elif P2 is None and L is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return sqrt(-L * Tavg * Zavg * (D ** (-c3) * Ps * Q * SG ** c4 * mu ** c1 / (E * Ts * c5)) ** (1 / c2) + P1 ** 2)
    elif L is None and P2 is not None and (Q is not None) and (D is not None) and (P1 is not None):
        return (D ** (-c3) * Ps * Q * SG ** c4 * mu ** c1 / (E * Ts * c5)) ** (-1 / c2) * (P1 ** 2 - P2 ** 2) / (Tavg * Zavg)
    else:
        raise ValueError('This function solves for either flow, upstream pressure, downstream pressure, diameter, or length; all other inputs must be provided.')
