from __future__ import annotations
from math import exp, pi, sqrt
__all__: list[str] = ['KTA', 'Brauer', 'Carman', 'Erdim_Akgiray_Demir', 'Ergun', 'Fahien_Schriver', 'Guo_Sun', 'Harrison_Brunner_Hecker', 'Hicks', 'Idelchik', 'Jones_Krier', 'Kuo_Nydegger', 'Montillet_Akkari_Comiti', 'Tallmadge', 'dP_packed_bed', 'dP_packed_bed_methods', 'voidage_Benyahia_Oneil', 'voidage_Benyahia_Oneil_cylindrical', 'voidage_Benyahia_Oneil_spherical']

def Ergun(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = (150.0 + 1.75 * (Re / holdup)) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def Kuo_Nydegger(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = (276.23 + 5.05 * (Re / holdup) ** 0.87) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def Tallmadge(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = (150.0 + 4.2 * (Re / holdup) ** (5.0 / 6.0)) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def Jones_Krier(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = (150 + 3.89 * (Re / holdup) ** 0.87) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def Carman(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = (180 + 2.871 * (Re / holdup) ** 0.9) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def Hicks(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = 6.8 * holdup ** 1.2 / (Re ** 0.2 * voidage * voidage * voidage)
    return fp * rho * vs * vs * L / dp

def Brauer(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = (160.0 + 3.1 * (Re / holdup) ** 0.9) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def KTA(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    fp = (160.0 + 3.0 * (Re / holdup) ** 0.9) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def Erdim_Akgiray_Demir(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    holdup = 1.0 - voidage
    Rem = dp * rho * vs / (holdup * mu)
    fv = 160.0 + 2.81 * Rem ** 0.904
    return fv * (mu * vs * L / (dp * dp)) * holdup * holdup / (voidage * voidage * voidage)

def Fahien_Schriver(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    holdup = 1.0 - voidage
    voidage2 = voidage * voidage
    Rem = dp * rho * vs / (holdup * mu)
    q = exp(-voidage2 * holdup * (1.0 / 12.6) * Rem)
    f1L = 136.0 / holdup ** 0.38
    f1T = 29.0 / (holdup ** 1.45 * voidage2)
    f2 = 1.87 * voidage ** 0.75 / holdup ** 0.26
    fp = (q * f1L / Rem + (1.0 - q) * (f2 + f1T / Rem)) * holdup / (voidage2 * voidage)
    return fp * rho * vs * vs * L / dp

def Idelchik(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0) -> float:
    Re = rho * vs * dp / (mu * (1.0 - voidage))
    Re = 0.45 / sqrt(voidage) * Re
    right = 0.765 * voidage ** (-4.2) * (30.0 / Re + 3.0 * Re ** (-0.7) + 0.3)
    left = dp / (L * rho * vs * vs)
    return right / left

def Harrison_Brunner_Hecker(dp: float, voidage: float, vs: float, rho: float, mu: float, L: int=1, Dt: float | None=None) -> float:
    Re = dp * rho * vs / mu
    holdup = 1.0 - voidage
    if Dt is None:
        A, B = (1.0, 1.0)
    else:
        A = 1.0 + pi * dp / (6.0 * holdup * Dt)
        A = A * A
        B = 1 - pi * pi * dp / 24 / Dt * (1 - dp / (2.0 * Dt))
    fp = (119.8 * A + 4.63 * B * (Re / holdup) ** (5 / 6.0)) * holdup * holdup / (voidage * voidage * voidage * Re)
    return fp * rho * vs * vs * L / dp

def Montillet_Akkari_Comiti(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1, Dt: float | None=None) -> float:
    Re = rho * vs * dp / mu
    if voidage < 0.4:
        a = 0.061
    else:
        a = 0.05
    if Dt is None or Dt / dp > 50:
        Dterm = 2.2
    else:
        Dterm = (Dt / dp) ** 0.2
    right = a * Dterm * (1000.0 / Re + 60.0 / sqrt(Re) + 12.0)
    left = dp / (L * rho * vs * vs * (1.0 - voidage)) * voidage * voidage * voidage
    return right / left

def Guo_Sun(dp: float, voidage: float, vs: float, rho: float, mu: float, Dt: float | None=None, L: float=1.0) -> float:
    holdup = 1.0 - voidage
    Rem = dp * rho * vs / (mu * holdup)
    ratio = dp / Dt if Dt is not None else 3.5
    fv = 180.0 + (9.5374 * ratio - 2.8054) * Rem ** 0.97
    return fv * (mu * vs * L / (dp * dp * voidage * voidage * voidage)) * holdup * holdup
packed_beds_correlations = {'Ergun': (Ergun, False), 'Tallmadge': (Tallmadge, False), 'Kuo & Nydegger': (Kuo_Nydegger, False), 'Jones & Krier': (Jones_Krier, False), 'Carman': (Carman, False), 'Hicks': (Hicks, False), 'Brauer': (Brauer, False), 'KTA': (KTA, False), 'Fahien & Schriver': (Fahien_Schriver, False), 'Idelchik': (Idelchik, False), 'Erdim, Akgiray & Demir': (Erdim_Akgiray_Demir, False), 'Harrison, Brunner & Hecker': (Harrison_Brunner_Hecker, True), 'Montillet, Akkari & Comiti': (Montillet_Akkari_Comiti, True), 'Guo, Sun, Zhang, Ding & Liu': (Guo_Sun, True)}

def dP_packed_bed_methods(dp: float, voidage: float, vs: float, rho: float, mu: float, L: float=1.0, Dt: float | None=None, check_ranges: bool=False) -> list[str]:
    methods = []
    if dp is not None and voidage is not None and (vs is not None) and (rho is not None) and (mu is not None) and (L is not None):
        if Dt is not None:
            methods = ['Harrison, Brunner & Hecker', 'Montillet, Akkari & Comiti', 'Guo, Sun, Zhang, Ding & Liu']
        methods.extend(['Erdim, Akgiray & Demir', 'Idelchik', 'Fahien & Schriver', 'KTA', 'Brauer', 'Hicks', 'Carman', 'Jones & Krier', 'Kuo & Nydegger', 'Tallmadge', 'Ergun'])
    return methods

def dP_packed_bed(dp: float, voidage: float, vs: float, rho: float, mu: float, L: int=1, Dt: float | None=None, sphericity: float | None=None, Method: str | None=None) -> float:
    if Method is None:
        Method2 = 'Harrison, Brunner & Hecker' if Dt is not None else 'Erdim, Akgiray & Demir'
    else:
        Method2 = Method
    if dp is not None and sphericity is not None:
        dp = dp * sphericity
    if Method2 == 'Ergun':
        return Ergun(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Tallmadge':
        return Tallmadge(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Kuo & Nydegger':
        return Kuo_Nydegger(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Jones & Krier':
        return Jones_Krier(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Carman':
        return Carman(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Hicks':
        return Hicks(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Brauer':
        return Brauer(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'KTA':
        return KTA(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Erdim, Akgiray & Demir':
        return Erdim_Akgiray_Demir(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Fahien & Schriver':
        return Fahien_Schriver(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Idelchik':
        return Idelchik(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    elif Method2 == 'Harrison, Brunner & Hecker':
        return Harrison_Brunner_Hecker(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L, Dt=Dt)
    elif Method2 == 'Montillet, Akkari & Comiti':
        return Montillet_Akkari_Comiti(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L, Dt=Dt)
    elif Method2 == 'Guo, Sun, Zhang, Ding & Liu':
        return Guo_Sun(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L, Dt=Dt)
    else:
        raise ValueError('Unrecognized method')

def voidage_Benyahia_Oneil(Dpe: float, Dt: float, sphericity: float) -> float:
    x1 = Dt / Dpe + 0.1226
    return 0.1504 + 0.2024 / sphericity + 1.0814 / (x1 * x1)

def voidage_Benyahia_Oneil_spherical(Dp: float, Dt: float) -> float:
    x1 = Dt / Dp + 1.14
    return 0.39 + 1.74 / (x1 * x1)

def voidage_Benyahia_Oneil_cylindrical(Dpe: float, Dt: float, sphericity: float) -> float:
    x1 = Dt / Dpe + 0.611
    return 0.373 + 1.703 / (x1 * x1)
