from __future__ import annotations
from math import exp, log, log10, sqrt, tanh
from rfluids.constants import g
from rfluids.core import Reynolds
from rfluids.numerics import cumulative_trapezoid, secant
__all__: list[str] = ['Almedeij', 'Barati', 'Barati_high', 'Ceylan', 'Cheng', 'Clift', 'Clift_Gauvin', 'Engelund_Hansen', 'Flemmer_Banks', 'Graf', 'Haider_Levenspiel', 'Khan_Richardson', 'Mikhailov_Freire', 'Morrison', 'Morsi_Alexander', 'Rouse', 'Song_Xu', 'Stokes', 'Swamee_Ojha', 'Terfous', 'Yen', 'drag_sphere', 'drag_sphere_methods', 'integrate_drag_sphere', 'time_v_terminal_Stokes', 'v_terminal']

def Stokes(Re: float) -> float:
    return 24.0 / Re

def Barati(Re: float) -> float:
    Re_inv = 1.0 / Re
    Cd = 5485600000.0 * tanh(4.3774e-09 * Re_inv) + 0.0709 * tanh(700.6574 * Re_inv) + 0.3894 * tanh(74.1539 * Re_inv) - 0.1198 * tanh(7429.0843 * Re_inv) + 1.7174 * tanh(9.9851 / (Re + 2.3384)) + 0.4744
    return Cd

def Barati_high(Re: float) -> float:
    if Re > 1000000.0:
        Re = 1000000.0
    Re2 = Re * Re
    t0 = 1.0 / Re
    t1 = Re * (1.0 / 6530.0)
    t2 = Re * (1.0 / 1620)
    t3 = log10(Re2 + 10.7563)
    t4 = 1.0 / (Re + Re2)
    t4 *= t4
    t4 *= t4
    tanhRe = tanh(Re)
    Cd = 8e-06 * (t1 * t1 + tanhRe - 8.0 * log10(Re)) - 0.4119 * exp(-2.08e+43 * t4) - 2.1344 * exp(-t0 * (t3 * t3 + 9.9867)) + 0.1357 * exp(-t0 * (t2 * t2 + 10370.0)) - 0.0085 * t0 * (2.0 * log10(tanh(tanhRe)) - 2825.7162) + 2.4795
    return Cd

def Rouse(Re: float) -> float:
    return 24.0 / Re + 3.0 / sqrt(Re) + 0.34

def Engelund_Hansen(Re: float) -> float:
    return 24.0 / Re + 1.5

def Clift_Gauvin(Re: float) -> float:
    return 24.0 / Re * (1 + 0.152 * Re ** 0.677) + 0.417 / (1 + 5070 * Re ** (-0.94))

def Morsi_Alexander(Re: float) -> float:
    if Re < 0.1:
        return 24.0 / Re
    elif Re < 1:
        return 22.73 / Re + 0.0903 / Re ** 2 + 3.69
    elif Re < 10:
        return 29.1667 / Re - 3.8889 / Re ** 2 + 1.222
    elif Re < 100:
        return 46.5 / Re - 116.67 / Re ** 2 + 0.6167
    elif Re < 1000:
        return 98.33 / Re - 2778.0 / Re ** 2 + 0.3644
    elif Re < 5000:
        return 148.62 / Re - 47500.0 / Re ** 2 + 0.357
    elif Re < 10000:
        return -490.546 / Re + 578700.0 / Re ** 2 + 0.46
    else:
        return -1662.5 / Re + 5416700.0 / Re ** 2 + 0.5191

def Graf(Re: float) -> float:
    return 24.0 / Re + 7.3 / (1 + sqrt(Re)) + 0.25

def Flemmer_Banks(Re: float) -> float:
    E = 0.383 * Re ** 0.356 - 0.207 * Re ** 0.396 - 0.143 / (1 + log10(Re) ** 2)
    return 24.0 / Re * 10 ** E

def Khan_Richardson(Re: float) -> float:
    return (2.49 * Re ** (-0.328) + 0.34 * Re ** 0.067) ** 3.18

def Swamee_Ojha(Re: float) -> float:
    Cd = 0.5 * sqrt(sqrt(16 * ((24.0 / Re) ** 1.6 + (130.0 / Re) ** 0.72) ** 2.5 + 1.0 / sqrt(sqrt((40000.0 / Re) ** 2 + 1))))
    return Cd

def Yen(Re: float) -> float:
    return 24.0 / Re * (1 + 0.15 * sqrt(Re) + 0.017 * Re) - 0.208 / (1 + 10000.0 * 1.0 / sqrt(Re))

def Haider_Levenspiel(Re: float) -> float:
    return 24.0 / Re * (1 + 0.1806 * Re ** 0.6459) + 0.4251 / (1 + 6880.95 / Re)

def Cheng(Re: float) -> float:
    return 24.0 / Re * (1.0 + 0.27 * Re) ** 0.43 + 0.47 * (1.0 - exp(-0.04 * Re ** 0.38))

def Terfous(Re: float) -> float:
    return 2.689 + 21.683 / Re + 0.131 / Re ** 2 - 10.616 / Re ** 0.1 + 12.216 / Re ** 0.2

def Mikhailov_Freire(Re: float) -> float:
    Cd = 3808.0 * (1617933.0 / 2030.0 + 178861.0 / 1063.0 * Re + 1219.0 / 1084.0 * Re ** 2) / (681.0 * Re * (77531.0 / 422.0 + 13529.0 / 976.0 * Re - 1.0 / 71154.0 * Re ** 2))
    return Cd

def Clift(Re: float) -> float:
    if Re < 0.01:
        return 24.0 / Re + 3.0 / 16.0
    elif Re < 20:
        return 24.0 / Re * (1 + 0.1315 * Re ** (0.82 - 0.05 * log10(Re)))
    elif Re < 260:
        return 24.0 / Re * (1 + 0.1935 * Re ** 0.6305)
    elif Re < 1500:
        return 10 ** (1.6435 - 1.1242 * log10(Re) + 0.1558 * log10(Re) ** 2)
    elif Re < 12000:
        return 10 ** (-2.4571 + 2.5558 * log10(Re) - 0.9295 * log10(Re) ** 2 + 0.1049 * log10(Re) ** 3)
    elif Re < 44000:
        return 10 ** (-1.9181 + 0.637 * log10(Re) - 0.0636 * log10(Re) ** 2)
    elif Re < 338000:
        return 10 ** (-4.339 + 1.5809 * log10(Re) - 0.1546 * log10(Re) ** 2)
    elif Re < 400000:
        return 29.78 - 5.3 * log10(Re)
    else:
        return 0.19 * log10(Re) - 0.49

def Ceylan(Re: float) -> float:
    Cd = 1 - 0.5 * exp(0.182) + 10.11 * Re ** (-2 / 3.0) * exp(0.952 / sqrt(sqrt(Re))) - 0.03859 * Re ** (-4 / 3.0) * exp(1.3 / sqrt(Re)) + 3.7e-06 * Re * exp(-1.25e-05 * Re) - 1.16e-11 * Re ** 2 * exp(-4.44e-06 * Re)
    return Cd

def Almedeij(Re: float) -> float:
    phi4 = ((6e-17 * Re ** 2.63) ** (-10) + 0.2 ** (-10)) ** (-1)
    phi3 = (157000000.0 * Re ** (-1.625)) ** 10
    phi2 = ((0.148 * Re ** 0.11) ** (-10) + 0.5 ** (-10)) ** (-1)
    phi1 = (24 * Re ** (-1)) ** 10 + (21 * Re ** (-0.67)) ** 10 + (4 * Re ** (-0.33)) ** 10 + 0.4 ** 10
    return (1 / ((phi1 + phi2) ** (-1) + phi3 ** (-1)) + phi4) ** 0.1

def Morrison(Re: float) -> float:
    Cd = 24.0 / Re + 2.6 * Re / 5.0 / (1 + (Re / 5.0) ** 1.52) + 0.411 * (Re / 263000.0) ** (-7.94) / (1 + (Re / 263000.0) ** (-8)) + Re ** 0.8 / 461000.0
    return Cd

def Song_Xu(Re: float, sphericity: float=1.0, S: float=1.0) -> float:
    return 24 / (Re * sphericity ** 0.65 * S ** 0.3) * (1 + 0.35 * Re) ** 0.44
drag_sphere_correlations = {'Stokes': (Stokes, None, 0.3), 'Barati': (Barati, None, 200000.0), 'Barati_high': (Barati_high, None, 1000000.0), 'Rouse': (Rouse, None, 200000.0), 'Engelund_Hansen': (Engelund_Hansen, None, 200000.0), 'Clift_Gauvin': (Clift_Gauvin, None, 200000.0), 'Morsi_Alexander': (Morsi_Alexander, None, 200000.0), 'Graf': (Graf, None, 200000.0), 'Flemmer_Banks': (Flemmer_Banks, None, 200000.0), 'Khan_Richardson': (Khan_Richardson, None, 200000.0), 'Swamee_Ojha': (Swamee_Ojha, None, 150000.0), 'Yen': (Yen, None, 200000.0), 'Haider_Levenspiel': (Haider_Levenspiel, None, 200000.0), 'Cheng': (Cheng, None, 200000.0), 'Terfous': (Terfous, 0.1, 50000.0), 'Mikhailov_Freire': (Mikhailov_Freire, None, 118300), 'Clift': (Clift, None, 1000000.0), 'Ceylan': (Ceylan, 0.1, 1000000.0), 'Almedeij': (Almedeij, None, 1000000.0), 'Morrison': (Morrison, None, 1000000.0), 'Song_Xu': (Song_Xu, None, 1000.0)}

def drag_sphere_methods(Re: float, check_ranges: bool=True) -> list[str]:
    methods = []
    for key, (func, Re_min, Re_max) in drag_sphere_correlations.items():
        if (Re_min is None or Re > Re_min) and (Re_max is None or Re < Re_max) or not check_ranges:
            methods.append(key)
    return methods

def drag_sphere(Re: float, Method: str | None=None) -> float:
    if Method is None:
        if Re > 0.1:
            if Re <= 212963.26847812787:
                return Barati(Re)
            else:
                return Barati_high(Re)
        elif Re >= 0.01:
            ratio = (Re - 0.01) / (0.1 - 0.01)
            return ratio * Barati(Re) + (1 - ratio) * Stokes(Re)
        else:
            return Stokes(Re)
    if Method == 'Stokes':
        return Stokes(Re)
    elif Method == 'Barati':
        return Barati(Re)
    elif Method == 'Barati_high':
        return Barati_high(Re)
    elif Method == 'Rouse':
        return Rouse(Re)
    elif Method == 'Engelund_Hansen':
        return Engelund_Hansen(Re)
    elif Method == 'Clift_Gauvin':
        return Clift_Gauvin(Re)
    elif Method == 'Morsi_Alexander':
        return Morsi_Alexander(Re)
    elif Method == 'Graf':
        return Graf(Re)
    elif Method == 'Flemmer_Banks':
        return Flemmer_Banks(Re)
    elif Method == 'Khan_Richardson':
        return Khan_Richardson(Re)
    elif Method == 'Swamee_Ojha':
        return Swamee_Ojha(Re)
    elif Method == 'Yen':
        return Yen(Re)
    elif Method == 'Haider_Levenspiel':
        return Haider_Levenspiel(Re)
    elif Method == 'Cheng':
        return Cheng(Re)
    elif Method == 'Terfous':
        return Terfous(Re)
    elif Method == 'Mikhailov_Freire':
        return Mikhailov_Freire(Re)
    elif Method == 'Clift':
        return Clift(Re)
    elif Method == 'Ceylan':
        return Ceylan(Re)
    elif Method == 'Almedeij':
        return Almedeij(Re)
    elif Method == 'Morrison':
        return Morrison(Re)
    elif Method == 'Song_Xu':
        return Song_Xu(Re)
    else:
        raise ValueError('Unrecognized method')

def _v_terminal_err(V: float, Method: str | None, Re_almost: float, main: float) -> float:
    Cd = drag_sphere(Re_almost * V, Method=Method)
    return V - sqrt(main / Cd)

def v_terminal(D: float, rhop: float, rho: float, mu: float, Method: str | None=None) -> float:
    """The following would be the ideal implementation. The actual function is
    optimized for speed, not readability
    def err(V):
        Re = rho*V*D/mu
        Cd = Barati_high(Re)
        V2 = (4/3.*g*D*(rhop-rho)/rho/Cd)**0.5
        return (V-V2)
    return fsolve(err, 1.)"""
    v_lam = g * D * D * (rhop - rho) / (18 * mu)
    Re_lam = Reynolds(V=v_lam, D=D, rho=rho, mu=mu)
    if Re_lam < 0.01 or Method == 'Stokes':
        return v_lam
    Re_almost = rho * D / mu
    main = 4 / 3.0 * g * D * (rhop - rho) / rho
    V_max = 1000000.0 / rho / D * mu
    return secant(_v_terminal_err, V_max * 0.01, xtol=1e-12, args=(Method, Re_almost, main))

def time_v_terminal_Stokes(D: float, rhop: float, rho: float, mu: float, V0: float, tol: float=1e-14) -> float:
    if tol < 1e-17:
        tol = 2e-17
    term = D * D * g * rho - D * D * g * rhop
    denominator = term + 18.0 * mu * V0
    v_term_base = g * D * D * (rhop - rho) / (18.0 * mu)
    const = D * D * rhop / mu * -1.0 / 18.0
    for i in range(50):
        try:
            if v_term_base < V0:
                v_term = v_term_base * (1.0 + tol)
            else:
                v_term = v_term_base * (1.0 - tol)
            numerator = term + 18.0 * mu * v_term
            return log(numerator / denominator) * const
        except:
            tol = tol + tol
            if tol > 0.01:
                raise ValueError('Could not find a solution')
    raise ValueError('Could not find a solution')

def integrate_drag_sphere(D: float, rhop: float, rho: float, mu: float, t: float, V: float=0, Method: str | None=None, distance: bool=False) -> tuple[float, float] | float:
    import numpy as np
    from scipy.integrate import odeint
    laminar_initial = Reynolds(V=V, rho=rho, D=D, mu=mu) < 0.01
    v_laminar_end_assumed = v_terminal(D=D, rhop=rhop, rho=rho, mu=mu, Method=Method)
    laminar_end = Reynolds(V=v_laminar_end_assumed, rho=rho, D=D, mu=mu) < 0.01
    if Method == 'Stokes' or (laminar_initial and laminar_end and (Method is None)):
        try:
            t1 = 18.0 * mu / (D * D * rhop)
            t2 = g * (rhop - rho) / rhop
            V_end = exp(-t1 * t) * (t1 * V + t2 * (exp(t1 * t) - 1.0)) / t1
            x_end = exp(-t1 * t) * (V * t1 * (exp(t1 * t) - 1.0) + t2 * exp(t1 * t) * (t1 * t - 1.0) + t2) / (t1 * t1)
            if distance:
                return (V_end, x_end)
            else:
                return V_end
        except OverflowError:
            t_to_terminal = time_v_terminal_Stokes(D, rhop, rho, mu, V0=V, tol=1e-09)
            if t_to_terminal > t:
                raise ValueError('Should never happen')
            result = integrate_drag_sphere(D=D, rhop=rhop, rho=rho, mu=mu, t=t_to_terminal, V=V, Method='Stokes', distance=True)
            V_end, x_end = result
            if distance:
                return (V_end, x_end + V_end * (t - t_to_terminal))
            else:
                return V_end
    Re_ish = rho * D / mu
    c1 = g * (rhop - rho) / rhop
    c2 = -0.75 * rho / (D * rhop)

    def dv_dt(V, t):
        V = float(V[0])
        if V == 0:
            t2 = 0.0
        else:
            t2 = c2 * V * V * drag_sphere(Re_ish * V, Method=Method)
        return c1 + t2
    pts = 1000 if distance else 2
    ts = np.linspace(0, t, pts)
    Vs = odeint(dv_dt, [V], ts)
    V_end = float(Vs[-1][0])
    if distance:
        x = cumulative_trapezoid(np.ravel(Vs).tolist(), ts.tolist())[-1]
        return (V_end, x)
    else:
        return V_end
