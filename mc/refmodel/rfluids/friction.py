from __future__ import annotations
from math import cos, exp, isinf, log, log10, pi, radians, sin, sqrt, tan
from rfluids.constants import g, inch
from rfluids.core import Dean, Reynolds
from rfluids.numerics import cbrt, lambertw, secant
__all__: list[str] = ['LAMINAR_TRANSITION_PIPE', 'Alshul_1952', 'Avci_Karagoz_2009', 'Barr_1981', 'Blasius', 'Brkic_2011_1', 'Brkic_2011_2', 'Buzzelli_2008', 'Chen_1979', 'Churchill_1973', 'Churchill_1977', 'Clamond', 'Colebrook', 'Eck_1973', 'Fang_2011', 'HHR_roughness', 'Haaland', 'Jain_1976', 'Manadilli_1997', 'Moody', 'Papaevangelo_2010', 'Prandtl_von_Karman_Nikuradse', 'Rao_Kumar_2007', 'Romeo_2002', 'Round_1980', 'Serghides_1', 'Serghides_2', 'Shacham_1980', 'Sonnad_Goudar_2006', 'Swamee_Jain_1976', 'Tsal_1989', 'Wood_1966', 'Zigrang_Sylvester_1', 'Zigrang_Sylvester_2', '_Farshad_roughness', '_roughness', 'friction_factor', 'friction_factor_curved', 'friction_factor_curved_methods', 'friction_factor_methods', 'friction_laminar', 'friction_plate_Kumar', 'friction_plate_Martin_1999', 'friction_plate_Martin_VDI', 'friction_plate_Muley_Manglik', 'ft_Crane', 'helical_Re_crit', 'helical_laminar_fd_Mori_Nakayama', 'helical_laminar_fd_Schmidt', 'helical_laminar_fd_White', 'helical_transition_Re_Ito', 'helical_transition_Re_Kubair_Kuloor', 'helical_transition_Re_Kutateladze_Borishanskii', 'helical_transition_Re_Schmidt', 'helical_transition_Re_Seth_Stahel', 'helical_transition_Re_Srinivasan', 'helical_turbulent_fd_Czop', 'helical_turbulent_fd_Guo', 'helical_turbulent_fd_Ju', 'helical_turbulent_fd_Mandal_Nigam', 'helical_turbulent_fd_Mori_Nakayama', 'helical_turbulent_fd_Prasad', 'helical_turbulent_fd_Schmidt', 'helical_turbulent_fd_Srinivasan', 'material_roughness', 'nearest_material_roughness', 'one_phase_dP', 'one_phase_dP_acceleration', 'one_phase_dP_dz_acceleration', 'one_phase_dP_gravitational', 'oregon_smooth_data', 'roughness_Farshad', 'transmission_factor', 'von_Karman']
fuzzy_match_fun = None

def fuzzy_match(name: str, strings: set[str]) -> str:
    global fuzzy_match_fun
    if fuzzy_match_fun is not None:
        return fuzzy_match_fun(name, strings)
    try:
        from thefuzz import process
        fuzzy_match_fun = lambda name, strings: process.extract(name, strings, limit=10)[0][0]
    except ImportError:
        import difflib
        fuzzy_match_fun = lambda name, strings: difflib.get_close_matches(name, strings, n=1, cutoff=0)[0]
    return fuzzy_match_fun(name, strings)
LAMINAR_TRANSITION_PIPE = 2040.0
'Believed to be the most accurate result to date. Accurate to +/- 10.\nAvila, Kerstin, David Moxey, Alberto de Lozar, Marc Avila, Dwight Barkley, and\nBjörn Hof. "The Onset of Turbulence in Pipe Flow." Science 333, no. 6039\n(July 8, 2011): 192-196. doi:10.1126/science.1203223.\n'
oregon_Res = [11.21, 20.22, 29.28, 43.19, 57.73, 64.58, 86.05, 113.3, 135.3, 157.5, 179.4, 206.4, 228.0, 270.9, 315.2, 358.9, 402.9, 450.2, 522.5, 583.1, 671.8, 789.8, 891.0, 1013.0, 1197.0, 1300.0, 1390.0, 1669.0, 1994.0, 2227.0, 2554.0, 2868.0, 2903.0, 2926.0, 2955.0, 2991.0, 2997.0, 3047.0, 3080.0, 3264.0, 3980.0, 4835.0, 5959.0, 8162.0, 10900.0, 13650.0, 18990.0, 29430.0, 40850.0, 59220.0, 84760.0, 120000.0, 176000.0, 237700.0, 298200.0, 467800.0, 587500.0, 824200.0, 1050000.0]
oregon_fd_smooth = [5.537, 3.492, 2.329, 1.523, 1.173, 0.9863, 0.7826, 0.5709, 0.4815, 0.4182, 0.3655, 0.3237, 0.2884, 0.2433, 0.2077, 0.1834, 0.1656, 0.1475, 0.1245, 0.1126, 0.09917, 0.08501, 0.07722, 0.06707, 0.0588, 0.05328, 0.04815, 0.04304, 0.03739, 0.03405, 0.03091, 0.02804, 0.03182, 0.03846, 0.03363, 0.04124, 0.035, 0.03875, 0.04285, 0.0426, 0.03995, 0.03797, 0.0361, 0.03364, 0.03088, 0.02903, 0.0267, 0.02386, 0.02086, 0.02, 0.01805, 0.01686, 0.01594, 0.01511, 0.01462, 0.01365, 0.01313, 0.01244, 0.01198]
oregon_smooth_data = (oregon_Res, oregon_fd_smooth)
'Holds a tuple of experimental results from the smooth pipe flow experiments\npresented in McKEON, B. J., C. J. SWANSON, M. V. ZAGAROLA, R. J. DONNELLY, and\nA. J. SMITS. "Friction Factors for Smooth Pipe Flow." Journal of Fluid\nMechanics 511 (July 1, 2004): 41-44. doi:10.1017/S0022112004009796.\n'

def friction_laminar(Re: float) -> float:
    return 64.0 / Re

def Blasius(Re: float) -> float:
    return 0.3164 / sqrt(sqrt(Re))

def Colebrook(Re: float, eD: float, tol: float | None=None) -> float:
    if tol == -1:
        if Re > 10.0:
            return Clamond(Re, eD, False)
        else:
            tol = None
    elif tol == 0:
        try:
            from mpmath import lambertw as mp_lambertw
            from mpmath import log, mp, mpf
            from mpmath import sqrt as sqrtmp
        except ImportError:
            raise ImportError('For exact solutions, the `mpmath` library is required')
        mp.dps = 50
        Re = mpf(Re)
        eD_Re = mpf(eD) * Re
        sub = 1 / mpf('6.3001') * 10 ** (1 / mpf('9.287') * eD_Re) * Re * Re
        lambert_term = mp_lambertw(log(sqrtmp(10)) * sqrtmp(sub))
        den = log(10) * eD_Re - 18.574 * lambert_term
        return float(log(10) ** 2 * mpf('3.7') ** 2 * mpf('2.51') ** 2 / (den * den))
    if tol is None:
        try:
            eD_Re = eD * Re
            sub = 0.15872763924382155 * 10.0 ** (0.10767739851405189 * eD_Re) * Re * Re
            if isinf(sub):
                raise OverflowError
            lambert_term = float(lambertw(1.151292546497023 * sqrt(sub)).real)
            den = 2.302585092994046 * eD_Re - 18.574 * lambert_term
            return 457.2800646329437 / (den * den)
        except OverflowError:
            pass
    if tol is None:
        tol = 1e-12
    try:
        fd_guess = Clamond(Re, eD)
    except ValueError:
        fd_guess = Blasius(Re)

    def err(x):
        f_12_inv = 1.0 / sqrt(abs(x))
        return f_12_inv + 2.0 * log10(eD * 0.27027027027027023 + 2.51 / Re * f_12_inv)
    fd = abs(secant(err, fd_guess, xtol=tol))
    return fd

def Clamond(Re: float, eD: float, fast: bool=False) -> float:
    X1 = eD * Re * 0.12396818633541755
    X2 = log(Re) - 0.7793974884556819
    F = X2 - 0.2
    X1F = X1 + F
    X1F1 = 1.0 + X1F
    E = (log(X1F) - 0.2) / X1F1
    F = F - (X1F1 + 0.5 * E) * E * X1F / (X1F1 + E * (1.0 + 1.0 / 3.0 * E))
    if not fast:
        X1F = X1 + F
        X1F1 = 1.0 + X1F
        E = (log(X1F) + F - X2) / X1F1
        b = X1F1 + E * (1.0 + 1.0 / 3.0 * E)
        F = b / (b * F - (X1F1 + 0.5 * E) * E * X1F)
        return 1.3254745276195996 * (F * F)
    return 1.3254745276195996 / (F * F)

def Moody(Re: float, eD: float) -> float:
    return 4.0 * (0.001375 * (1.0 + cbrt(20000.0 * eD + 1000000.0 / Re)))

def Alshul_1952(Re: float, eD: float) -> float:
    return 0.11 * sqrt(sqrt(68.0 / Re + eD))

def Wood_1966(Re: float, eD: float) -> float:
    A1 = 1.62 * eD ** 0.134
    return 0.094 * eD ** 0.225 + 0.53 * eD + 88.0 * eD ** 0.4 * Re ** (-A1)

def Churchill_1973(Re: float, eD: float) -> float:
    term = -2.0 * log10(eD * (1.0 / 3.7) + (7.0 / Re) ** 0.9)
    return 1.0 / (term * term)

def Eck_1973(Re: float, eD: float) -> float:
    term = -2.0 * log10(eD * (1.0 / 3.715) + 15.0 / Re)
    return 1.0 / (term * term)

def Jain_1976(Re: float, eD: float) -> float:
    term = 2.28 - 4.0 * log10(eD + (29.843 / Re) ** 0.9)
    return 4.0 / (term * term)

def Swamee_Jain_1976(Re: float, eD: float) -> float:
    term = -4.0 * log10((6.97 / Re) ** 0.9 + eD * (1.0 / 3.7))
    return 4.0 / (term * term)

def Churchill_1977(Re: float, eD: float) -> float:
    A3 = (37530 / Re) ** 16
    A2 = (2.457 * log((7.0 / Re) ** 0.9 + 0.27 * eD)) ** 16
    ff = 2.0 * ((8.0 / Re) ** 12 + 1.0 / (A2 + A3) ** 1.5) ** (1.0 / 12.0)
    return 4.0 * ff

def Chen_1979(Re: float, eD: float) -> float:
    A4 = eD ** 1.1098 * (1.0 / 2.8257) + (7.149 / Re) ** 0.8981
    term = -4.0 * log10(eD * (1.0 / 3.7065) - 5.0452 / Re * log10(A4))
    return 4.0 / (term * term)

def Round_1980(Re: float, eD: float) -> float:
    term = -3.6 * log10(Re / (0.135 * Re * eD + 6.5))
    return 4.0 / (term * term)

def Shacham_1980(Re: float, eD: float) -> float:
    term = -4.0 * log10(eD * (1.0 / 3.7) - 5.02 / Re * log10(eD * (1.0 / 3.7) + 14.5 / Re))
    return 4.0 / (term * term)

def Barr_1981(Re: float, eD: float) -> float:
    term = -2.0 * log10(eD * (1.0 / 3.7) + 4.518 * log10(Re * (1.0 / 7.0)) / (Re * (1.0 + Re ** 0.52 * (1.0 / 29.0) * eD ** 0.7)))
    return 1.0 / (term * term)

def Zigrang_Sylvester_1(Re: float, eD: float) -> float:
    A5 = eD * (1.0 / 3.7) + 13.0 / Re
    term = -4.0 * log10(eD * (1.0 / 3.7) - 5.02 / Re * log10(A5))
    return 4.0 / (term * term)

def Zigrang_Sylvester_2(Re: float, eD: float) -> float:
    A5 = eD * (1.0 / 3.7) + 13.0 / Re
    A6 = eD * (1.0 / 3.7) - 5.02 / Re * log10(A5)
    term = -4.0 * log10(eD * (1.0 / 3.7) - 5.02 / Re * log10(A6))
    return 4.0 / (term * term)

def Haaland(Re: float, eD: float) -> float:
    term = -3.6 * log10(6.9 / Re + (eD * (1.0 / 3.7)) ** 1.11)
    return 4.0 / (term * term)

def Serghides_1(Re: float, eD: float) -> float:
    A = -2.0 * log10(eD * (1.0 / 3.7) + 12.0 / Re)
    B = -2.0 * log10(eD * (1.0 / 3.7) + 2.51 * A / Re)
    C = -2.0 * log10(eD * (1.0 / 3.7) + 2.51 * B / Re)
    B_minus_A = B - A
    term = A - B_minus_A * B_minus_A / (C - 2.0 * B + A)
    return 1.0 / (term * term)

def Serghides_2(Re: float, eD: float) -> float:
    A = -2.0 * log10(eD * (1.0 / 3.7) + 12.0 / Re)
    B = -2.0 * log10(eD * (1.0 / 3.7) + 2.51 * A / Re)
    x1 = A - 4.781
    term = 4.781 - x1 * x1 / (B - 2.0 * A + 4.781)
    return 1.0 / (term * term)

def Tsal_1989(Re: float, eD: float) -> float:
    A = 0.11 * sqrt(sqrt(68.0 / Re + eD))
    if A >= 0.018:
        return A
    else:
        return 0.0028 + 0.85 * A

def Manadilli_1997(Re: float, eD: float) -> float:
    term = -2.0 * log10(eD * (1.0 / 3.7) + 95.0 * Re ** (-0.983) - 96.82 / Re)
    return 1.0 / (term * term)

def Romeo_2002(Re: float, eD: float) -> float:
    term = -2.0 * log10(eD * (1.0 / 3.7065) - 5.0272 / Re * log10(eD * (1.0 / 3.827) - 4.567 / Re * log10((eD * (1.0 / 7.7918)) ** 0.9924 + (5.3326 / (208.815 + Re)) ** 0.9345)))
    return 1.0 / (term * term)

def Sonnad_Goudar_2006(Re: float, eD: float) -> float:
    S = 0.124 * eD * Re + log(0.4587 * Re)
    term = 0.8686 * log(0.4587 * Re / S ** (S / (S + 1.0)))
    return 1.0 / (term * term)

def Rao_Kumar_2007(Re: float, eD: float) -> float:
    term = log(Re * (1.0 / 6.5))
    beta = 1.0 - 0.55 * exp(-0.33 * term * term)
    term = 2.0 * log10(1.0 / (2.0 * eD * beta * (0.444 / Re + 0.135)))
    return 1.0 / (term * term)

def Buzzelli_2008(Re: float, eD: float) -> float:
    B1 = (0.774 * log(Re) - 1.41) / (1.0 + 1.32 * sqrt(eD))
    B2 = eD * (1.0 / 3.7) * Re + 2.51 * B1
    term = B1 - (B1 + 2.0 * log10(B2 / Re)) / (1.0 + 2.18 / B2)
    return 1.0 / (term * term)

def Avci_Karagoz_2009(Re: float, eD: float) -> float:
    return 6.4 * (log(Re) - log(1.0 + 0.01 * Re * eD * (1.0 + 10.0 * sqrt(eD)))) ** (-2.4)

def Papaevangelo_2010(Re: float, eD: float) -> float:
    x1 = 7.0 - log(Re)
    term = log10(eD * (1.0 / 3.615) + 7.366 * Re ** (-0.9142))
    return (0.2479 - 9.47e-05 * x1 * x1 * x1 * x1) / (term * term)

def Brkic_2011_1(Re: float, eD: float) -> float:
    beta = log(Re / (1.816 * log(1.1 * Re / log(1.0 + 1.1 * Re))))
    term = -2.0 * log10(10.0 ** (-0.4343 * beta) + eD * (1.0 / 3.71))
    return 1.0 / (term * term)

def Brkic_2011_2(Re: float, eD: float) -> float:
    beta = log(Re / (1.816 * log(1.1 * Re / log(1.0 + 1.1 * Re))))
    term = -2.0 * log10(2.18 * beta / Re + eD * (1.0 / 3.71))
    return 1.0 / (term * term)

def Fang_2011(Re: float, eD: float) -> float:
    term = log(0.234 * eD ** 1.1007 - 60.525 * Re ** (-1.1105) + 56.291 * Re ** (-1.0712))
    return 1.613 / (term * term)

def von_Karman(eD: float) -> float:
    x = log10(eD * (1.0 / 3.7))
    return 0.25 / (x * x)

def Prandtl_von_Karman_Nikuradse(Re: float) -> float:
    c1 = 1.151292546497023
    c2 = 1.3254745276195996
    return c2 / float(lambertw(c1 * Re / 2.51).real) ** 2
Crane_fts_nominal_Ds = [0.015, 0.02, 0.025, 0.032, 0.04, 0.05, 0.065, 0.08, 0.1, 0.125, 0.15, 0.2, 0.25, 0.35, 0.4, 0.55, 0.6, 0.9]
Crane_fts_Ds = [0.01576, 0.02096, 0.02664, 0.03508, 0.04094, 0.05248, 0.06268, 0.07792, 0.10226, 0.1282, 0.154, 0.20274, 0.25446, 0.33334, 0.381, 0.53994, 0.57504, 0.8759]
Crane_fts = [0.026, 0.024, 0.022, 0.021, 0.02, 0.019, 0.018, 0.017, 0.016, 0.015, 0.015, 0.014, 0.013, 0.013, 0.012, 0.012, 0.011, 0.011]

def ft_Crane(D: float) -> float:
    fast = True
    if D < 0.01:
        fast = False
    return Clamond(7500000.0 * D, 3.4126825352925e-05 * D ** (-1.0112), fast)
fmethods = {'Moody': (4000.0, 100000000.0, 0.0, 0.01), 'Alshul_1952': (None, None, None, None), 'Wood_1966': (4000.0, 50000000.0, 1e-05, 0.04), 'Churchill_1973': (None, None, None, None), 'Eck_1973': (None, None, None, None), 'Jain_1976': (5000.0, 10000000.0, 4e-05, 0.05), 'Swamee_Jain_1976': (5000.0, 100000000.0, 1e-06, 0.05), 'Churchill_1977': (None, None, None, None), 'Chen_1979': (4000.0, 400000000.0, 1e-07, 0.05), 'Round_1980': (4000.0, 400000000.0, 0.0, 0.05), 'Shacham_1980': (4000.0, 400000000.0, None, None), 'Barr_1981': (None, None, None, None), 'Zigrang_Sylvester_1': (4000.0, 100000000.0, 4e-05, 0.05), 'Zigrang_Sylvester_2': (4000.0, 100000000.0, 4e-05, 0.05), 'Haaland': (4000.0, 100000000.0, 1e-06, 0.05), 'Serghides_1': (None, None, None, None), 'Serghides_2': (None, None, None, None), 'Tsal_1989': (4000.0, 100000000.0, 0.0, 0.05), 'Manadilli_1997': (5245.0, 100000000.0, 0.0, 0.05), 'Romeo_2002': (3000.0, 150000000.0, 0.0, 0.05), 'Sonnad_Goudar_2006': (4000.0, 100000000.0, 1e-06, 0.05), 'Rao_Kumar_2007': (None, None, None, None), 'Buzzelli_2008': (None, None, None, None), 'Avci_Karagoz_2009': (None, None, None, None), 'Papaevangelo_2010': (10000.0, 10000000.0, 1e-05, 0.001), 'Brkic_2011_1': (None, None, None, None), 'Brkic_2011_2': (None, None, None, None), 'Fang_2011': (3000.0, 100000000.0, 0.0, 0.05), 'Clamond': (0, None, 0.0, None), 'Colebrook': (0, None, 0.0, None)}

def friction_factor_methods(Re: float, eD: float=0.0, check_ranges: bool=True) -> list[str]:
    if check_ranges:
        if Re < LAMINAR_TRANSITION_PIPE:
            return ['laminar']
        methods = []
        for n, (Re_min, Re_max, eD_min, eD_max) in fmethods.items():
            if Re_min is not None and Re < Re_min:
                continue
            if Re_max is not None and Re > Re_max:
                continue
            if eD_min is not None and eD < eD_min:
                continue
            if eD_max is not None and eD > eD_max:
                continue
            methods.append(n)
        return methods
    else:
        return list(fmethods.keys()) + ['laminar']

def friction_factor(Re: float, eD: float=0.0, Method: str | None='Clamond', Darcy: bool=True) -> float:
    if Method is None:
        Method = 'Clamond'
    if Re < LAMINAR_TRANSITION_PIPE or Method == 'laminar':
        f = friction_laminar(Re)
    elif Method == 'Clamond':
        f = Clamond(Re, eD, False)
    elif Method == 'Colebrook':
        f = Colebrook(Re, eD)
    elif Method == 'Moody':
        f = Moody(Re, eD)
    elif Method == 'Alshul_1952':
        f = Alshul_1952(Re, eD)
    elif Method == 'Wood_1966':
        f = Wood_1966(Re, eD)
    elif Method == 'Churchill_1973':
        f = Churchill_1973(Re, eD)
    elif Method == 'Eck_1973':
        f = Eck_1973(Re, eD)
    elif Method == 'Jain_1976':
        f = Jain_1976(Re, eD)
    elif Method == 'Swamee_Jain_1976':
        f = Swamee_Jain_1976(Re, eD)
    elif Method == 'Churchill_1977':
        f = Churchill_1977(Re, eD)
    elif Method == 'Chen_1979':
        f = Chen_1979(Re, eD)
    elif Method == 'Round_1980':
        f = Round_1980(Re, eD)
    elif Method == 'Shacham_1980':
        f = Shacham_1980(Re, eD)
    elif Method == 'Barr_1981':
        f = Barr_1981(Re, eD)
    elif Method == 'Zigrang_Sylvester_1':
        f = Zigrang_Sylvester_1(Re, eD)
    elif Method == 'Zigrang_Sylvester_2':
        f = Zigrang_Sylvester_2(Re, eD)
    elif Method == 'Haaland':
        f = Haaland(Re, eD)
    elif Method == 'Serghides_1':
        f = Serghides_1(Re, eD)
    elif Method == 'Serghides_2':
        f = Serghides_2(Re, eD)
    elif Method == 'Tsal_1989':
        f = Tsal_1989(Re, eD)
    elif Method == 'Manadilli_1997':
        f = Manadilli_1997(Re, eD)
    elif Method == 'Romeo_2002':
        f = Romeo_2002(Re, eD)
    elif Method == 'Sonnad_Goudar_2006':
        f = Sonnad_Goudar_2006(Re, eD)
    elif Method == 'Rao_Kumar_2007':
        f = Rao_Kumar_2007(Re, eD)
    elif Method == 'Buzzelli_2008':
        f = Buzzelli_2008(Re, eD)
    elif Method == 'Avci_Karagoz_2009':
        f = Avci_Karagoz_2009(Re, eD)
    elif Method == 'Papaevangelo_2010':
        f = Papaevangelo_2010(Re, eD)
    elif Method == 'Brkic_2011_1':
        f = Brkic_2011_1(Re, eD)
    elif Method == 'Brkic_2011_2':
        f = Brkic_2011_2(Re, eD)
    elif Method == 'Fang_2011':
        f = Fang_2011(Re, eD)
    else:
        raise ValueError('Method not recognized')
    if not Darcy:
        f *= 0.25
    return f

def helical_laminar_fd_White(Re: float, Di: float, Dc: float) -> float:
    De = Dean(Re=Re, Di=Di, D=Dc)
    fd = friction_laminar(Re)
    if De < 11.6:
        return fd
    return fd / (1.0 - (1.0 - (11.6 / De) ** 0.45) ** (1.0 / 0.45))

def helical_laminar_fd_Mori_Nakayama(Re: float, Di: float, Dc: float) -> float:
    De = Dean(Re=Re, Di=Di, D=Dc)
    fd = friction_laminar(Re)
    if De < 42.328036:
        return fd * 1.405296
    return fd * (0.108 * sqrt(De)) / (1.0 - 3.253 / sqrt(De))

def helical_laminar_fd_Schmidt(Re: float, Di: float, Dc: float) -> float:
    fd = friction_laminar(Re)
    D_ratio = Di / Dc
    return fd * (1.0 + 0.14 * D_ratio ** 0.97 * Re ** (1.0 - 0.644 * D_ratio ** 0.312))

def helical_turbulent_fd_Srinivasan(Re: float, Di: float, Dc: float) -> float:
    De = Dean(Re=Re, Di=Di, D=Dc)
    return 0.336 * De ** (-0.2)

def helical_turbulent_fd_Schmidt(Re: float, Di: float, Dc: float, roughness: float=0) -> float:
    fd = friction_factor(Re=Re, eD=roughness / Di)
    if Re < 22000.0:
        return fd * (1.0 + 28800.0 / Re * (Di / Dc) ** 0.62)
    else:
        return fd * (1.0 + 0.0823 * (1.0 + Di / Dc) * (Di / Dc) ** 0.53 * sqrt(sqrt(Re)))

def helical_turbulent_fd_Mori_Nakayama(Re: float, Di: float, Dc: float) -> float:
    Di_Dc = Di / Dc
    term = (Re * Di_Dc * Di_Dc) ** (-0.2)
    return 0.3 / sqrt(Dc / Di) * term * (1.0 + 0.112 * term)

def helical_turbulent_fd_Prasad(Re: float, Di: float, Dc: float, roughness: float=0) -> float:
    fd = friction_factor(Re=Re, eD=roughness / Di)
    Di_Dc = Di / Dc
    return fd * (1.0 + 0.18 * sqrt(sqrt(Re * Di_Dc * Di_Dc)))

def helical_turbulent_fd_Czop(Re: float, Di: float, Dc: float) -> float:
    De = Dean(Re=Re, Di=Di, D=Dc)
    return 0.096 * De ** (-0.1517)

def helical_turbulent_fd_Guo(Re: float, Di: float, Dc: float) -> float:
    return 0.638 * Re ** (-0.15) * (Di / Dc) ** 0.51

def helical_turbulent_fd_Ju(Re: float, Di: float, Dc: float, roughness: float=0.0) -> float:
    fd = friction_factor(Re=Re, eD=roughness / Di)
    return fd * (1.0 + 0.11 * Re ** 0.23 * (Di / Dc) ** 0.14)

def helical_turbulent_fd_Mandal_Nigam(Re: float, Di: float, Dc: float, roughness: float=0) -> float:
    De = Dean(Re=Re, Di=Di, D=Dc)
    fd = friction_factor(Re=Re, eD=roughness / Di)
    return fd * (1.0 + 0.03 * De ** 0.27)

def helical_transition_Re_Seth_Stahel(Di: float, Dc: float) -> float:
    return 1900.0 * (1.0 + 8.0 * sqrt(Di / Dc))

def helical_transition_Re_Ito(Di: float, Dc: float) -> float:
    return 20000.0 * (Di / Dc) ** 0.32

def helical_transition_Re_Kubair_Kuloor(Di: float, Dc: float) -> float:
    return 12730.0 * (Di / Dc) ** 0.2

def helical_transition_Re_Kutateladze_Borishanskii(Di: float, Dc: float) -> float:
    return 2300.0 + 10500.0 * (Di / Dc) ** 0.3

def helical_transition_Re_Schmidt(Di: float, Dc: float) -> float:
    return 2300.0 * (1.0 + 8.6 * (Di / Dc) ** 0.45)

def helical_transition_Re_Srinivasan(Di: float, Dc: float) -> float:
    return 2100.0 * (1.0 + 12.0 * sqrt(Di / Dc))
curved_friction_laminar_methods = {'White': helical_laminar_fd_White, 'Mori Nakayama laminar': helical_laminar_fd_Mori_Nakayama, 'Schmidt laminar': helical_laminar_fd_Schmidt}
curved_friction_turbulent_methods = {'Schmidt turbulent': (helical_turbulent_fd_Schmidt, True), 'Mori Nakayama turbulent': (helical_turbulent_fd_Mori_Nakayama, False), 'Prasad': (helical_turbulent_fd_Prasad, True), 'Czop': (helical_turbulent_fd_Czop, False), 'Guo': (helical_turbulent_fd_Guo, False), 'Ju': (helical_turbulent_fd_Ju, True), 'Mandal Nigam': (helical_turbulent_fd_Mandal_Nigam, True), 'Srinivasan turbulent': (helical_turbulent_fd_Srinivasan, False)}
curved_friction_transition_methods = {'Seth Stahel': helical_transition_Re_Seth_Stahel, 'Ito': helical_transition_Re_Ito, 'Kubair Kuloor': helical_transition_Re_Kubair_Kuloor, 'Kutateladze Borishanskii': helical_transition_Re_Kutateladze_Borishanskii, 'Schmidt': helical_transition_Re_Schmidt, 'Srinivasan': helical_transition_Re_Srinivasan}
_bad_curved_transition_method = f'Invalid method specified for transition Reynolds number;\nvalid methods are {list(curved_friction_transition_methods.keys())}'
curved_friction_turbulent_methods_list = ['Schmidt turbulent', 'Mori Nakayama turbulent', 'Prasad', 'Czop', 'Guo', 'Ju', 'Mandal Nigam', 'Srinivasan turbulent']
curved_friction_laminar_methods_list = ['White', 'Mori Nakayama laminar', 'Schmidt laminar']

def helical_Re_crit(Di: float, Dc: float, Method: str='Schmidt') -> float:
    if Method == 'Schmidt':
        Re_crit = helical_transition_Re_Schmidt(Di, Dc)
    elif Method == 'Seth Stahel':
        Re_crit = helical_transition_Re_Seth_Stahel(Di, Dc)
    elif Method == 'Ito':
        Re_crit = helical_transition_Re_Ito(Di, Dc)
    elif Method == 'Kubair Kuloor':
        Re_crit = helical_transition_Re_Kubair_Kuloor(Di, Dc)
    elif Method == 'Kutateladze Borishanskii':
        Re_crit = helical_transition_Re_Kutateladze_Borishanskii(Di, Dc)
    elif Method == 'Srinivasan':
        Re_crit = helical_transition_Re_Srinivasan(Di, Dc)
    else:
        raise ValueError(_bad_curved_transition_method)
    return Re_crit

def friction_factor_curved_methods(Re: float, Di: float, Dc: float, roughness: float=0.0, check_ranges: bool=True) -> list[str]:
    Re_crit = helical_Re_crit(Di=Di, Dc=Dc, Method='Schmidt')
    turbulent = not Re < Re_crit
    if check_ranges:
        if turbulent:
            return list(curved_friction_turbulent_methods_list)
        else:
            return list(curved_friction_laminar_methods_list)
    else:
        return curved_friction_turbulent_methods_list + curved_friction_laminar_methods_list

def friction_factor_curved(Re: float, Di: float, Dc: float, roughness: float=0.0, Method: str | None=None, Rec_method: str='Schmidt', laminar_method: str='Schmidt laminar', turbulent_method: str='Schmidt turbulent', Darcy: bool=True) -> float:
    Re_crit = helical_Re_crit(Di=Di, Dc=Dc, Method=Rec_method)
    turbulent = not Re < Re_crit
    if Method is None:
        Method2 = turbulent_method if turbulent else laminar_method
    else:
        Method2 = Method
    if Method2 == 'Schmidt laminar':
        f = helical_laminar_fd_Schmidt(Re, Di, Dc)
    elif Method2 == 'White':
        f = helical_laminar_fd_White(Re, Di, Dc)
    elif Method2 == 'Mori Nakayama laminar':
        f = helical_laminar_fd_Mori_Nakayama(Re, Di, Dc)
    elif Method2 == 'Schmidt turbulent':
        f = helical_turbulent_fd_Schmidt(Re, Di, Dc, roughness)
    elif Method2 == 'Prasad':
        f = helical_turbulent_fd_Prasad(Re, Di, Dc, roughness)
    elif Method2 == 'Ju':
        f = helical_turbulent_fd_Ju(Re, Di, Dc, roughness)
    elif Method2 == 'Mandal Nigam':
        f = helical_turbulent_fd_Mandal_Nigam(Re, Di, Dc, roughness)
    elif Method2 == 'Mori Nakayama turbulent':
        f = helical_turbulent_fd_Mori_Nakayama(Re, Di, Dc)
    elif Method2 == 'Czop':
        f = helical_turbulent_fd_Czop(Re, Di, Dc)
    elif Method2 == 'Guo':
        f = helical_turbulent_fd_Guo(Re, Di, Dc)
    elif Method2 == 'Srinivasan turbulent':
        f = helical_turbulent_fd_Srinivasan(Re, Di, Dc)
    else:
        raise ValueError('Invalid method for friction factor calculation')
    if not Darcy:
        f *= 0.25
    return f

def friction_plate_Martin_1999(Re: float, chevron_angle: float) -> float:
    phi = radians(chevron_angle)
    if Re < 2000.0:
        f0 = 16.0 / Re
        f1 = 149.0 / Re + 0.9625
    else:
        f0 = (1.56 * log(Re) - 3.0) ** (-2)
        f1 = 9.75 * Re ** (-0.289)
    rhs = cos(phi) * 1.0 / sqrt(0.045 * tan(phi) + 0.09 * sin(phi) + f0 / cos(phi))
    rhs += (1.0 - cos(phi)) * 1.0 / sqrt(3.8 * f1)
    ff = rhs ** (-2.0)
    return ff * 4.0

def friction_plate_Martin_VDI(Re: float, chevron_angle: float) -> float:
    phi = radians(chevron_angle)
    if Re < 2000.0:
        f0 = 64.0 / Re
        f1 = 597.0 / Re + 3.85
    else:
        f0 = (1.8 * log10(Re) - 1.5) ** (-2)
        f1 = 39.0 * Re ** (-0.289)
    a, b, c = (3.8, 0.18, 0.36)
    rhs = cos(phi) * 1.0 / sqrt(b * tan(phi) + c * sin(phi) + f0 / cos(phi))
    rhs += (1.0 - cos(phi)) * 1.0 / sqrt(a * f1)
    return rhs ** (-2.0)
Kumar_beta_list = [30.0, 45.0, 50.0, 60.0, 65.0]
Kumar_fd_Res = [[10.0, 100.0], [15.0, 300.0], [20.0, 300.0], [40.0, 400.0], [50.0, 500.0]]
Kumar_C2s = [[50.0, 19.4, 2.99], [47.0, 18.29, 1.441], [34.0, 11.25, 0.772], [24.0, 3.24, 0.76], [24.0, 2.8, 0.639]]
Kumar_Ps = [[1.0, 0.589, 0.183], [1.0, 0.652, 0.206], [1.0, 0.631, 0.161], [1.0, 0.457, 0.215], [1.0, 0.451, 0.213]]

def friction_plate_Kumar(Re: float, chevron_angle: float) -> float:
    beta_list_len = len(Kumar_beta_list)
    for i in range(beta_list_len):
        if chevron_angle <= Kumar_beta_list[i]:
            C2_options, p_options, Re_ranges = (Kumar_C2s[i], Kumar_Ps[i], Kumar_fd_Res[i])
            break
        elif i == beta_list_len - 1:
            C2_options, p_options, Re_ranges = (Kumar_C2s[-1], Kumar_Ps[-1], Kumar_fd_Res[-1])
    Re_len = len(Re_ranges)
    for j in range(Re_len):
        if Re <= Re_ranges[j]:
            C2, p = (C2_options[j], p_options[j])
            break
        elif j == Re_len - 1:
            C2, p = (C2_options[-1], p_options[-1])
    return 4.0 * C2 * Re ** (-p)

def friction_plate_Muley_Manglik(Re: float, chevron_angle: float, plate_enlargement_factor: float) -> float:
    beta, phi = (chevron_angle, plate_enlargement_factor)
    t1 = 2.917 - 0.1277 * beta + 0.002016 * beta ** 2
    t2 = 5.474 - 19.02 * phi + 18.93 * phi ** 2 - 5.341 * phi ** 3
    t3 = -(0.2 + 0.0577 * sin(pi * beta / 45.0 + 2.1))
    return 4 * t1 * t2 * Re ** t3
seamless_other_metals = {'Commercially smooth': (1.5e-06, 1e-05, None)}
seamless_steel = {'New and unused': (2e-05, 0.0001, None), 'Cleaned, following years of use': (None, 4e-05, None), 'Bituminized': (None, 4e-05, None), 'Heating systems piping; either superheated steam pipes, or just water pipes of systems with deaerators and chemical treatment': (None, None, 0.0001), 'Following one year as a gas pipeline': (None, None, 0.00012), 'Following multiple year as a gas pipeline': (4e-05, 0.0002, None), 'Casings in gas wells, different conditions, several years of use': (6e-05, 0.00022, None), 'Heating systems, saturated steam ducts or water pipes (with minor water leakage < 0.5%, and balance water deaerated)': (None, None, 0.0002), 'Water heating system pipelines, any source': (None, None, 0.0002), 'Oil pipelines, intermediate operating conditions': (None, None, 0.0002), 'Corroded, moderately': (None, None, 0.0004), 'Scale, small depositions only': (None, None, 0.0004), 'Condensate pipes in open systems or periodically operated steam pipelines': (None, None, 0.0005), 'Compressed air piping': (None, None, 0.0008), 'Following multiple years of operation, generally corroded or with small amounts of scale': (0.00015, 0.001, None), 'Water heating piping without deaeration but with chemical treatment of water; leakage up to 3%; or condensate piping operated periodically': (None, None, 0.001), 'Used water piping': (0.0012, 0.0015, None), 'Poor condition': (0.005, None, None)}
welded_steel = {'Good condition': (4e-05, 0.0001, None), 'New and covered with bitumen': (None, None, 5e-05), 'Used and covered with partially dissolved bitumen; corroded': (None, None, 0.0001), 'Used, suffering general corrosion': (None, None, 0.00015), 'Surface looks like new, 10 mm lacquer inside, even joints': (0.0003, 0.0004, None), 'Used Gas mains': (None, None, 0.0005), 'Double or simple transverse riveted joints; with or without lacquer; without corrosion': (0.0006, 0.0007, None), 'Lacquered inside but rusted': (0.00095, 0.001, None), 'Gas mains, many years of use, with layered deposits': (None, None, 0.0011), 'Non-corroded and with double transverse riveted joints': (0.0012, 0.0015, None), 'Small deposits': (None, None, 0.0015), 'Heavily corroded and with double transverse riveted joints': (None, None, 0.002), 'Appreciable deposits': (0.002, 0.004, None), 'Gas mains, many years of use, deposits of resin/naphthalene': (None, None, 0.0024), 'Poor condition': (0.005, None, None)}
riveted_steel = {'Riveted laterally and longitudinally with one line; lacquered on the inside': (0.0003, 0.0004, None), 'Riveted laterally and longitudinally with two lines; with or without lacquer on the inside and without corrosion': (0.0006, 0.0007, None), 'Riveted laterally with one line and longitudinally with two lines; thickly lacquered or torred on the inside': (0.0012, 0.0014, None), 'Riveted longitudinally with six lines, after extensive use': (None, None, 0.002), 'Riveted laterally with four lines and longitudinally with six lines; overlapping joints inside': (None, None, 0.004), 'Extremely poor surface; overlapping and uneven joints': (0.005, None, None)}
roofing_metal = {'Oiled': (0.00015, 0.0011, None), 'Not Oiled': (2e-05, 4e-05, None)}
galvanized_steel_tube = {'Bright galvanization; new': (7e-05, 0.0001, None), 'Ordinary galvanization': (0.0001, 0.00015, None)}
galvanized_steel_sheet = {'New': (None, None, 0.00015), 'Used previously for water': (None, None, 0.00018)}
steel = {'Glass enamel coat': (1e-06, 1e-05, None), 'New': (0.00025, 0.001, None)}
cast_iron = {'New, bituminized': (0.0001, 0.00015, None), 'Coated with asphalt': (0.00012, 0.0003, None), 'Used water pipelines': (None, None, 0.0014), 'Used and corroded': (0.001, 0.0015, None), 'Deposits visible': (0.001, 0.0015, None), 'Substantial deposits': (0.002, 0.004, None), 'Cleaned after extensive use': (0.0003, 0.0015, None), 'Severely corroded': (None, 0.003, None)}
water_conduit_steel = {'New, clean, seamless (without joints), well fitted': (1.5e-05, 4e-05, None), 'New, clean, welded lengthwise and well fitted': (1.2e-05, 3e-05, None), 'New, clean, welded lengthwise and well fitted, with transverse welded joints': (8e-05, 0.00017, None), 'New, clean, coated, bituminized when manufactured': (1.4e-05, 1.8e-05, None), 'New, clean, coated, bituminized when manufactured, with transverse welded joints': (0.0002, 0.0006, None), 'New, clean, coated, galvanized': (0.0001, 0.0002, None), 'New, clean, coated, roughly galvanized': (0.0004, 0.0007, None), 'New, clean, coated, bituminized, curved': (0.0001, 0.0014, None), 'Used, clean, slight corrosion': (0.0001, 0.0003, None), 'Used, clean, moderate corrosion or slight deposits': (0.0003, 0.0007, None), 'Used, clean, severe corrosion': (0.0008, 0.0015, None), 'Used, clean, previously cleaned of either deposits or rust': (0.00015, 0.0002, None)}
water_conduit_steel_used = {'Used, all welded, <2 years use, no deposits': (0.00012, 0.00024, None), 'Used, all welded, <20 years use, no deposits': (0.0006, 0.005, None), 'Used, iron-bacterial corrosion': (0.003, 0.004, None), 'Used, heavy corrosion, or with incrustation (deposit 1.5 - 9 mm deep)': (0.003, 0.005, None), 'Used, heavy corrosion, or with incrustation (deposit 3 - 25 mm deep)': (0.006, 0.0065, None), 'Used, inside coating, bituminized, < 2 years use': (0.0001, 0.00035, None)}
steels = {'Seamless tubes made from brass, copper, lead, aluminum': seamless_other_metals, 'Seamless steel tubes': seamless_steel, 'Welded steel tubes': welded_steel, 'Riveted steel tubes': riveted_steel, 'Roofing steel sheets': roofing_metal, 'Galvanized steel tubes': galvanized_steel_tube, 'Galvanized sheet steel': galvanized_steel_sheet, 'Steel tubes': steel, 'Cast-iron tubes': cast_iron, 'Steel water conduits in generating stations': water_conduit_steel, 'Used steel water conduits in generating stations': water_conduit_steel_used}
concrete_water_conduits = {'New and finished with plaster; excellent manufacture (joints aligned, prime coated and smoothed)': (5e-05, 0.00015, None), 'Used and corroded; with a wavy surface and wood framework': (0.001, 0.004, None), 'Old, poor fitting and manufacture; with an overgrown surface and deposits of sand and gravel': (0.001, 0.004, None), 'Very old; damaged surface, very overgrown': (0.005, None, None), 'Water conduit, finished with smoothed plaster': (0.005, None, None), 'New, very well manufactured, hand smoothed, prime-coated joints': (0.0001, 0.0002, None), 'Hand-smoothed cement finish and smoothed joints': (0.00015, 0.00035, None), 'Used, no deposits, moderately smooth, steel or wooden casing, joints prime coated but not smoothed': (0.0003, 0.0006, None), 'Used, prefabricated monoliths, cement plaster (wood floated), rough joints': (0.0005, 0.001, None), 'Conduits for water, sprayed surface of concrete': (0.0005, 0.001, None), 'Brushed air-placed, either sprayed concrete or concrete on more concrete': (None, None, 0.0023), 'Non-smoothed air-placed, either sprayed concrete or concrete on more concrete': (0.003, 0.006, None), 'Smoothed air-placed, either sprayed concrete or concrete on more concrete': (0.006, 0.017, 0.0005)}
concrete_reinforced_tubes = {'New': (0.00025, 0.00034, None), 'Nonprocessed': (0.0025, None, None)}
asbestos_cement = {'New': (5e-05, 0.0001, None), 'Average': (0.0006, None, None)}
cement_tubes = {'Smoothed': (0.0003, 0.0008, None), 'Non processed': (0.001, 0.002, None), 'Joints, non smoothed': (0.0019, 0.0064, None)}
cement_mortar_channels = {'Plaster, cement, smoothed joints and protrusions, and a casing': (5e-05, 0.00022, None), 'Steel trowled': (None, None, 0.0005)}
cement_other = {'Plaster over a screen': (0.01, 0.015, None), 'Salt-glazed ceramic': (None, None, 0.0014), 'Slag-concrete': (None, None, 0.0015), 'Slag and alabaster-filling': (0.001, 0.0015, None)}
concretes = {'Concrete water conduits, no finish': concrete_water_conduits, 'Reinforced concrete tubes': concrete_reinforced_tubes, 'Asbestos cement tubes': asbestos_cement, 'Cement tubes': cement_tubes, 'Cement-mortar plaster channels': cement_mortar_channels, 'Other': cement_other}
wood_tube = {'Boards, thoroughly dressed': (None, None, 0.00015), 'Boards, well dressed': (None, None, 0.0003), 'Boards, undressed but fitted': (None, None, 0.0007), 'Boards, undressed': (None, None, 0.001), 'Staved': (None, None, 0.0006)}
plywood_tube = {'Birch plywood, transverse grain, good quality': (None, None, 0.00012), 'Birch plywood, longitudinal grain, good quality': (3e-05, 5e-05, None)}
glass_tube = {'Glass': (1.5e-06, 1e-05, None)}
wood_plywood_glass = {'Wood tubes': wood_tube, 'Plywood tubes': plywood_tube, 'Glass tubes': glass_tube}
rock_channels = {'Blast-hewed, little jointing': (0.1, 0.14, None), 'Blast-hewed, substantial jointing': (0.13, 0.5, None), 'Roughly cut or very uneven surface': (0.5, 1.5, None)}
unlined_tunnels = {'Rocks, gneiss, diameter 3-13.5 m': (0.3, 0.7, None), 'Rocks, granite, diameter 3-9 m': (0.2, 0.7, None), 'Shale, diameter 9-12 m': (0.25, 0.65, None), 'Shale, quartz, quartzile, diameter 7-10 m': (0.2, 0.6, None), 'Shale, sedimentary, diameter 4-7 m': (None, None, 0.4), 'Shale, nephrite bearing, diameter 3-8 m': (None, None, 0.2)}
tunnels = {'Rough channels in rock': rock_channels, 'Unlined tunnels': unlined_tunnels}
_roughness = {'Brass': 1.52e-06, 'Lead': 1.52e-06, 'Glass': 1.52e-06, 'Steel': 1.52e-06, 'Asphalted cast iron': 0.000122, 'Galvanized iron': 0.000152, 'Cast iron': 0.000259, 'Wood stave': 0.000183, 'Rough wood stave': 0.000914, 'Concrete': 0.000305, 'Rough concrete': 0.00305, 'Riveted steel': 0.000914, 'Rough riveted steel': 0.00914}
'Holds a dict of tuples in format (min, max, average) roughness values in\nmeters from the source\nIdelʹchik, I. E, and A. S Ginevskiĭ. Handbook of Hydraulic\nResistance. Redding, CT: Begell House, 2007.\n'
HHR_roughness = {}
HHR_roughness_dicts = [tunnels, wood_plywood_glass, concretes, steels]
HHR_roughness_categories = {}
[HHR_roughness_categories.update(i) for i in HHR_roughness_dicts]
for d in HHR_roughness_dicts:
    for k, v in d.items():
        for name, values in v.items():
            HHR_roughness[str(k) + ', ' + name] = values
_all_roughness = HHR_roughness.copy()
_all_roughness.update(_roughness)
_Farshad_roughness = {'Plastic coated': (5e-06, 0.0002, -1.0098), 'Carbon steel, honed bare': (1.25e-05, 0.0005, -1.0101), 'Cr13, electropolished bare': (3e-05, 0.0012, -1.0086), 'Cement lining': (3.3e-05, 0.0014, -1.0105), 'Carbon steel, bare': (3.6e-05, 0.0014, -1.0112), 'Fiberglass lining': (3.8e-05, 0.0016, -1.0086), 'Cr13, bare': (5.5e-05, 0.0021, -1.0055)}
IS_NUMBA = 'IS_NUMBA' in globals()
if IS_NUMBA:
    _Farshad_roughness_keys = tuple(_Farshad_roughness.keys())
    _Farshad_roughness_values = tuple(_Farshad_roughness.values())

def roughness_Farshad(ID: str | None=None, D: float | None=None, coeffs: tuple[float, float] | None=None) -> float:
    if ID is None and coeffs is not None:
        if D is None:
            raise ValueError('D is required when using coeffs')
        A, B = coeffs
        return A * (D / inch) ** (B + 1.0) * inch
    if ID in _Farshad_roughness:
        dat = _Farshad_roughness[ID]
    if D is None:
        return dat[0]
    else:
        A, B = (dat[1], dat[2])
        return A * (D / inch) ** (B + 1) * inch
roughness_clean_names = set(_roughness.keys())
roughness_clean_names.update(_Farshad_roughness.keys())

def nearest_material_roughness(name: str, clean: bool | None=None) -> str:
    if clean is None:
        d = _all_roughness.keys()
    elif clean:
        d = roughness_clean_names
    else:
        d = HHR_roughness.keys()
    return fuzzy_match(name, d)

def material_roughness(ID: str, D: float | None=None, optimism: bool | None=None) -> float:
    if ID in _Farshad_roughness:
        return roughness_Farshad(ID, D)
    elif ID in _roughness:
        return _roughness[ID]
    elif ID in HHR_roughness:
        minimum, maximum, avg = HHR_roughness[ID]
        if optimism is None:
            return avg if avg else maximum if maximum else minimum
        elif optimism is True:
            return minimum if minimum else avg if avg else maximum
        else:
            return maximum if maximum else avg if avg else minimum
    else:
        return material_roughness(nearest_material_roughness(ID, clean=False), D=D, optimism=optimism)

def transmission_factor(fd: float | None=None, F: float | None=None) -> float:
    if fd is not None:
        return 2.0 / sqrt(fd)
    elif F is not None:
        return 4.0 / (F * F)
    else:
        raise ValueError('Either Darcy friction factor or transmission factor is needed')

def one_phase_dP(m: float, rho: float, mu: float, D: float, roughness: float=0.0, L: float=1.0, Method: None=None) -> float:
    D2 = D * D
    V = m / (0.25 * pi * D2 * rho)
    Re = Reynolds(V=V, rho=rho, mu=mu, D=D)
    fd = friction_factor(Re=Re, eD=roughness / D, Method=Method)
    dP = fd * L / D * (0.5 * rho * V * V)
    return dP

def one_phase_dP_acceleration(m, D, rho_o, rho_i, D_i=None):
    if D_i is None:
        D_i = D
    A_i = 0.25 * pi * D_i * D_i
    A_o = 0.25 * pi * D * D
    Q_i = m / rho_i
    v_i = Q_i / A_i
    Q_o = m / rho_o
    v_o = Q_o / A_o
    rho_avg = 0.5 * (rho_o + rho_i)
    return 0.5 * rho_avg * (v_o * v_o - v_i * v_i)

def one_phase_dP_dz_acceleration(m: float, D: float, rho: float, dv_dP: float, dP_dL: float, dA_dL: float) -> float:
    A = 0.25 * pi * D * D
    G = m / A
    return -G * G * (dP_dL * dv_dP - dA_dL / (rho * A))

def one_phase_dP_gravitational(angle: float, rho: float, L: float=1.0, g: float=g) -> float:
    angle = radians(angle)
    return L * g * sin(angle) * rho
