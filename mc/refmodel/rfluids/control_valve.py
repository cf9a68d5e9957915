from __future__ import annotations
from math import exp, log, log10, pi, sqrt
from rfluids.constants import R, gallon, ln_10, ln_10_inv, minute, psi
from rfluids.fittings import Cv_to_Kv, Kv_to_Cv
from rfluids.numerics import implementation_optimize_tck, interp, splev
__all__: list[str] = ['Cv_char_equal_percentage', 'Cv_char_linear', 'Cv_char_quick_opening', 'FF_critical_pressure_ratio_l', 'Reynolds_factor', 'Reynolds_valve', 'cavitation_index', 'control_valve_choke_P_g', 'control_valve_choke_P_l', 'control_valve_noise_g_2011', 'control_valve_noise_l_2015', 'convert_flow_coefficient', 'is_choked_turbulent_g', 'is_choked_turbulent_l', 'loss_coefficient_piping', 'size_control_valve_g', 'size_control_valve_l']
N1 = 0.1
N2 = 0.0016
N4 = 0.0707
N5 = 0.0018
N6 = 3.16
N7 = 4.82
N8 = 1.1
N9 = 24.6
N18 = 0.865
N19 = 2.5
N27 = 0.775
N32 = 140.0
rho0 = 999.1032907570233

def cavitation_index(P1: float, P2: float, Psat: float) -> float:
    return (P1 - Psat) / (P1 - P2)

def FF_critical_pressure_ratio_l(Psat: float, Pc: float) -> float:
    return 0.96 - 0.28 * sqrt(Psat / Pc)

def control_valve_choke_P_l(Psat: float, Pc: float, FL: float, P1: float | None=None, P2: float | None=None, check_choking: bool=True) -> float:
    FF = 0.96 - 0.28 * sqrt(Psat / Pc)
    Pmin_absolute = FF * Psat
    if P2 is None:
        if P1 is None:
            raise ValueError('Either P1 or P2 needs to be specified')
        ans = P2 = FF * FL * FL * Psat - FL * FL * P1 + P1
    elif P1 is None:
        ans = P1 = (FF * FL * FL * Psat - P2) / (FL * FL - 1.0)
    else:
        raise ValueError('Either P1 or P2 needs to be specified')
    if P2 > P1 and check_choking:
        raise ValueError(f'Specified P1 is too low for choking to occur at any downstream pressure; minimum upstream pressure for choking to be possible is {Pmin_absolute:g} Pa.')
    return ans

def control_valve_choke_P_g(xT: float, gamma: float, P1: float | None=None, P2: float | None=None) -> float:
    if P2 is None:
        if P1 is None:
            raise ValueError('Either P1 or P2 needs to be specified')
        ans = P2 = P1 * (-5.0 * gamma * xT + 7.0) / 7.0
    elif P1 is None:
        ans = P1 = -7.0 * P2 / (5.0 * gamma * xT - 7.0)
    else:
        raise ValueError('Either P1 or P2 needs to be specified')
    return ans

def is_choked_turbulent_l(dP: float, P1: float, Psat: float, FF: float, FL: float | None=None, FLP: float | None=None, FP: float | None=None) -> bool:
    if FLP and FP:
        return dP >= FLP * FLP / (FP * FP) * (P1 - FF * Psat)
    elif FL:
        return dP >= FL * FL * (P1 - FF * Psat)
    else:
        raise ValueError('Either (FLP and FP) or FL is needed')

def is_choked_turbulent_g(x: float, Fgamma: float, xT: float | None=None, xTP: float | None=None) -> bool:
    if xT:
        return x >= Fgamma * xT
    elif xTP:
        return x >= Fgamma * xTP
    else:
        raise ValueError('Either xT or xTP is needed')

def Reynolds_valve(nu: float, Q: float, D1: float, FL: float, Fd: float, C: float) -> float:
    return N4 * Fd * Q / nu * 1.0 / sqrt(C * FL) * sqrt(sqrt(FL * FL * C * C / N2 * D1 ** (-4.0) + 1.0))

def loss_coefficient_piping(d: float, D1: float | None=None, D2: float | None=None) -> float:
    loss = 0.0
    if D1:
        dr = d / D1
        dr2 = dr * dr
        loss += 1.0 - dr2 * dr2
        loss += 0.5 * (1.0 - dr2) * (1.0 - dr2)
    if D2:
        dr = d / D2
        dr2 = dr * dr
        loss += 1.0 * (1.0 - dr2) * (1.0 - dr2)
        loss -= 1.0 - dr2 * dr2
    return loss

def Reynolds_factor(FL: float, C: float, d: float, Rev: float, full_trim: bool=True) -> float:
    if full_trim:
        n1 = N2 / min(C / (d * d), 0.04) ** 2
        FR_1a = 1.0 + 0.33 * sqrt(FL) / sqrt(sqrt(n1)) * log10(Rev / 10000.0)
        FR_2 = 0.026 / FL * sqrt(n1 * Rev)
        if Rev < 10.0:
            FR = FR_2
        else:
            FR = min(FR_2, FR_1a)
    else:
        n2 = 1 + N32 * (C / d ** 2) ** (2 / 3.0)
        FR_3a = 1 + 0.33 * sqrt(FL) / sqrt(sqrt(n2)) * log10(Rev / 10000.0)
        FR_4 = min(0.026 / FL * sqrt(n2 * Rev), 1.0)
        if Rev < 10:
            FR = FR_4
        else:
            FR = min(FR_3a, FR_4)
    return FR

def size_control_valve_l(rho: float, Psat: float, Pc: float, mu: float, P1: float, P2: float, Q: float, D1: float | None=None, D2: float | None=None, d: float | None=None, FL: float=0.9, Fd: float=1, allow_choked: bool=True, allow_laminar: bool=True, full_output: bool=False) -> float | dict[str, bool | float | None] | dict[str, float | bool | str | None]:
    if full_output:
        ans: dict[str, bool | float | None] = {'FLP': None, 'FP': None, 'FR': None}
    P1, P2, Psat, Pc = (P1 / 1000.0, P2 / 1000.0, Psat / 1000.0, Pc / 1000.0)
    Q = Q * 3600.0
    nu = mu / rho
    MAX_C_POSSIBLE = 1e+40
    dP = P1 - P2
    FF = FF_critical_pressure_ratio_l(Psat=Psat, Pc=Pc)
    choked = is_choked_turbulent_l(dP=dP, P1=P1, Psat=Psat, FF=FF, FL=FL)
    if choked and allow_choked:
        C = Q / N1 / FL * sqrt(rho / rho0 / (P1 - FF * Psat))
    else:
        C = Q / N1 * sqrt(rho / rho0 / dP)
    if D1 is None and D2 is None and (d is None):
        Rev = 100000.0
    else:
        if D1 is None or D2 is None or d is None:
            raise ValueError('If any diameter is specified, all three (D1, D2, d) must be specified')
        D1, D2, d = (D1 * 1000.0, D2 * 1000.0, d * 1000.0)
        Rev = Reynolds_valve(nu=nu, Q=Q, D1=D1, FL=FL, Fd=Fd, C=C)
        if (Rev > 10000 or not allow_laminar) and (D1 != d or D2 != d):
            FP = 1.0
            Ci = C
            MAX_ITER = 20

            def iterate_piping_turbulent_l(Ci, iterations):
                loss = loss_coefficient_piping(d, D1, D2)
                FP = 1.0 / sqrt(1 + loss / N2 * (Ci / d ** 2) ** 2)
                if d > D1:
                    loss_upstream = 0.0
                else:
                    loss_upstream = loss_coefficient_piping(d, D1)
                FLP = FL * 1.0 / sqrt(1 + FL ** 2 / N2 * loss_upstream * (Ci / d ** 2) ** 2)
                choked = is_choked_turbulent_l(dP, P1, Psat, FF, FLP=FLP, FP=FP)
                if choked and allow_choked:
                    C = Q / N1 / FLP * sqrt(rho / rho0 / (P1 - FF * Psat))
                else:
                    C = Q / N1 / FP * sqrt(rho / rho0 / dP)
                if Ci / C < 0.99 and iterations < MAX_ITER and (Ci < MAX_C_POSSIBLE):
                    C = iterate_piping_turbulent_l(C, iterations + 1)
                if full_output:
                    ans['FLP'] = FLP
                    ans['FP'] = FP
                    if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
                        ans['warning'] = 'Not converged in inner loop'
                return C
            C = iterate_piping_turbulent_l(Ci, 0)
        elif Rev <= 10000 and allow_laminar:

            def iterate_piping_laminar_l(C):
                Ci = 1.3 * C
                Rev = Reynolds_valve(nu=nu, Q=Q, D1=D1, FL=FL, Fd=Fd, C=Ci)
                if Ci / (d * d) > 0.016 * N18:
                    FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=False)
                else:
                    FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=True)
                if C / FR >= Ci:
                    Ci = iterate_piping_laminar_l(Ci)
                if full_output:
                    ans['Rev'] = Rev
                    ans['FR'] = FR
                return Ci
            C = iterate_piping_laminar_l(C)
    if full_output:
        ans['FF'] = FF
        ans['choked'] = choked
        ans['Kv'] = C
        ans['laminar'] = Rev <= 10000
        if 'Rev' not in ans:
            ans['Rev'] = Rev
        return ans
    else:
        return C

def size_control_valve_g(T: float, MW: float, mu: float, gamma: float, Z: float, P1: float, P2: float, Q: float, D1: float | None=None, D2: float | None=None, d: float | None=None, FL: float=0.9, Fd: float=1, xT: float=0.7, allow_choked: bool=True, allow_laminar: bool=True, full_output: bool=False) -> float | dict[str, bool | float | None] | dict[str, float | bool | str | None]:
    MAX_C_POSSIBLE = 1e+40
    P1, P2 = (P1 * 0.001, P2 * 0.001)
    Q = Q * 3600.0
    Vm = Z * R * T / (P1 * 1000)
    rho = MW * 0.001 / Vm
    nu = mu / rho
    dP = P1 - P2
    Fgamma = gamma / 1.4
    x = dP / P1
    Y = max(1 - x / (3 * Fgamma * xT), 2 / 3.0)
    choked = is_choked_turbulent_g(x, Fgamma, xT)
    if choked and allow_choked:
        C = Q / (N9 * P1 * Y) * sqrt(MW * T * Z / xT / Fgamma)
    else:
        C = Q / (N9 * P1 * Y) * sqrt(MW * T * Z / x)
    if full_output:
        ans = {'FP': None, 'xTP': None, 'FR': None, 'choked': choked, 'Y': Y}
    if D1 is None and D2 is None and (d is None):
        Rev = 100000.0
        if full_output:
            ans['Rev'] = None
    else:
        if D1 is None or D2 is None or d is None:
            raise ValueError('If any diameter is specified, all three (D1, D2, d) must be specified')
        D1, D2, d = (D1 * 1000.0, D2 * 1000.0, d * 1000.0)
        Rev = Reynolds_valve(nu=nu, Q=Q, D1=D1, FL=FL, Fd=Fd, C=C)
        if full_output:
            ans['Rev'] = Rev
        if (Rev > 10000 or not allow_laminar) and (D1 != d or D2 != d):
            FP = 1.0
            MAX_ITER = 20

            def iterate_piping_coef_g(Ci, iterations):
                loss = loss_coefficient_piping(d, D1, D2)
                FP = 1.0 / sqrt(1.0 + loss / N2 * (Ci / d ** 2) ** 2)
                loss_upstream = loss_coefficient_piping(d, D1)
                xTP = xT / FP ** 2 / (1 + xT * loss_upstream / N5 * (Ci / d ** 2) ** 2)
                choked = is_choked_turbulent_g(x, Fgamma, xTP=xTP)
                if choked and allow_choked:
                    C = Q / (N9 * FP * P1 * Y) * sqrt(MW * T * Z / xTP / Fgamma)
                else:
                    C = Q / (N9 * FP * P1 * Y) * sqrt(MW * T * Z / x)
                if Ci / C < 0.99 and iterations < MAX_ITER and (Ci < MAX_C_POSSIBLE):
                    C = iterate_piping_coef_g(C, iterations + 1)
                if full_output:
                    ans['xTP'] = xTP
                    ans['FP'] = FP
                    ans['choked'] = choked
                    if MAX_ITER == iterations or Ci >= MAX_C_POSSIBLE:
                        ans['warning'] = 'Not converged in inner loop'
                return C
            C = iterate_piping_coef_g(C, 0)
        elif Rev <= 10000 and allow_laminar:

            def iterate_piping_laminar_g(C):
                Ci = 1.3 * C
                Rev = Reynolds_valve(nu=nu, Q=Q, D1=D1, FL=FL, Fd=Fd, C=Ci)
                if Ci / (d * d) > 0.016 * N18:
                    FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=False)
                else:
                    FR = Reynolds_factor(FL=FL, C=Ci, d=d, Rev=Rev, full_trim=True)
                if C / FR >= Ci:
                    Ci = iterate_piping_laminar_g(Ci)
                if full_output:
                    ans['FR'] = FR
                    ans['Rev'] = Rev
                return Ci
            C = iterate_piping_laminar_g(C)
    if full_output:
        ans['Kv'] = C
        ans['laminar'] = Rev <= 10000
        ans['choked'] = choked
        return ans
    return C
opening_quick = [0.0, 0.0136, 0.02184, 0.03256, 0.04575, 0.06221, 0.07459, 0.0878, 0.10757, 0.12654, 0.14301, 0.16032, 0.18009, 0.18999, 0.20233, 0.23105, 0.25483, 0.28925, 0.32365, 0.36541, 0.42188, 0.46608, 0.53319, 0.61501, 0.7034, 0.78033, 0.84415, 0.91944, 1.0]
frac_CV_quick = [0.0, 0.04984, 0.07582, 0.12044, 0.16614, 0.21707, 0.26998, 0.32808, 0.39353, 0.46516, 0.52125, 0.58356, 0.64798, 0.68845, 0.72277, 0.76565, 0.79399, 0.82459, 0.84589, 0.86732, 0.88078, 0.89399, 0.90867, 0.92053, 0.93973, 0.95872, 0.96817, 0.98611, 1.0]
opening_quick_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.0, 0.02184, 0.03256, 0.04575, 0.06221, 0.07459, 0.0878, 0.10757, 0.12654, 0.14301, 0.16032, 0.18009, 0.18999, 0.20233, 0.23105, 0.25483, 0.28925, 0.32365, 0.36541, 0.42188, 0.46608, 0.53319, 0.61501, 0.7034, 0.78033, 0.84415, 1.0, 1.0, 1.0, 1.0], [-3.2479258181113327e-19, 0.037650956835178835, 0.054616164261637117, 0.12657862552611354, 0.17115105822542115, 0.2075233903194021, 0.27084055195333684, 0.34208963001568016, 0.38730839943796663, 0.4656002247400036, 0.5196995880922897, 0.5907033063634928, 0.6304293931726886, 0.6953064258075168, 0.7382935002453699, 0.7631579537132379, 0.7997961180795559, 0.8262370617883222, 0.8471954722933543, 0.873096858463145, 0.8776128736976467, 0.897647305294458, 0.9105672165523071, 0.9192771703370824, 0.9377349743236904, 0.9603716623033031, 0.9688863605959851, 0.9980062718267431, 1.0, 0.0, 0.0, 0.0, 0.0], 3])
Cv_char_quick_opening = lambda opening: float(splev(opening, opening_quick_tck))
opening_linear = [0.0, 1.0]
frac_CV_linear = [0, 1]
Cv_char_linear = lambda opening: interp(opening, opening_linear, frac_CV_linear)
opening_equal = [0.0, 0.05523, 0.09287, 0.15341, 0.18942, 0.22379, 0.25816, 0.29582, 0.33348, 0.34985, 0.3826, 0.45794, 0.49235, 0.51365, 0.54479, 0.57594, 0.60218, 0.62843, 0.77628, 0.796, 0.83298, 0.86995, 0.90936, 0.95368, 1.0]
frac_CV_equal = [0.0, 0.00845, 0.01339, 0.01877, 0.02579, 0.0349, 0.04189, 0.05528, 0.07079, 0.07533, 0.09074, 0.13444, 0.15833, 0.17353, 0.20159, 0.23388, 0.26819, 0.30461, 0.60113, 0.64588, 0.72583, 0.80788, 0.87519, 0.94999, 1.0]
opening_equal_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.0, 0.09287, 0.15341, 0.18942, 0.22379, 0.25816, 0.29582, 0.33348, 0.34985, 0.3826, 0.45794, 0.49235, 0.51365, 0.54479, 0.57594, 0.60218, 0.62843, 0.77628, 0.796, 0.83298, 0.86995, 0.90936, 1.0, 1.0, 1.0, 1.0], [1.3522591106779132e-19, 0.004087873896711868, 0.014374150571122216, 0.016455484312674015, 0.024946845435605228, 0.03592972456181881, 0.040710119644626126, 0.054518468768197687, 0.06976905178508139, 0.07587146190282387, 0.0985485829020452, 0.1238160142641967, 0.15558350087382017, 0.17487348629353283, 0.20157507610951217, 0.22995771158118564, 0.2683886931491415, 0.3574766835730407, 0.5027678906008036, 0.659729970241158, 0.7233389559355903, 0.8155475382785987, 0.8983628328699896, 0.9871204658597236, 1.0, 0.0, 0.0, 0.0, 0.0], 3])
Cv_char_equal_percentage = lambda opening: float(splev(opening, opening_equal_tck))

def convert_flow_coefficient(flow_coefficient, old_scale, new_scale):
    if old_scale == 'Cv':
        Kv = Cv_to_Kv(flow_coefficient)
    elif old_scale == 'Kv':
        Kv = flow_coefficient
    elif old_scale == 'Av':
        Cv = flow_coefficient / (sqrt(rho0 / psi) * gallon / minute)
        Kv = Cv_to_Kv(Cv)
    else:
        raise NotImplementedError("Supported scales are 'Cv', 'Kv', and 'Av'")
    if new_scale == 'Cv':
        ans = Kv_to_Cv(Kv)
    elif new_scale == 'Kv':
        ans = Kv
    elif new_scale == 'Av':
        Cv = Kv_to_Cv(Kv)
        ans = Cv * (sqrt(rho0 / psi) * gallon / minute)
    else:
        raise NotImplementedError("Supported scales are 'Cv', 'Kv', and 'Av'")
    return ans
fis_l_2015 = [12.5, 16.0, 20.0, 25.0, 31.5, 40.0, 50.0, 63.0, 80.0, 100.0, 125.0, 160.0, 200.0, 250.0, 315.0, 400.0, 500.0, 630.0, 800.0, 1000.0, 1250.0, 1600.0, 2000.0, 2500.0, 3150.0, 4000.0, 5000.0, 6300.0, 8000.0, 10000.0, 12500.0, 16000.0, 20000.0]
fis_l_2015_inv = [0.08, 0.0625, 0.049999999999999996, 0.04000000000000001, 0.031746031746031744, 0.025, 0.02, 0.01587301587301587, 0.012499999999999999, 0.010000000000000002, 0.008, 0.00625, 0.005, 0.003999999999999999, 0.003174603174603174, 0.0025000000000000005, 0.002, 0.0015873015873015873, 0.00125, 0.0009999999999999998, 0.0008, 0.0006250000000000001, 0.0005, 0.0004, 0.0003174603174603174, 0.00024999999999999995, 0.0002, 0.00015873015873015873, 0.000125, 0.0001, 8e-05, 6.249999999999999e-05, 5e-05]
fis_l_2015_1_5 = [44.19417382415922, 64.0, 89.44271909999159, 125.0, 176.79331152506873, 252.98221281347034, 353.5533905932738, 500.04699779120756, 715.5417527999327, 1000.0, 1397.5424859373686, 2023.8577025077627, 2828.42712474619, 3952.847075210474, 5590.695395029137, 8000.0, 11180.339887498949, 15812.874501494027, 22627.41699796952, 31622.776601683792, 44194.17382415922, 64000.0, 89442.71909999159, 125000.0, 176793.3115250687, 252982.21281347034, 353553.39059327374, 500046.9977912076, 715541.7527999327, 1000000.0, 1397542.4859373686, 2023857.7025077627, 2828427.12474619]
fis_l_2015_n1_5 = [0.02262741699796952, 0.015625, 0.011180339887498947, 0.008000000000000002, 0.00565632258015713, 0.003952847075210475, 0.00282842712474619, 0.001999812026503847, 0.0013975424859373684, 0.0010000000000000002, 0.0007155417527999327, 0.0004941058844013093, 0.00035355339059327376, 0.0002529822128134703, 0.00017886862533936855, 0.00012500000000000003, 8.944271909999159e-05, 6.323960895949173e-05, 4.419417382415922e-05, 3.162277660168379e-05, 2.2627416997969522e-05, 1.5625000000000004e-05, 1.1180339887498949e-05, 8.000000000000001e-06, 5.6563225801571285e-06, 3.9528470752104736e-06, 2.8284271247461903e-06, 1.9998120265038475e-06, 1.3975424859373686e-06, 1.0000000000000002e-06, 7.155417527999328e-07, 4.941058844013092e-07, 3.535533905932738e-07]
fis_l_2015_3 = [1953.125, 4096.0, 8000.0, 15625.0, 31255.875, 64000.0, 125000.0, 250047.0, 512000.0, 1000000.0, 1953125.0, 4096000.0, 8000000.0, 15625000.0, 31255875.0, 64000000.0, 125000000.0, 250047000.0, 512000000.0, 1000000000.0, 1953125000.0, 4096000000.0, 8000000000.0, 15625000000.0, 31255875000.0, 64000000000.0, 125000000000.0, 250047000000.0, 512000000000.0, 1000000000000.0, 1953125000000.0, 4096000000000.0, 8000000000000.0]
fis_l_2015_17 = [73.2397784872531, 111.43047210190387, 162.83621261476173, 237.95674233948478, 352.4746934040807, 529.0564156396547, 773.1237367774792, 1145.1936574895758, 1718.9093656438004, 2511.88643150958, 3670.6841971500585, 5584.753005453414, 8161.143093473476, 11926.088141608398, 17665.581651081215, 26515.632138719888, 38747.97468870842, 57395.64411646984, 86149.54298230256, 125892.54117941669, 183970.00582889825, 279900.6909294791, 409026.07302542904, 597720.3123687729, 885376.3998122095, 1328929.6319483411, 1941999.0242893337, 2876596.4096988947, 4317705.1125554005, 6309573.44480193, 9220341.829177868, 14028265.297730776, 20499864.602104142]
fis_length = 33
A_weights_l_2015 = [-63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5, -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -0.8, 0.0, 0.6, 1.0, 1.2, 1.3, 1.2, 1.0, 0.5, -0.1, -1.1, -2.5, -4.3, -6.6, -9.3]

def control_valve_noise_l_2015(m: int, P1: float, P2: float, Psat: float, rho: float, c: float, Kv: float, d: float, Di: float, FL: float, Fd: float, t_pipe: float, rho_pipe: float=7800.0, c_pipe: float=5000.0, rho_air: float=1.2, c_air: float=343.0, xFz: float | None=None, An: float=-4.6) -> float:
    N34 = 1.17
    N14 = 0.0046
    C = Kv_to_Cv(Kv)
    xF = (P1 - P2) / (P1 - Psat)
    dPc = min(P1 - P2, FL * FL * (P1 - Psat))
    if xFz is None:
        xFz = 0.9 * 1.0 / sqrt(1.0 + 3.0 * Fd * sqrt(C / (N34 * FL)))
    xFzp1 = xFz * sqrt(sqrt(sqrt(600000.0 / P1)))
    Dj = N14 * Fd * sqrt(C * FL)
    Uvc = sqrt(2.0 * dPc / rho) / FL
    Wm = 0.5 * m * Uvc * Uvc * FL * FL
    cavitating = xF > xFzp1
    eta_turb = 10.0 ** An * Uvc / c
    x0 = xF - xFzp1
    x1 = xF / xFzp1
    x2 = x1 * x1
    x1 = x2 * x2 * x1
    if cavitating:
        eta_cav = 0.32 * eta_turb * sqrt((P1 - P2) / (dPc * xFzp1)) * exp(5.0 * xFzp1) * sqrt((1.0 - xFzp1) / (1.0 - xF)) * x1 * x0 * sqrt(x0)
        Wa = (eta_turb + eta_cav) * Wm
    else:
        Wa = eta_turb * Wm
    Lpi = 10.0 * log10(3200000000.0 * Wa * rho * c / (Di * Di))
    Stp = 0.036 * FL * FL * C * Fd ** 0.75 / (N34 * xFzp1 * sqrt(xFzp1) * d * d) * (1.0 / (P1 - Psat)) ** 0.57
    f_p_turb = Stp * Uvc / Dj
    if cavitating:
        x3 = (1.0 - xF) / (1.0 - xFzp1)
        x4 = xFzp1 / xF
        f_p_cav = 6.0 * f_p_turb * x3 * x3 * x4 * x4 * sqrt(x4)
        f_p_cav_inv = 1.0 / f_p_cav
        f_p_cav_inv_1_5 = f_p_cav_inv * sqrt(f_p_cav_inv)
        f_p_cav_inv_1_5_1_4 = 0.25 * f_p_cav_inv_1_5
        f_p_cav_1_5 = 1.0 / f_p_cav_inv_1_5
        eta_denom = 1.0 / (eta_turb + eta_cav)
        t1 = eta_turb * eta_denom
        t2 = eta_cav * eta_denom
    fr = c_pipe / (pi * Di)
    fr_inv = 1.0 / fr
    TL_fr = -10.0 - 10.0 * log10(c_pipe * rho_pipe * t_pipe / (c_air * rho_air * Di))
    t3 = -10.0 * log10((Di + 2.0 * t_pipe + 2.0) / (Di + 2.0 * t_pipe))
    LpAe1m_sum = 0.0
    f_p_turb_inv = 1.0 / f_p_turb
    f_p_turb_inv3 = f_p_turb_inv * f_p_turb_inv * f_p_turb_inv
    fr_inv_1_5 = fr_inv * sqrt(fr_inv)
    a_factor = ln_10_inv
    for i in range(fis_length):
        F_turb = -0.8 - log(0.25 * f_p_turb_inv3 * fis_l_2015_3[i] + fis_l_2015_inv[i] * f_p_turb) * a_factor
        if cavitating:
            F_cav_fact = 0.12589254117941673 / (f_p_cav_inv_1_5_1_4 * fis_l_2015_1_5[i] + fis_l_2015_n1_5[i] * f_p_cav_1_5)
            LPif = Lpi + 4.3429448190325175 * log(t1 * exp(ln_10 * F_turb) + t2 * F_cav_fact)
        else:
            LPif = Lpi + F_turb * 10.0
        TL_fi = TL_fr - 8.685889638065035 * log(fr * fis_l_2015_inv[i] + fis_l_2015_1_5[i] * fr_inv_1_5)
        L_pe1m_fi = LPif + TL_fi + t3
        LpAe1m_sum += exp(0.23025850929940458 * (L_pe1m_fi + A_weights_l_2015[i]))
    LpAe1m = 4.3429448190325175 * log(LpAe1m_sum)
    return LpAe1m

def control_valve_noise_g_2011(m: float, P1: float, P2: float, T1: float, rho: float, gamma: float, MW: float, Kv: float, d: float, Di: float, t_pipe: float, Fd: float, FL: float | None, FLP: float | None=None, FP: float | None=None, rho_pipe: float=7800.0, c_pipe: float=5000.0, P_air: float=101325.0, rho_air: float=1.2, c_air: float=343.0, An: float=-3.8, Stp: float=0.2, T2: float | None=None, beta: float=0.93) -> float:
    k = gamma
    C = Kv_to_Cv(Kv)
    N14 = 0.0046
    P_air_std = 101325.0
    if T2 is None:
        T2 = T1
    x = (P1 - P2) / P1
    if FP is not None and FLP is not None:
        FL_term = FLP / FP
    elif FL is not None:
        FL_term = FL
    else:
        raise ValueError('Either FL must be specified, or both FLP and FP must be specified')
    x_vcc = 1.0 - (2.0 / (k + 1.0)) ** (k / (k - 1.0))
    xc = FL_term ** 2 * x_vcc
    alpha = (1.0 - x_vcc) / (1.0 - xc)
    xB = 1.0 - 1.0 / alpha * (1.0 / k) ** (k / (k - 1.0))
    xCE = 1.0 - 1.0 / (22.0 * alpha)
    if x <= xc:
        regime = 1
    elif xc < x <= x_vcc:
        regime = 2
    elif x_vcc < x <= xB:
        regime = 3
    elif xB < x <= xCE:
        regime = 4
    else:
        regime = 5
    Dj = N14 * Fd * sqrt(C * FL_term)
    Mj5 = sqrt(2.0 / (k - 1.0) * (22.0 ** ((k - 1.0) / k) - 1.0))
    if regime == 1:
        Mvc = sqrt(2.0 / (k - 1.0) * ((1.0 - x / FL_term ** 2) ** ((1.0 - k) / k) - 1.0))
    elif regime in (2, 3, 4):
        Mj = sqrt(2.0 / (k - 1.0) * ((1.0 / (alpha * (1.0 - x))) ** ((k - 1.0) / k) - 1.0))
        Mj = min(Mj, Mj5)
    if regime == 1:
        cvc = sqrt(k * P1 / rho * (1 - x / FL_term ** 2) ** ((k - 1.0) / k))
        Wm = 0.5 * m * (Mvc * cvc) ** 2
    else:
        cvcc = sqrt(2.0 * k * P1 / (k + 1.0) / rho)
        Wm = 0.5 * m * cvcc * cvcc
    if regime == 1:
        fp = Stp * Mvc * cvc / Dj
    elif regime in (2, 3):
        fp = Stp * Mj * cvcc / Dj
    elif regime == 4:
        fp = 1.4 * Stp * cvcc / Dj / sqrt(Mj * Mj - 1.0)
    elif regime == 5:
        fp = 1.4 * Stp * cvcc / Dj / sqrt(Mj5 * Mj5 - 1.0)
    fp_inv = 1.0 / fp
    if regime == 1:
        eta = 10.0 ** An * FL_term ** 2 * Mvc ** 3
    elif regime == 2:
        eta = 10.0 ** An * x / x_vcc * Mj ** (6.6 * FL_term * FL_term)
    elif regime == 3:
        eta = 10.0 ** An * Mj ** (6.6 * FL_term * FL_term)
    elif regime == 4:
        eta = 0.5 * 10.0 ** An * Mj * Mj * sqrt(2.0) ** (6.6 * FL_term * FL_term)
    elif regime == 5:
        eta = 0.5 * 10.0 ** An * Mj5 * Mj5 * sqrt(2.0) ** (6.6 * FL_term * FL_term)
    Wa = eta * Wm
    rho2 = rho * (P2 / P1)
    c2 = sqrt(k * R * T2 / (MW / 1000.0))
    M2 = 4.0 * m / (pi * Di * Di * rho2 * c2)
    Lg = 16.0 * log10(1.0 / (1.0 - min(M2, 0.3)))
    if M2 > 0.3:
        Up = 4.0 * m / (pi * rho2 * Di * Di)
        UR = Up * Di * Di / (beta * d * d)
        WmR = 0.5 * m * UR * UR * ((1.0 - d * d / (Di * Di)) ** 2 + 0.2)
        fpR = Stp * UR / d
        MR = UR / c2
        eta_R = 10 ** An * MR ** 3
        WaR = eta_R * WmR
        L_piR = 10.0 * log10(3200000000.0 * WaR * rho2 * c2 / (Di * Di)) + Lg
    L_pi = 10.0 * log10(3200000000.0 * Wa * rho2 * c2 / (Di * Di)) + Lg
    fr = c_pipe / (pi * Di)
    fo = 0.25 * fr * (c2 / c_air)
    fg = sqrt(3) * c_air ** 2 / (pi * t_pipe * c_pipe)
    if d > 0.15:
        dTL = 0.0
    elif 0.05 <= d <= 0.15:
        dTL = -16660.0 * d ** 3 + 6370.0 * d ** 2 - 813.0 * d + 35.8
    else:
        dTL = 9.0
    P_air_ratio = P_air / P_air_std
    LpAe1m_sum = 0.0
    for fi, A_weight in zip(fis_l_2015, A_weights_l_2015):
        fi_turb_ratio = fi * fp_inv
        t1 = 1.0 + (0.5 * fi_turb_ratio) ** 2.5
        t2 = 1.0 + (0.5 / fi_turb_ratio) ** 1.7
        Lpif = L_pi - 8.0 - 10.0 * log10(t1 * t2)
        if M2 > 0.3:
            fiR_turb_ratio = fi / fpR
            t1 = 1.0 + (0.5 * fiR_turb_ratio) ** 2.5
            t2 = 1.0 + (0.5 / fiR_turb_ratio) ** 1.7
            LpiRf = L_piR - 8.0 - 10.0 * log10(t1 * t2)
            LpiSf = 10.0 * log10(10 ** (0.1 * Lpif) + 10.0 ** (0.1 * LpiRf))
        if fi < fo:
            Gx = (fo / fr) ** (2.0 / 3.0) * (fi / fo) ** 4.0
            if fo < fg:
                Gy = fo / fg
            else:
                Gy = 1.0
        else:
            if fi < fr:
                Gx = sqrt(fi / fr)
            else:
                Gx = 1.0
            if fi < fg:
                Gy = fi / fg
            else:
                Gy = 1.0
        eta_s = sqrt(0.01 / fi)
        den = (rho2 * c2 + 2.0 * pi * t_pipe * fi * rho_pipe * eta_s) / (415.0 * Gy) + 1.0
        TL_fi = 10.0 * log10(8.25e-07 * (c2 / (t_pipe * fi)) ** 2 * Gx / den * P_air_ratio) - dTL
        if M2 > 0.3:
            term = LpiSf
        else:
            term = Lpif
        L_pe1m_fi = term + TL_fi - 10.0 * log10((Di + 2.0 * t_pipe + 2.0) / (Di + 2.0 * t_pipe))
        LpAe1m_sum += 10.0 ** (0.1 * (L_pe1m_fi + A_weight))
    LpAe1m = 10.0 * log10(LpAe1m_sum)
    return LpAe1m
