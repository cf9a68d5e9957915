from __future__ import annotations
from math import acos, exp, log, log10, pi, sqrt
from rfluids.constants import inch, inch_inv, pi_inv, root_two
from rfluids.core import Froude_densimetric
from rfluids.numerics import bisplev, brenth, implementation_optimize_tck, interp, secant
__all__: list[str] = ['C_ISA_1932_nozzle', 'C_Miller_1996', 'C_Reader_Harris_Gallagher', 'C_Reader_Harris_Gallagher_wet_venturi_tube', 'C_eccentric_orifice_ISO_15377_1998', 'C_long_radius_nozzle', 'C_quarter_circle_orifice_ISO_15377_1998', 'C_venturi_nozzle', 'C_wedge_meter_ISO_5167_6_2017', 'C_wedge_meter_Miller', 'K_to_discharge_coefficient', 'all_meters', 'cone_meter_expansibility_Stewart', 'dP_Reader_Harris_Gallagher_wet_venturi_tube', 'dP_cone_meter', 'dP_orifice', 'dP_venturi_tube', 'dP_wedge_meter', 'diameter_ratio_cone_meter', 'diameter_ratio_wedge_meter', 'differential_pressure_meter_C_epsilon', 'differential_pressure_meter_beta', 'differential_pressure_meter_dP', 'differential_pressure_meter_solver', 'discharge_coefficient_to_K', 'flow_coefficient', 'flow_meter_discharge', 'nozzle_expansibility', 'orifice_expansibility', 'orifice_expansibility_1989', 'velocity_of_approach_factor']
CONCENTRIC_ORIFICE = 'orifice'
ECCENTRIC_ORIFICE = 'eccentric orifice'
CONICAL_ORIFICE = 'conical orifice'
SEGMENTAL_ORIFICE = 'segmental orifice'
QUARTER_CIRCLE_ORIFICE = 'quarter circle orifice'
CONDITIONING_4_HOLE_ORIFICE = 'Rosemount 4 hole self conditioning'
ORIFICE_HOLE_TYPES = [CONCENTRIC_ORIFICE, ECCENTRIC_ORIFICE, CONICAL_ORIFICE, SEGMENTAL_ORIFICE, QUARTER_CIRCLE_ORIFICE]
ORIFICE_CORNER_TAPS = 'corner'
ORIFICE_FLANGE_TAPS = 'flange'
ORIFICE_D_AND_D_2_TAPS = 'D and D/2'
ORIFICE_PIPE_TAPS = 'pipe'
ORIFICE_VENA_CONTRACTA_TAPS = 'vena contracta'
TAPS_OPPOSITE = '180 degree'
TAPS_SIDE = '90 degree'
ISO_5167_ORIFICE = 'ISO 5167 orifice'
ISO_15377_ECCENTRIC_ORIFICE = 'ISO 15377 eccentric orifice'
ISO_15377_QUARTER_CIRCLE_ORIFICE = 'ISO 15377 quarter-circle orifice'
ISO_15377_CONICAL_ORIFICE = 'ISO 15377 conical orifice'
MILLER_ORIFICE = 'Miller orifice'
MILLER_ECCENTRIC_ORIFICE = 'Miller eccentric orifice'
MILLER_SEGMENTAL_ORIFICE = 'Miller segmental orifice'
MILLER_CONICAL_ORIFICE = 'Miller conical orifice'
MILLER_QUARTER_CIRCLE_ORIFICE = 'Miller quarter circle orifice'
UNSPECIFIED_METER = 'unspecified meter'
LONG_RADIUS_NOZZLE = 'long radius nozzle'
ISA_1932_NOZZLE = 'ISA 1932 nozzle'
VENTURI_NOZZLE = 'venturi nozzle'
AS_CAST_VENTURI_TUBE = 'as cast convergent venturi tube'
MACHINED_CONVERGENT_VENTURI_TUBE = 'machined convergent venturi tube'
ROUGH_WELDED_CONVERGENT_VENTURI_TUBE = 'rough welded convergent venturi tube'
HOLLINGSHEAD_ORIFICE = 'Hollingshead orifice'
HOLLINGSHEAD_VENTURI_SMOOTH = 'Hollingshead venturi smooth'
HOLLINGSHEAD_VENTURI_SHARP = 'Hollingshead venturi sharp'
HOLLINGSHEAD_CONE = 'Hollingshead v cone'
HOLLINGSHEAD_WEDGE = 'Hollingshead wedge'
CONE_METER = 'cone meter'
WEDGE_METER = 'wedge meter'
__all__.extend(['AS_CAST_VENTURI_TUBE', 'CONE_METER', 'HOLLINGSHEAD_CONE', 'HOLLINGSHEAD_ORIFICE', 'HOLLINGSHEAD_VENTURI_SHARP', 'HOLLINGSHEAD_VENTURI_SMOOTH', 'HOLLINGSHEAD_WEDGE', 'ISA_1932_NOZZLE', 'ISO_5167_ORIFICE', 'ISO_15377_CONICAL_ORIFICE', 'ISO_15377_ECCENTRIC_ORIFICE', 'ISO_15377_QUARTER_CIRCLE_ORIFICE', 'LONG_RADIUS_NOZZLE', 'MACHINED_CONVERGENT_VENTURI_TUBE', 'MILLER_CONICAL_ORIFICE', 'MILLER_ECCENTRIC_ORIFICE', 'MILLER_ORIFICE', 'MILLER_QUARTER_CIRCLE_ORIFICE', 'MILLER_SEGMENTAL_ORIFICE', 'ROUGH_WELDED_CONVERGENT_VENTURI_TUBE', 'UNSPECIFIED_METER', 'VENTURI_NOZZLE', 'WEDGE_METER'])
__all__.extend(['ORIFICE_CORNER_TAPS', 'ORIFICE_D_AND_D_2_TAPS', 'ORIFICE_FLANGE_TAPS', 'ORIFICE_PIPE_TAPS', 'ORIFICE_VENA_CONTRACTA_TAPS', 'TAPS_OPPOSITE', 'TAPS_SIDE'])
__all__.extend(['CONCENTRIC_ORIFICE', 'CONICAL_ORIFICE', 'ECCENTRIC_ORIFICE', 'QUARTER_CIRCLE_ORIFICE', 'SEGMENTAL_ORIFICE'])

def flow_meter_discharge(D, Do, P1, P2, rho, C, expansibility=1.0, meter_type='ISO 5167 orifice'):
    beta = differential_pressure_meter_beta(D=D, D2=Do, meter_type=meter_type)
    beta2 = beta * beta
    D_beta = D * beta
    return 0.25 * pi * D_beta * D_beta * C * expansibility * sqrt(2.0 * rho * (P1 - P2) / (1.0 - beta2 * beta2))

def orifice_expansibility(D: float, Do: float, P1: float, P2: float, k: float) -> float:
    beta = Do / D
    beta2 = beta * beta
    beta4 = beta2 * beta2
    return 1.0 - (0.351 + beta4 * (0.93 * beta4 + 0.256)) * (1.0 - (P2 / P1) ** (1.0 / k))

def orifice_expansibility_1989(D: float, Do: float, P1: float, P2: float, k: float) -> float:
    beta_ratio_4 = Do / D
    beta_ratio_4 = beta_ratio_4 * beta_ratio_4
    beta_ratio_4 = beta_ratio_4 * beta_ratio_4
    return 1.0 - (0.41 + 0.35 * beta_ratio_4) * (P1 - P2) / (k * P1)

def C_Reader_Harris_Gallagher(D: float, Do: float, rho: float, mu: float, m: float, taps: str='corner') -> float:
    A_pipe = 0.25 * pi * D * D
    v = m / (A_pipe * rho)
    Re_D = rho * v * D / mu
    Re_D_inv = 1.0 / Re_D
    beta = Do / D
    if taps == 'corner':
        L1, L2_prime = (0.0, 0.0)
    elif taps == 'flange':
        L1 = L2_prime = 0.0254 / D
    elif taps in ('D', 'D/2', ORIFICE_D_AND_D_2_TAPS):
        L1 = 1.0
        L2_prime = 0.47
    else:
        raise ValueError('Unsupported tap location')
    beta2 = beta * beta
    beta4 = beta2 * beta2
    beta8 = beta4 * beta4
    A = 2648.5177066967326 * (beta * Re_D_inv) ** 0.8
    M2_prime = 2.0 * L2_prime / (1.0 - beta)
    expnL1 = exp(-L1)
    expnL2 = expnL1 * expnL1
    expnL3 = expnL1 * expnL2
    delta_C_upstream = (0.043 + expnL3 * expnL2 * expnL2 * (0.08 * expnL3 - 0.123)) * (1.0 - 0.11 * A) * beta4 / (1.0 - beta4)
    t1 = log10(3700.0 * Re_D_inv)
    if t1 < 0.0:
        t1 = 0.0
    delta_C_downstream = -0.031 * (M2_prime - 0.8 * M2_prime ** 1.1) * beta ** 1.3 * (1.0 + 8.0 * t1)
    x1 = 63.095734448019314 * Re_D_inv ** 0.3
    x2 = 22.7 - 0.0047 * Re_D
    t2 = max(x2, x1)
    C_inf_C_s = 0.5961 + 0.0261 * beta2 - 0.216 * beta8 + 0.000521 * (1000000.0 * beta * Re_D_inv) ** 0.7 + (0.0188 + 0.0063 * A) * beta2 * beta * sqrt(beta) * t2
    C = C_inf_C_s + delta_C_upstream + delta_C_downstream
    if D < 0.07112:
        t3 = 2.8 - D * inch_inv
        delta_C_diameter = 0.011 * (0.75 - beta) * t3
        C += delta_C_diameter
    return C
_Miller_1996_unsupported_type = 'Supported orifice types are {}'.format(str((CONCENTRIC_ORIFICE, SEGMENTAL_ORIFICE, ECCENTRIC_ORIFICE, CONICAL_ORIFICE, QUARTER_CIRCLE_ORIFICE)))
_Miller_1996_unsupported_tap_concentric = "Supported taps for subtype '{}' are {}".format(CONCENTRIC_ORIFICE, (ORIFICE_CORNER_TAPS, ORIFICE_FLANGE_TAPS, ORIFICE_D_AND_D_2_TAPS, ORIFICE_PIPE_TAPS))
_Miller_1996_unsupported_tap_pos_eccentric = f"Supported tap positions for subtype '{ECCENTRIC_ORIFICE}' are {(TAPS_OPPOSITE, TAPS_SIDE)}"
_Miller_1996_unsupported_tap_eccentric = f"Supported taps for subtype '{ECCENTRIC_ORIFICE}' are {(ORIFICE_FLANGE_TAPS, ORIFICE_VENA_CONTRACTA_TAPS)}"
_Miller_1996_unsupported_tap_segmental = f"Supported taps for subtype '{SEGMENTAL_ORIFICE}' are {(ORIFICE_FLANGE_TAPS, ORIFICE_VENA_CONTRACTA_TAPS)}"

def C_Miller_1996(D: float, Do: float, rho: float, mu: float, m: float, subtype: str='orifice', taps: str | None=ORIFICE_CORNER_TAPS, tap_position: str | None=TAPS_OPPOSITE) -> float:
    A_pipe = 0.25 * pi * D * D
    v = m / (A_pipe * rho)
    Re = rho * v * D / mu
    D_mm = D * 1000.0
    beta = Do / D
    beta2 = beta * beta
    beta3 = beta2 * beta
    beta4 = beta * beta3
    beta8 = beta4 * beta4
    beta21 = beta ** 2.1
    if subtype in (MILLER_ORIFICE, CONCENTRIC_ORIFICE):
        b = 91.706 * beta2 * sqrt(beta)
        n = 0.75
        if taps == ORIFICE_CORNER_TAPS:
            C_inf = 0.5959 + 0.0312 * beta21 - 0.184 * beta8
        elif taps == ORIFICE_FLANGE_TAPS:
            if D_mm >= 58.4:
                C_inf = 0.5959 + 0.0312 * beta21 - 0.184 * beta8 + 2.286 * beta4 / (D_mm * (1.0 - beta4)) - 0.856 * beta3 / D_mm
            else:
                C_inf = 0.5959 + 0.0312 * beta21 - 0.184 * beta8 + 0.039 * beta4 / (1.0 - beta4) - 0.856 * beta3 / D_mm
        elif taps == ORIFICE_D_AND_D_2_TAPS:
            C_inf = 0.5959 + 0.0312 * beta21 - 0.184 * beta8 + 0.039 * beta4 / (1.0 - beta4) - 0.01584
        elif taps == ORIFICE_PIPE_TAPS:
            C_inf = 0.5959 + 0.461 * beta21 + 0.48 * beta8 + 0.039 * beta4 / (1.0 - beta4)
        else:
            raise ValueError(_Miller_1996_unsupported_tap_concentric)
    elif subtype in (MILLER_ECCENTRIC_ORIFICE, ECCENTRIC_ORIFICE):
        if tap_position not in (TAPS_OPPOSITE, TAPS_SIDE):
            raise ValueError(_Miller_1996_unsupported_tap_pos_eccentric)
        n = 0.75
        if taps == ORIFICE_FLANGE_TAPS:
            if tap_position == TAPS_OPPOSITE:
                if D < 0.1:
                    b = 7.3 - 15.7 * beta + 170.8 * beta2 - 399.7 * beta3 + 332.2 * beta4
                    C_inf = 0.5917 + 0.3061 * beta21 + 0.3406 * beta8 - 0.1019 * beta4 / (1.0 - beta4) - 0.2715 * beta3
                else:
                    b = -139.7 + 1328.8 * beta - 4228.2 * beta2 + 5691.9 * beta3 - 2710.4 * beta4
                    C_inf = 0.6016 + 0.3312 * beta21 - 1.5581 * beta8 + 0.651 * beta4 / (1.0 - beta4) - 0.7308 * beta3
            elif tap_position == TAPS_SIDE:
                if D < 0.1:
                    b = 69.1 - 469.4 * beta + 1245.6 * beta2 - 1287.5 * beta3 + 486.2 * beta4
                    C_inf = 0.5866 + 0.3917 * beta21 + 0.7586 * beta8 - 0.2273 * beta4 / (1.0 - beta4) - 0.3343 * beta3
                else:
                    b = -103.2 + 898.3 * beta - 2557.3 * beta2 + 2977.0 * beta3 - 1131.3 * beta4
                    C_inf = 0.6037 + 0.1598 * beta21 - 0.2918 * beta8 + 0.0244 * beta4 / (1.0 - beta4) - 0.079 * beta3
        elif taps == ORIFICE_VENA_CONTRACTA_TAPS:
            if tap_position == TAPS_OPPOSITE:
                if D < 0.1:
                    b = 23.3 - 207.0 * beta + 821.5 * beta2 - 1388.6 * beta3 + 900.3 * beta4
                    C_inf = 0.5925 + 0.338 * beta21 + 0.4016 * beta8 - 0.1046 * beta4 / (1.0 - beta4) - 0.3212 * beta3
                else:
                    b = 55.7 - 471.4 * beta + 1721.8 * beta2 - 2722.6 * beta3 + 1569.4 * beta4
                    C_inf = 0.5922 + 0.3932 * beta21 + 0.3412 * beta8 - 0.0569 * beta4 / (1.0 - beta4) - 0.4628 * beta3
            elif tap_position == TAPS_SIDE:
                if D < 0.1:
                    b = -69.3 + 556.9 * beta - 1332.2 * beta2 + 1303.7 * beta3 - 394.8 * beta4
                    C_inf = 0.5875 + 0.3813 * beta21 + 0.6898 * beta8 - 0.1963 * beta4 / (1.0 - beta4) - 0.3366 * beta3
                else:
                    b = 52.8 - 434.2 * beta + 1571.2 * beta2 - 2460.9 * beta3 + 1420.2 * beta4
                    C_inf = 0.5949 + 0.4078 * beta21 + 0.0547 * beta8 + 0.0955 * beta4 / (1.0 - beta4) - 0.5608 * beta3
        else:
            raise ValueError(_Miller_1996_unsupported_tap_eccentric)
    elif subtype in (MILLER_SEGMENTAL_ORIFICE, SEGMENTAL_ORIFICE):
        n = b = 0.0
        if taps == ORIFICE_FLANGE_TAPS:
            if D < 0.1:
                C_inf = 0.6284 + 0.1462 * beta21 - 0.8464 * beta8 + 0.2603 * beta4 / (1.0 - beta4) - 0.2886 * beta3
            else:
                C_inf = 0.6276 + 0.0828 * beta21 + 0.2739 * beta8 - 0.0934 * beta4 / (1.0 - beta4) - 0.1132 * beta3
        elif taps == ORIFICE_VENA_CONTRACTA_TAPS:
            if D < 0.1:
                C_inf = 0.6261 + 0.1851 * beta21 - 0.2879 * beta8 + 0.117 * beta4 / (1.0 - beta4) - 0.2845 * beta3
            else:
                C_inf = 0.6276 + 0.0828 * beta21 + 0.2739 * beta8 - 0.0934 * beta4 / (1.0 - beta4) - 0.1132 * beta3
        else:
            raise ValueError(_Miller_1996_unsupported_tap_segmental)
    elif subtype in (MILLER_CONICAL_ORIFICE, CONICAL_ORIFICE):
        n = b = 0.0
        if 250.0 * beta <= Re <= 500.0 * beta:
            C_inf = 0.734
        else:
            C_inf = 0.73
    elif subtype in (MILLER_QUARTER_CIRCLE_ORIFICE, QUARTER_CIRCLE_ORIFICE):
        n = b = 0.0
        C_inf = 0.7746 - 0.1334 * beta21 + 1.4098 * beta8 + 0.0675 * beta4 / (1.0 - beta4) + 0.3865 * beta3
    else:
        raise ValueError(_Miller_1996_unsupported_type)
    C = C_inf + b * Re ** (-n)
    return C
orifice_std_Res_Hollingshead = [1.0, 5.0, 10.0, 20.0, 30.0, 40.0, 60.0, 80.0, 100.0, 200.0, 300.0, 500.0, 1000.0, 2000.0, 3000.0, 5000.0, 10000.0, 100000.0, 1000000.0, 10000000.0, 50000000.0]
orifice_std_logRes_Hollingshead = [0.0, 1.6094379124341003, 2.302585092994046, 2.995732273553991, 3.4011973816621555, 3.6888794541139363, 4.0943445622221, 4.382026634673881, 4.605170185988092, 5.298317366548036, 5.703782474656201, 6.214608098422191, 6.907755278982137, 7.600902459542082, 8.006367567650246, 8.517193191416238, 9.210340371976184, 11.512925464970229, 13.815510557964274, 16.11809565095832, 17.72753356339242]
orifice_std_betas_Hollingshead = [0.5, 0.6, 0.65, 0.7]
orifice_std_beta_5_Hollingshead_Cs = [0.233, 0.478, 0.585, 0.654, 0.677, 0.688, 0.697, 0.7, 0.702, 0.699, 0.693, 0.684, 0.67, 0.648, 0.639, 0.632, 0.629, 0.619, 0.615, 0.614, 0.614]
orifice_std_beta_6_Hollingshead_Cs = [0.212, 0.448, 0.568, 0.657, 0.689, 0.707, 0.721, 0.725, 0.727, 0.725, 0.719, 0.707, 0.688, 0.658, 0.642, 0.633, 0.624, 0.61, 0.605, 0.602, 0.595]
orifice_std_beta_65_Hollingshead_Cs = [0.202, 0.425, 0.546, 0.648, 0.692, 0.715, 0.738, 0.748, 0.754, 0.764, 0.763, 0.755, 0.736, 0.685, 0.666, 0.656, 0.641, 0.622, 0.612, 0.61, 0.607]
orifice_std_beta_7_Hollingshead_Cs = [0.191, 0.407, 0.532, 0.644, 0.696, 0.726, 0.756, 0.772, 0.781, 0.795, 0.796, 0.788, 0.765, 0.7, 0.67, 0.659, 0.646, 0.623, 0.616, 0.607, 0.604]
orifice_std_Hollingshead_Cs = [orifice_std_beta_5_Hollingshead_Cs, orifice_std_beta_6_Hollingshead_Cs, orifice_std_beta_65_Hollingshead_Cs, orifice_std_beta_7_Hollingshead_Cs]
orifice_std_Hollingshead_tck = implementation_optimize_tck([[0.5, 0.5, 0.5, 0.5, 0.7, 0.7, 0.7, 0.7], [0.0, 0.0, 0.0, 0.0, 2.302585092994046, 2.995732273553991, 3.4011973816621555, 3.6888794541139363, 4.0943445622221, 4.382026634673881, 4.605170185988092, 5.298317366548036, 5.703782474656201, 6.214608098422191, 6.907755278982137, 7.600902459542082, 8.006367567650246, 8.517193191416238, 9.210340371976184, 11.512925464970229, 13.815510557964274, 17.72753356339242, 17.72753356339242, 17.72753356339242, 17.72753356339242], [0.23300000000000026, 0.3040793845022822, 0.5397693379388018, 0.6509414325648643, 0.6761419937262648, 0.6901697401156808, 0.6972240707909276, 0.6996759572505151, 0.7040223363705952, 0.7008741587711967, 0.692665226515394, 0.6826387818678974, 0.6727930643166521, 0.6490542161859936, 0.6378780959698012, 0.6302027504736312, 0.6284904523610422, 0.616773266650063, 0.6144108030024114, 0.6137270770149181, 0.6140000000000004, 0.21722222222222212, 0.26754856063815036, 0.547178981607613, 0.6825835849471493, 0.6848255120880751, 0.712775784969247, 0.7066842545008245, 0.7020345744268808, 0.6931476737316041, 0.6710886785478944, 0.6501218695989138, 0.6257164975579488, 0.5888463567232898, 0.6237505336392806, 0.578149766754485, 0.5761890160080455, 0.5922303103985014, 0.5657790974864929, 0.6013376373672517, 0.5693593555949975, 0.5528888888888888, 0.206777777777778, 0.2644342350096853, 0.4630985572034346, 0.6306849522311501, 0.6899260188747366, 0.7092703879134302, 0.7331416654072416, 0.7403866219900521, 0.7531493636395633, 0.7685019053395048, 0.771007019842085, 0.7649533772965396, 0.7707020081746302, 0.6897832472092346, 0.6910618341373851, 0.6805763529796045, 0.6291884772151493, 0.6470904244660671, 0.5962879899497537, 0.6353096798316025, 0.6277777777777779, 0.19100000000000003, 0.23712276889270198, 0.44482842661392175, 0.6337225464930397, 0.6926462978136392, 0.7316874888663132, 0.7542057211530093, 0.77172737538752, 0.7876049778429112, 0.795143180926116, 0.7977570986094262, 0.7861445043222344, 0.777182818678971, 0.7057345800650827, 0.6626698628526632, 0.6600690433654985, 0.6323396431072075, 0.6212684034830293, 0.616281323630018, 0.603728515722033, 0.6040000000000001], 3, 3])

def C_eccentric_orifice_ISO_15377_1998(D: float, Do: float) -> float:
    beta = Do / D
    C = beta * (beta * (3.0428 - 1.7989 * beta) - 1.6889) + 0.9355
    return C

def C_quarter_circle_orifice_ISO_15377_1998(D: float, Do: float) -> float:
    beta = Do / D
    C = beta * (beta * (1.5084 * beta - 1.16158) + 0.3309) + 0.73823
    return C

def discharge_coefficient_to_K(D: float, Do: float, C: float) -> float:
    beta = Do / D
    beta2 = beta * beta
    beta4 = beta2 * beta2
    root_K = sqrt(1.0 - beta4 * (1.0 - C * C)) / (C * beta2) - 1.0
    return root_K * root_K

def K_to_discharge_coefficient(D: float, Do: float, K: float) -> float:
    beta = Do / D
    beta2 = beta * beta
    beta4 = beta2 * beta2
    root_K = sqrt(K)
    return sqrt((1.0 - beta4) / ((2.0 * root_K + K) * beta4))

def dP_orifice(D: float, Do: float, P1: float, P2: float, C: float) -> float:
    beta = Do / D
    beta2 = beta * beta
    beta4 = beta2 * beta2
    dP = P1 - P2
    delta_w = (sqrt(1.0 - beta4 * (1.0 - C * C)) - C * beta2) / (sqrt(1.0 - beta4 * (1.0 - C * C)) + C * beta2) * dP
    return delta_w

def velocity_of_approach_factor(D: float, Do: float) -> float:
    beta_ratio_4 = Do / D
    beta_ratio_4 *= beta_ratio_4
    beta_ratio_4 *= beta_ratio_4
    return 1.0 / sqrt(1.0 - beta_ratio_4)

def flow_coefficient(D: float, Do: float, C: float) -> float:
    beta_ratio_4 = Do / D
    beta_ratio_4 *= beta_ratio_4
    beta_ratio_4 *= beta_ratio_4
    return C * 1.0 / sqrt(1.0 - beta_ratio_4)

def nozzle_expansibility(D: float, Do: float, P1: float, P2: float, k: float, beta: float | None=None) -> float:
    if beta is None:
        beta = Do / D
    beta2 = beta * beta
    beta4 = beta2 * beta2
    tau = P2 / P1
    if k == 1.0:
        "Avoid a zero division error:\n        from sympy import *\n        D, Do, P1, P2, k = symbols('D, Do, P1, P2, k')\n        beta = Do/D\n        tau = P2/P1\n        term1 = k*tau**(2/k )/(k - 1)\n        term2 = (1 - beta**4)/(1 - beta**4*tau**(2/k))\n        term3 = (1 - tau**((k - 1)/k))/(1 - tau)\n        val= sqrt(term1*term2*term3)\n        print(simplify(limit((term1*term2*term3), k, 1)))\n        "
        limit_val = P1 * P2 ** 2 * (-1.0 + beta4) * log(P2 / P1) / (P1 ** 3 - P1 ** 2 * P2 - beta4 * P1 * P2 ** 2 + beta4 * P2 ** 3)
        return sqrt(limit_val)
    term1 = k * tau ** (2.0 / k) / (k - 1.0)
    term2 = (1.0 - beta4) / (1.0 - beta4 * tau ** (2.0 / k))
    if tau == 1.0:
        "Avoid a zero division error.\n        Obtained with:\n            from sympy import *\n            tau, k = symbols('tau, k')\n            expr = (1 - tau**((k - 1)/k))/(1 - tau)\n            limit(expr, tau, 1)\n        "
        term3 = (k - 1.0) / k
    else:
        term3 = (P1 - P2 * tau ** (-1.0 / k)) / (P1 - P2)
    return sqrt(term1 * term2 * term3)

def C_long_radius_nozzle(D: float, Do: float, rho: float, mu: float, m: float) -> float:
    A_pipe = 0.25 * pi * D * D
    v = m / (A_pipe * rho)
    Re_D = rho * v * D / mu
    beta = Do / D
    return 0.9965 - 0.00653 * sqrt(beta) * sqrt(1000000.0 / Re_D)

def C_ISA_1932_nozzle(D: float, Do: float, rho: float, mu: float, m: float) -> float:
    A_pipe = 0.25 * pi * D * D
    v = m / (A_pipe * rho)
    Re_D = rho * v * D / mu
    beta = Do / D
    C = 0.99 - 0.2262 * beta ** 4.1 - (0.00175 * beta * beta - 0.0033 * beta ** 4.15) * (1000000.0 / Re_D) ** 1.15
    return C

def C_venturi_nozzle(D: float, Do: float) -> float:
    beta = Do / D
    beta_ratio_4 = beta * beta
    beta_ratio_4 *= beta_ratio_4
    return 0.9858 - 0.196 * beta_ratio_4 * sqrt(beta)
venturi_tube_betas = [0.29916, 0.29947, 0.31239, 0.31901, 0.32658, 0.33729, 0.34202, 0.34706, 0.35903, 0.36596, 0.37258, 0.38487, 0.38581, 0.40125, 0.40535, 0.41574, 0.42425, 0.43401, 0.44788, 0.45259, 0.47181, 0.47309, 0.49354, 0.49924, 0.51653, 0.5238, 0.53763, 0.54806, 0.55684, 0.57389, 0.58235, 0.59782, 0.60156, 0.62265, 0.62649, 0.64948, 0.65099, 0.6687, 0.67587, 0.68855, 0.69318, 0.70618, 0.71333, 0.72351, 0.74954, 0.74965]
venturi_tube_dP_high = [0.164534, 0.164504, 0.163591, 0.163508, 0.163439, 0.162652, 0.162224, 0.161866, 0.161238, 0.160786, 0.160295, 0.15928, 0.159193, 0.157776, 0.157467, 0.156517, 0.155323, 0.153835, 0.151862, 0.151154, 0.14784, 0.147613, 0.144052, 0.14305, 0.140107, 0.138981, 0.136794, 0.134737, 0.132847, 0.129303, 0.127637, 0.124758, 0.124006, 0.119269, 0.118449, 0.113605, 0.113269, 0.108995, 0.107109, 0.103688, 0.102529, 0.099567, 0.097791, 0.095055, 0.087681, 0.087648]
venturi_tube_dP_low = [0.089232, 0.089218, 0.088671, 0.088435, 0.088206, 0.087853, 0.087655, 0.087404, 0.086693, 0.086241, 0.085813, 0.085142, 0.085102, 0.084446, 0.084202, 0.083301, 0.08247, 0.08165, 0.080582, 0.080213, 0.078509, 0.078378, 0.075989, 0.075226, 0.0727, 0.071598, 0.069562, 0.068128, 0.066986, 0.064658, 0.063298, 0.060872, 0.060378, 0.057879, 0.057403, 0.054091, 0.053879, 0.051726, 0.050931, 0.049362, 0.048675, 0.046522, 0.045381, 0.04384, 0.039913, 0.039896]
D_bound_venturi_tube = [0.065, 0.5]

def dP_venturi_tube(D: float, Do: float, P1: float, P2: float) -> float:
    beta = Do / D
    epsilon_D65 = interp(beta, venturi_tube_betas, venturi_tube_dP_high)
    epsilon_D500 = interp(beta, venturi_tube_betas, venturi_tube_dP_low)
    epsilon = interp(D, D_bound_venturi_tube, [epsilon_D65, epsilon_D500])
    return epsilon * (P1 - P2)

def diameter_ratio_cone_meter(D: float, Dc: float) -> float:
    D_ratio = Dc / D
    return sqrt(1.0 - D_ratio * D_ratio)

def cone_meter_expansibility_Stewart(D: float, Dc: float, P1: float, P2: float, k: float) -> float:
    dP = P1 - P2
    beta = diameter_ratio_cone_meter(D, Dc)
    beta *= beta
    beta *= beta
    return 1.0 - (0.649 + 0.696 * beta) * dP / (k * P1)

def dP_cone_meter(D: float, Dc: float, P1: float, P2: float) -> float:
    dP = P1 - P2
    beta = diameter_ratio_cone_meter(D, Dc)
    return (1.09 - 0.813 * beta) * dP

def diameter_ratio_wedge_meter(D: float, H: float) -> float:
    H_D = H / D
    t0 = 1.0 - 2.0 * H_D
    t1 = acos(t0)
    t2 = t0 + t0
    t3 = sqrt(H_D - H_D * H_D)
    t4 = t1 - t2 * t3
    return sqrt(pi_inv * t4)

def C_wedge_meter_Miller(D: float, H: float) -> float:
    beta = diameter_ratio_wedge_meter(D, H)
    beta *= beta
    if D <= 0.7 * inch:
        C = 0.7883 + 0.107 * (1.0 - beta)
    elif D <= 1.4 * inch:
        C = 0.6143 + 0.718 * (1.0 - beta)
    else:
        C = 0.5433 + 0.2453 * (1.0 - beta)
    return C

def C_wedge_meter_ISO_5167_6_2017(D: float, H: float) -> float:
    beta = diameter_ratio_wedge_meter(D, H)
    return 0.77 - 0.09 * beta

def dP_wedge_meter(D: float, H: float, P1: float, P2: float) -> float:
    dP = P1 - P2
    beta = diameter_ratio_wedge_meter(D, H)
    return (1.09 - 0.79 * beta) * dP

def C_Reader_Harris_Gallagher_wet_venturi_tube(mg: float, ml: float, rhog: float, rhol: float, D: float, Do: float, H: float=1) -> float:
    V = 4.0 * mg / (rhog * pi * D * D)
    Frg = Froude_densimetric(V, L=D, rho1=rhol, rho2=rhog, heavy=False)
    beta = Do / D
    beta2 = beta * beta
    Fr_gas_th = Frg / (beta2 * sqrt(beta))
    n = max(0.583 - 0.18 * beta2 - 0.578 * exp(-0.8 * Frg / H), 0.392 - 0.18 * beta2)
    t0 = rhog / rhol
    t1 = t0 ** n
    C_Ch = t1 + 1.0 / t1
    X = ml / mg * sqrt(t0)
    C = 1.0 - 0.0463 * exp(-0.05 * Fr_gas_th) * min(1.0, sqrt(X / 0.016))
    return C

def dP_Reader_Harris_Gallagher_wet_venturi_tube(D: float, Do: float, P1: float, P2: float, ml: float, mg: float, rhol: float, rhog: float, H: float=1.0) -> float:
    dP = P1 - P2
    beta = Do / D
    X = ml / mg * sqrt(rhog / rhol)
    V = 4 * mg / (rhog * pi * D * D)
    Frg = Froude_densimetric(V, L=D, rho1=rhol, rho2=rhog, heavy=False)
    Y_ratio = 1.0 - exp(-35.0 * X ** 0.75 * exp(-0.28 * Frg / H))
    Y_max = 0.61 * exp(-11.0 * rhog / rhol - 0.045 * Frg / H)
    Y = Y_max * Y_ratio
    rhs = -0.0896 - 0.48 * beta ** 9
    dw = dP * (Y - rhs)
    return dw
as_cast_convergent_venturi_Res = [400000.0, 60000.0, 100000.0, 150000.0]
as_cast_convergent_venturi_Cs = [0.957, 0.966, 0.976, 0.982]
machined_convergent_venturi_Res = [50000.0, 100000.0, 200000.0, 300000.0, 750000.0, 1500000.0, 5000000.0]
machined_convergent_venturi_Cs = [0.97, 0.977, 0.992, 0.998, 0.995, 1.0, 1.01]
rough_welded_convergent_venturi_Res = [40000.0, 60000.0, 100000.0]
rough_welded_convergent_venturi_Cs = [0.96, 0.97, 0.98]
as_cast_convergent_entrance_machined_venturi_Res = [10000.0, 60000.0, 100000.0, 150000.0, 350000.0, 3200000.0]
as_cast_convergent_entrance_machined_venturi_Cs = [0.963, 0.978, 0.98, 0.987, 0.992, 0.995]
venturi_Res_Hollingshead = [1.0, 5.0, 10.0, 20.0, 30.0, 40.0, 60.0, 80.0, 100.0, 200.0, 300.0, 500.0, 1000.0, 2000.0, 3000.0, 5000.0, 10000.0, 30000.0, 50000.0, 75000.0, 100000.0, 1000000.0, 10000000.0, 50000000.0]
venturi_logRes_Hollingshead = [0.0, 1.6094379124341003, 2.302585092994046, 2.995732273553991, 3.4011973816621555, 3.6888794541139363, 4.0943445622221, 4.382026634673881, 4.605170185988092, 5.298317366548036, 5.703782474656201, 6.214608098422191, 6.907755278982137, 7.600902459542082, 8.006367567650246, 8.517193191416238, 9.210340371976184, 10.308952660644293, 10.819778284410283, 11.225243392518447, 11.512925464970229, 13.815510557964274, 16.11809565095832, 17.72753356339242]
venturi_smooth_Cs_Hollingshead = [0.163, 0.336, 0.432, 0.515, 0.586, 0.625, 0.679, 0.705, 0.727, 0.803, 0.841, 0.881, 0.921, 0.937, 0.944, 0.954, 0.961, 0.967, 0.967, 0.97, 0.971, 0.973, 0.974, 0.975]
venturi_sharp_Cs_Hollingshead = [0.146, 0.3, 0.401, 0.498, 0.554, 0.596, 0.65, 0.688, 0.715, 0.801, 0.841, 0.884, 0.914, 0.94, 0.947, 0.944, 0.952, 0.959, 0.962, 0.963, 0.965, 0.967, 0.967, 0.967]
CONE_METER_C = 0.82
'Constant loss coefficient for flow cone meters'
ROUGH_WELDED_CONVERGENT_VENTURI_TUBE_C = 0.985
'Constant loss coefficient for rough-welded convergent venturi tubes'
MACHINED_CONVERGENT_VENTURI_TUBE_C = 0.995
'Constant loss coefficient for machined convergent venturi tubes'
AS_CAST_VENTURI_TUBE_C = 0.984
'Constant loss coefficient for as-cast venturi tubes'
ISO_15377_CONICAL_ORIFICE_C = 0.734
'Constant loss coefficient for conical orifice plates according to ISO 15377'
cone_Res_Hollingshead = [1.0, 5.0, 10.0, 20.0, 30.0, 40.0, 60.0, 80.0, 100.0, 150.0, 200.0, 300.0, 500.0, 1000.0, 2000.0, 3000.0, 4000.0, 5000.0, 7500.0, 10000.0, 20000.0, 30000.0, 100000.0, 1000000.0, 10000000.0, 50000000.0]
cone_logRes_Hollingshead = [0.0, 1.6094379124341003, 2.302585092994046, 2.995732273553991, 3.4011973816621555, 3.6888794541139363, 4.0943445622221, 4.382026634673881, 4.605170185988092, 5.0106352940962555, 5.298317366548036, 5.703782474656201, 6.214608098422191, 6.907755278982137, 7.600902459542082, 8.006367567650246, 8.294049640102028, 8.517193191416238, 8.922658299524402, 9.210340371976184, 9.903487552536127, 10.308952660644293, 11.512925464970229, 13.815510557964274, 16.11809565095832, 17.72753356339242]
cone_betas_Hollingshead = [0.6611, 0.6995, 0.8203]
cone_beta_6611_Hollingshead_Cs = [0.066, 0.147, 0.207, 0.289, 0.349, 0.396, 0.462, 0.506, 0.537, 0.588, 0.622, 0.661, 0.7, 0.727, 0.75, 0.759, 0.763, 0.765, 0.767, 0.773, 0.778, 0.789, 0.804, 0.803, 0.805, 0.802]
cone_beta_6995_Hollingshead_Cs = [0.067, 0.15, 0.21, 0.292, 0.35, 0.394, 0.458, 0.502, 0.533, 0.584, 0.615, 0.645, 0.682, 0.721, 0.742, 0.75, 0.755, 0.757, 0.763, 0.766, 0.774, 0.781, 0.792, 0.792, 0.79, 0.787]
cone_beta_8203_Hollingshead_Cs = [0.057, 0.128, 0.182, 0.253, 0.303, 0.343, 0.4, 0.44, 0.472, 0.526, 0.557, 0.605, 0.644, 0.685, 0.705, 0.714, 0.721, 0.722, 0.724, 0.723, 0.725, 0.731, 0.73, 0.73, 0.741, 0.734]
cone_Hollingshead_Cs = [cone_beta_6611_Hollingshead_Cs, cone_beta_6995_Hollingshead_Cs, cone_beta_8203_Hollingshead_Cs]
cone_Hollingshead_tck = implementation_optimize_tck([[0.6611, 0.6611, 0.6611, 0.8203, 0.8203, 0.8203], [0.0, 0.0, 0.0, 0.0, 2.302585092994046, 2.995732273553991, 3.4011973816621555, 3.6888794541139363, 4.0943445622221, 4.382026634673881, 4.605170185988092, 5.0106352940962555, 5.298317366548036, 5.703782474656201, 6.214608098422191, 6.907755278982137, 7.600902459542082, 8.006367567650246, 8.294049640102028, 8.517193191416238, 8.922658299524402, 9.210340371976184, 9.903487552536127, 10.308952660644293, 11.512925464970229, 13.815510557964274, 17.72753356339242, 17.72753356339242, 17.72753356339242, 17.72753356339242], [0.06600000000000003, 0.09181180887944293, 0.1406341453010674, 0.27319769866300025, 0.34177839953532274, 0.4025880076725502, 0.4563149328810349, 0.5035445307357295, 0.5458473693359689, 0.583175639128474, 0.628052124545805, 0.6647198135005781, 0.7091524396786245, 0.7254729823419331, 0.7487816963926843, 0.7588145502817809, 0.7628692532631826, 0.7660482147214834, 0.7644188319583379, 0.7782644144006241, 0.7721508139116487, 0.7994728794028244, 0.8076742194714519, 0.7986221420822799, 0.8086240532850298, 0.802, 0.07016232064017663, 0.1059162635703894, 0.1489681838592814, 0.28830815748629207, 0.35405213706957395, 0.40339795504063664, 0.4544570323055189, 0.5034637712201067, 0.5448190156693709, 0.5840164245031125, 0.6211559598098063, 0.6218648844980823, 0.6621745760710729, 0.7282379546292953, 0.7340030734801267, 0.7396324865779599, 0.7489736798953754, 0.7480726412914717, 0.7671564751169978, 0.756853660688892, 0.7787029642272745, 0.7742381131312691, 0.7887584162443445, 0.7857610450218329, 0.7697076645551957, 0.7718300910596032, 0.05700000000000002, 0.07612544859943549, 0.12401733415778271, 0.24037452209595875, 0.29662463502593156, 0.34859536586855205, 0.39480085719322505, 0.43661601622480606, 0.48091259102454764, 0.5240691286186233, 0.5590609288020619, 0.6144556048716696, 0.6471713640567137, 0.6904158809061184, 0.7032590252050219, 0.712177974557301, 0.7221845303680273, 0.721505707129694, 0.7249822376264551, 0.7218890085289907, 0.7221848475768714, 0.7371751354515526, 0.7252385062304629, 0.7278943803933404, 0.7496546607029086, 0.7340000000000001], 2, 3])
wedge_Res_Hollingshead = [1.0, 5.0, 10.0, 20.0, 30.0, 40.0, 60.0, 80.0, 100.0, 200.0, 300.0, 400.0, 500.0, 5000.0, 10000.0, 100000.0, 1000000.0, 50000000.0]
wedge_logRes_Hollingshead = [0.0, 1.6094379124341003, 2.302585092994046, 2.995732273553991, 3.4011973816621555, 3.6888794541139363, 4.0943445622221, 4.382026634673881, 4.605170185988092, 5.298317366548036, 5.703782474656201, 5.991464547107982, 6.214608098422191, 8.517193191416238, 9.210340371976184, 11.512925464970229, 13.815510557964274, 17.72753356339242]
wedge_beta_5023_Hollingshead = [0.145, 0.318, 0.432, 0.551, 0.61, 0.641, 0.674, 0.69, 0.699, 0.716, 0.721, 0.725, 0.73, 0.729, 0.732, 0.732, 0.731, 0.733]
wedge_beta_611_Hollingshead = [0.127, 0.28, 0.384, 0.503, 0.567, 0.606, 0.645, 0.663, 0.672, 0.688, 0.694, 0.7, 0.705, 0.7, 0.702, 0.695, 0.699, 0.705]
wedge_betas_Hollingshead = [0.5023, 0.611]
wedge_Hollingshead_Cs = [wedge_beta_5023_Hollingshead, wedge_beta_611_Hollingshead]
wedge_Hollingshead_tck = implementation_optimize_tck([[0.5023, 0.5023, 0.611, 0.611], [0.0, 0.0, 0.0, 0.0, 2.302585092994046, 2.995732273553991, 3.4011973816621555, 3.6888794541139363, 4.0943445622221, 4.382026634673881, 4.605170185988092, 5.298317366548036, 5.703782474656201, 5.991464547107982, 6.214608098422191, 8.517193191416238, 9.210340371976184, 11.512925464970229, 17.72753356339242, 17.72753356339242, 17.72753356339242, 17.72753356339242], [0.14500000000000005, 0.18231832425722, 0.3339917130006919, 0.5379467710226973, 0.6077700659940896, 0.6459542943925077, 0.6729757007770231, 0.6896405007576225, 0.7054863114589583, 0.7155740600632635, 0.7205446407610863, 0.7239576816068966, 0.7483627568160166, 0.7232963355919931, 0.7366325320490953, 0.7264222143567053, 0.7339605394126009, 0.7330000000000001, 0.1270000000000001, 0.16939873865132285, 0.2828494933525669, 0.4889107009077842, 0.5623120043524101, 0.6133092379676948, 0.6437092394687915, 0.6629923366662017, 0.6782934366011034, 0.687302374134782, 0.6927470053128909, 0.6993992364234898, 0.7221204483546849, 0.6947577293284015, 0.7063701306810815, 0.6781614534359871, 0.7185326811948407, 0.7050000000000001], 1, 3])
beta_simple_meters = frozenset([ISO_5167_ORIFICE, ISO_15377_ECCENTRIC_ORIFICE, ISO_15377_CONICAL_ORIFICE, ISO_15377_QUARTER_CIRCLE_ORIFICE, MILLER_ORIFICE, MILLER_ECCENTRIC_ORIFICE, MILLER_SEGMENTAL_ORIFICE, MILLER_CONICAL_ORIFICE, MILLER_QUARTER_CIRCLE_ORIFICE, CONCENTRIC_ORIFICE, ECCENTRIC_ORIFICE, CONICAL_ORIFICE, SEGMENTAL_ORIFICE, QUARTER_CIRCLE_ORIFICE, UNSPECIFIED_METER, HOLLINGSHEAD_VENTURI_SHARP, HOLLINGSHEAD_VENTURI_SMOOTH, HOLLINGSHEAD_ORIFICE, LONG_RADIUS_NOZZLE, ISA_1932_NOZZLE, VENTURI_NOZZLE, AS_CAST_VENTURI_TUBE, MACHINED_CONVERGENT_VENTURI_TUBE, ROUGH_WELDED_CONVERGENT_VENTURI_TUBE])
all_meters = frozenset(list(beta_simple_meters) + [CONE_METER, WEDGE_METER, HOLLINGSHEAD_CONE, HOLLINGSHEAD_WEDGE])
'Set of string inputs representing all of the different supported flow meters\nand their correlations.\n'
_unsupported_meter_msg = f'Supported meter types are {all_meters}'

def differential_pressure_meter_beta(D: float, D2: float, meter_type: str) -> float:
    if meter_type in beta_simple_meters:
        beta = D2 / D
    elif meter_type in (CONE_METER, HOLLINGSHEAD_CONE):
        beta = diameter_ratio_cone_meter(D=D, Dc=D2)
    elif meter_type in (WEDGE_METER, HOLLINGSHEAD_WEDGE):
        beta = diameter_ratio_wedge_meter(D=D, H=D2)
    else:
        raise ValueError(_unsupported_meter_msg)
    return beta
_meter_type_to_corr_default = {CONCENTRIC_ORIFICE: ISO_5167_ORIFICE, ECCENTRIC_ORIFICE: ISO_15377_ECCENTRIC_ORIFICE, CONICAL_ORIFICE: ISO_15377_CONICAL_ORIFICE, QUARTER_CIRCLE_ORIFICE: ISO_15377_QUARTER_CIRCLE_ORIFICE, SEGMENTAL_ORIFICE: MILLER_SEGMENTAL_ORIFICE}

def differential_pressure_meter_C_epsilon(D: float, D2: float, m: float, P1: float, P2: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None=None, tap_position: str | None=None, C_specified: float | None=None, epsilon_specified: float | None=None) -> tuple[float, float]:
    if meter_type == CONCENTRIC_ORIFICE:
        meter_type = ISO_5167_ORIFICE
    elif meter_type == ECCENTRIC_ORIFICE:
        meter_type = ISO_15377_ECCENTRIC_ORIFICE
    elif meter_type == CONICAL_ORIFICE:
        meter_type = ISO_15377_CONICAL_ORIFICE
    elif meter_type == QUARTER_CIRCLE_ORIFICE:
        meter_type = ISO_15377_QUARTER_CIRCLE_ORIFICE
    elif meter_type == SEGMENTAL_ORIFICE:
        meter_type = MILLER_SEGMENTAL_ORIFICE
    if meter_type == ISO_5167_ORIFICE:
        taps_val = taps if taps is not None else 'corner'
        C = C_Reader_Harris_Gallagher(D, D2, rho, mu, m, taps_val)
        epsilon = orifice_expansibility(D, D2, P1, P2, k)
    elif meter_type == ISO_15377_ECCENTRIC_ORIFICE:
        C = C_eccentric_orifice_ISO_15377_1998(D, D2)
        epsilon = orifice_expansibility(D, D2, P1, P2, k)
    elif meter_type == ISO_15377_QUARTER_CIRCLE_ORIFICE:
        C = C_quarter_circle_orifice_ISO_15377_1998(D, D2)
        epsilon = orifice_expansibility(D, D2, P1, P2, k)
    elif meter_type == ISO_15377_CONICAL_ORIFICE:
        C = ISO_15377_CONICAL_ORIFICE_C
        epsilon = 0.5 * (orifice_expansibility(D, D2, P1, P2, k) + nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k))
    elif meter_type in (MILLER_ORIFICE, MILLER_ECCENTRIC_ORIFICE, MILLER_SEGMENTAL_ORIFICE, MILLER_QUARTER_CIRCLE_ORIFICE):
        C = C_Miller_1996(D, D2, rho, mu, m, subtype=meter_type, taps=taps, tap_position=tap_position)
        epsilon = orifice_expansibility(D, D2, P1, P2, k)
    elif meter_type == MILLER_CONICAL_ORIFICE:
        C = C_Miller_1996(D, D2, rho, mu, m, subtype=meter_type, taps=taps, tap_position=tap_position)
        epsilon = 0.5 * (orifice_expansibility(D, D2, P1, P2, k) + nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k))
    elif meter_type == LONG_RADIUS_NOZZLE:
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
        C = C_long_radius_nozzle(D=D, Do=D2, rho=rho, mu=mu, m=m)
    elif meter_type == ISA_1932_NOZZLE:
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
        C = C_ISA_1932_nozzle(D=D, Do=D2, rho=rho, mu=mu, m=m)
    elif meter_type == VENTURI_NOZZLE:
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
        C = C_venturi_nozzle(D=D, Do=D2)
    elif meter_type == AS_CAST_VENTURI_TUBE:
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
        C = AS_CAST_VENTURI_TUBE_C
    elif meter_type == MACHINED_CONVERGENT_VENTURI_TUBE:
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
        C = MACHINED_CONVERGENT_VENTURI_TUBE_C
    elif meter_type == ROUGH_WELDED_CONVERGENT_VENTURI_TUBE:
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
        C = ROUGH_WELDED_CONVERGENT_VENTURI_TUBE_C
    elif meter_type == CONE_METER:
        epsilon = cone_meter_expansibility_Stewart(D=D, Dc=D2, P1=P1, P2=P2, k=k)
        C = CONE_METER_C
    elif meter_type == WEDGE_METER:
        beta = diameter_ratio_wedge_meter(D=D, H=D2)
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k, beta=beta)
        C = C_wedge_meter_ISO_5167_6_2017(D=D, H=D2)
    elif meter_type == HOLLINGSHEAD_ORIFICE:
        v = m / (0.25 * pi * D * D * rho)
        Re_D = rho * v * D / mu
        C = float(bisplev(D2 / D, log(Re_D), orifice_std_Hollingshead_tck))
        epsilon = orifice_expansibility(D, D2, P1, P2, k)
    elif meter_type == HOLLINGSHEAD_VENTURI_SMOOTH:
        v = m / (0.25 * pi * D * D * rho)
        Re_D = rho * v * D / mu
        C = interp(log(Re_D), venturi_logRes_Hollingshead, venturi_smooth_Cs_Hollingshead, extrapolate=True)
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
    elif meter_type == HOLLINGSHEAD_VENTURI_SHARP:
        v = m / (0.25 * pi * D * D * rho)
        Re_D = rho * v * D / mu
        C = interp(log(Re_D), venturi_logRes_Hollingshead, venturi_sharp_Cs_Hollingshead, extrapolate=True)
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k)
    elif meter_type == HOLLINGSHEAD_CONE:
        v = m / (0.25 * pi * D * D * rho)
        Re_D = rho * v * D / mu
        beta = diameter_ratio_cone_meter(D, D2)
        C = float(bisplev(beta, log(Re_D), cone_Hollingshead_tck))
        epsilon = cone_meter_expansibility_Stewart(D=D, Dc=D2, P1=P1, P2=P2, k=k)
    elif meter_type == HOLLINGSHEAD_WEDGE:
        v = m / (0.25 * pi * D * D * rho)
        Re_D = rho * v * D / mu
        beta = diameter_ratio_wedge_meter(D=D, H=D2)
        C = float(bisplev(beta, log(Re_D), wedge_Hollingshead_tck))
        epsilon = nozzle_expansibility(D=D, Do=D2, P1=P1, P2=P2, k=k, beta=beta)
    elif meter_type == UNSPECIFIED_METER:
        epsilon = orifice_expansibility(D, D2, P1, P2, k)
        if C_specified is None:
            raise ValueError('For unspecified meter type, C_specified is required')
    else:
        raise ValueError(_unsupported_meter_msg)
    if C_specified is not None:
        C = C_specified
    if epsilon_specified is not None:
        epsilon = epsilon_specified
    return (C, epsilon)

def err_dp_meter_solver_m(m_D: float, D: float, D2: float, P1: float, P2: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None, tap_position: str | None, C_specified: float | None, epsilon_specified: float | None) -> float:
    m = m_D * D
    C, epsilon = differential_pressure_meter_C_epsilon(D, D2, m, P1, P2, rho, mu, k, meter_type, taps=taps, tap_position=tap_position, C_specified=C_specified, epsilon_specified=epsilon_specified)
    m_calc = flow_meter_discharge(D=D, Do=D2, P1=P1, P2=P2, rho=rho, C=C, expansibility=epsilon, meter_type=meter_type)
    err = m - m_calc
    return err

def err_dp_meter_solver_P2(P2: float, D: float, D2: float, m: float, P1: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None, tap_position: str | None, C_specified: float | None, epsilon_specified: float | None) -> float:
    C, epsilon = differential_pressure_meter_C_epsilon(D, D2, m, P1, P2, rho, mu, k, meter_type, taps=taps, tap_position=tap_position, C_specified=C_specified, epsilon_specified=epsilon_specified)
    m_calc = flow_meter_discharge(D=D, Do=D2, P1=P1, P2=P2, rho=rho, C=C, expansibility=epsilon, meter_type=meter_type)
    return m - m_calc

def err_dp_meter_solver_D2(D2: float, D: float, m: float, P1: float, P2: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None, tap_position: str | None, C_specified: float | None, epsilon_specified: float | None) -> float:
    C, epsilon = differential_pressure_meter_C_epsilon(D, D2, m, P1, P2, rho, mu, k, meter_type, taps=taps, tap_position=tap_position, C_specified=C_specified, epsilon_specified=epsilon_specified)
    m_calc = flow_meter_discharge(D=D, Do=D2, P1=P1, P2=P2, rho=rho, C=C, expansibility=epsilon, meter_type=meter_type)
    return m - m_calc

def err_dp_meter_solver_P1(P1: float, D: float, D2: float, m: float, P2: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None, tap_position: str | None, C_specified: float | None, epsilon_specified: float | None) -> float:
    C, epsilon = differential_pressure_meter_C_epsilon(D, D2, m, P1, P2, rho, mu, k, meter_type, taps=taps, tap_position=tap_position, C_specified=C_specified, epsilon_specified=epsilon_specified)
    m_calc = flow_meter_discharge(D=D, Do=D2, P1=P1, P2=P2, rho=rho, C=C, expansibility=epsilon, meter_type=meter_type)
    return m - m_calc

def differential_pressure_meter_solver(D: float, rho: float, mu: float, k: float | None=None, D2: float | None=None, P1: float | None=None, P2: float | None=None, m: float | None=None, meter_type: str=ISO_5167_ORIFICE, taps: str | None=None, tap_position: str | None=None, C_specified: float | None=None, epsilon_specified: float | None=None) -> float:
    if k is None and epsilon_specified is not None:
        k = 1.4
    if m is None and D is not None and (D2 is not None) and (P1 is not None) and (P2 is not None):
        C_guess = 0.7
        D4 = D * D
        D4 *= D4
        D24 = D2 * D2
        D24 *= D24
        m_guess = root_two * pi * C_guess * D2 * D2 * sqrt(D4 * rho * (P1 - P2) / (D4 - D24)) * 0.25
        m_D_guess = m_guess / D
        return secant(err_dp_meter_solver_m, m_D_guess, args=(D, D2, P1, P2, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified), low=1e-40) * D
    elif D2 is None and D is not None and (m is not None) and (P1 is not None) and (P2 is not None):
        args = (D, m, P1, P2, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
        try:
            try:
                return secant(err_dp_meter_solver_D2, D * 0.3, args=args, high=D, low=D * 1e-10, bisection=True)
            except:
                return secant(err_dp_meter_solver_D2, D * 0.75, args=args, high=D, low=D * 1e-10, bisection=True)
        except:
            return brenth(err_dp_meter_solver_D2, D * (1 - 1e-09), D * 0.005, args=args)
    elif P2 is None and D is not None and (D2 is not None) and (m is not None) and (P1 is not None):
        args = (D, D2, m, P1, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
        try:
            try:
                return secant(err_dp_meter_solver_P2, P1 * 0.9, low=P1 * 0.5, args=args, high=P1, bisection=True)
            except:
                return secant(err_dp_meter_solver_P2, P1 * 0.9, low=P1 * 1e-10, args=args, high=P1, bisection=True)
        except:
            return brenth(err_dp_meter_solver_P2, P1 * (1 - 1e-09), P1 * 0.5, args=args)
    elif P1 is None and D is not None and (D2 is not None) and (m is not None) and (P2 is not None):
        args = (D, D2, m, P2, rho, mu, k, meter_type, taps, tap_position, C_specified, epsilon_specified)
        try:
            return secant(err_dp_meter_solver_P1, P2 * 1.5, args=args, low=P2, bisection=True)
        except:
            return brenth(err_dp_meter_solver_P1, P2 * (1 + 1e-09), P2 * 1.4, args=args)
    else:
        raise ValueError('Solver is capable of solving for one of P1, P2, D2, or m only.')
_dP_orifice_set = {ISO_5167_ORIFICE, ISO_15377_ECCENTRIC_ORIFICE, ISO_15377_CONICAL_ORIFICE, ISO_15377_QUARTER_CIRCLE_ORIFICE, MILLER_ORIFICE, MILLER_ECCENTRIC_ORIFICE, MILLER_SEGMENTAL_ORIFICE, MILLER_CONICAL_ORIFICE, MILLER_QUARTER_CIRCLE_ORIFICE, HOLLINGSHEAD_ORIFICE, CONCENTRIC_ORIFICE, ECCENTRIC_ORIFICE, CONICAL_ORIFICE, SEGMENTAL_ORIFICE, QUARTER_CIRCLE_ORIFICE}
_missing_C_msg = 'Parameter C is required for this orifice type'

def differential_pressure_meter_dP(D: float, D2: float, P1: float, P2: float, C: float | None=None, meter_type: str=ISO_5167_ORIFICE) -> float:
    if meter_type in _dP_orifice_set:
        if C is None:
            raise ValueError(_missing_C_msg)
        dP = dP_orifice(D=D, Do=D2, P1=P1, P2=P2, C=C)
    elif meter_type == LONG_RADIUS_NOZZLE:
        if C is None:
            raise ValueError(_missing_C_msg)
        dP = dP_orifice(D=D, Do=D2, P1=P1, P2=P2, C=C)
    elif meter_type == ISA_1932_NOZZLE:
        if C is None:
            raise ValueError(_missing_C_msg)
        dP = dP_orifice(D=D, Do=D2, P1=P1, P2=P2, C=C)
    elif meter_type == VENTURI_NOZZLE:
        raise NotImplementedError('Venturi meter does not have an implemented pressure drop correlation')
    elif meter_type in (AS_CAST_VENTURI_TUBE, MACHINED_CONVERGENT_VENTURI_TUBE, ROUGH_WELDED_CONVERGENT_VENTURI_TUBE, HOLLINGSHEAD_VENTURI_SMOOTH, HOLLINGSHEAD_VENTURI_SHARP):
        dP = dP_venturi_tube(D=D, Do=D2, P1=P1, P2=P2)
    elif meter_type in (CONE_METER, HOLLINGSHEAD_CONE):
        dP = dP_cone_meter(D=D, Dc=D2, P1=P1, P2=P2)
    elif meter_type in (WEDGE_METER, HOLLINGSHEAD_WEDGE):
        dP = dP_wedge_meter(D=D, H=D2, P1=P1, P2=P2)
    else:
        raise ValueError(_unsupported_meter_msg)
    return dP
