from __future__ import annotations
from math import atan, cos, degrees, log, log10, pi, radians, sin, sqrt, tan
from rfluids.constants import deg2rad, rad2deg
from rfluids.friction import Clamond, friction_factor, friction_factor_curved, ft_Crane
from rfluids.numerics import bisplev, horner, implementation_optimize_tck, interp, splev, tck_interp2d_linear
from rfluids.piping import NPS40, S40i
__all__: list[str] = ['CRANE_VALVES', 'DARBY_VALVES', 'HOOPER_VALVES', 'Crane_loss_coefficient', 'Cv_to_K', 'Cv_to_Kv', 'Darby', 'Darby3K', 'Hooper', 'Hooper2K', 'K_angle_stop_check_valve_Crane', 'K_angle_valve_Crane', 'K_ball_valve_Crane', 'K_branch_converging_Crane', 'K_branch_diverging_Crane', 'K_butterfly_valve_Crane', 'K_diaphragm_valve_Crane', 'K_foot_valve_Crane', 'K_gate_valve_Crane', 'K_globe_stop_check_valve_Crane', 'K_globe_valve_Crane', 'K_lift_check_valve_Crane', 'K_plug_valve_Crane', 'K_run_converging_Crane', 'K_run_diverging_Crane', 'K_swing_check_valve_Crane', 'K_tilting_disk_check_valve_Crane', 'K_to_Cv', 'K_to_Kv', 'Kv_to_Cv', 'Kv_to_K', 'bend_miter', 'bend_miter_Miller', 'bend_rounded', 'bend_rounded_Crane', 'bend_rounded_Miller', 'change_K_basis', 'contraction_beveled', 'contraction_conical', 'contraction_conical_Crane', 'contraction_round', 'contraction_round_Miller', 'contraction_sharp', 'diffuser_conical', 'diffuser_conical_staged', 'diffuser_curved', 'diffuser_pipe_reducer', 'diffuser_sharp', 'entrance_angled', 'entrance_beveled', 'entrance_beveled_orifice', 'entrance_distance', 'entrance_distance_45_Miller', 'entrance_rounded', 'entrance_sharp', 'exit_normal', 'helix', 'spiral', 'v_lift_valve_Crane']

def change_K_basis(K1: float, D1: float, D2: float) -> float:
    r = D2 / D1
    r *= r
    return K1 * r * r
entrance_sharp_methods = ['Rennels', 'Swamee', 'Blevins', 'Idelchik', 'Crane', 'Miller']
entrance_sharp_method_missing = f'Specified method not recognized; methods are {entrance_sharp_methods}'

def entrance_sharp(method: str='Rennels') -> float:
    if method is None:
        method = 'Rennels'
    if method in ('Swamee', 'Blevins', 'Crane', 'Idelchik'):
        return 0.5
    elif method == 'Miller':
        return 0.5092676683721356
    elif method == 'Rennels':
        return 0.57
    else:
        raise ValueError(entrance_sharp_method_missing)
entrance_distance_Miller_coeffs = [3.5979871366071166, -2.735407311020481, -14.08678246875138, 10.637236472292983, 21.99568490754116, -16.38501138746954, -17.62779826803278, 12.945551397987447, 7.715463242992863, -5.850893341031715, -1.3809402870404826, 1.179637166644488, 0.08781141316107932, -0.09751968111743672, 0.00501792061942849, 0.0026378278251172615, 0.5309019247035696]
entrance_distance_Idelchik_l_Di = [0.0, 0.002, 0.005, 0.01, 0.02, 0.05, 0.1, 0.2, 0.3, 0.5, 10.0]
entrance_distance_Idelchik_t_Di = [0.0, 0.004, 0.008, 0.012, 0.016, 0.02, 0.024, 0.03, 0.04, 0.05, 1.0]
entrance_distance_Idelchik_dat = [[0.5, 0.57, 0.63, 0.68, 0.73, 0.8, 0.86, 0.92, 0.97, 1, 1], [0.5, 0.54, 0.58, 0.63, 0.67, 0.74, 0.8, 0.86, 0.9, 0.94, 0.94], [0.5, 0.53, 0.55, 0.58, 0.62, 0.68, 0.74, 0.81, 0.85, 0.88, 0.88], [0.5, 0.52, 0.53, 0.55, 0.58, 0.63, 0.68, 0.75, 0.79, 0.83, 0.83], [0.5, 0.51, 0.51, 0.53, 0.55, 0.58, 0.64, 0.7, 0.74, 0.77, 0.77], [0.5, 0.51, 0.51, 0.52, 0.53, 0.55, 0.6, 0.66, 0.69, 0.72, 0.72], [0.5, 0.5, 0.5, 0.51, 0.52, 0.53, 0.58, 0.62, 0.65, 0.68, 0.68], [0.5, 0.5, 0.5, 0.51, 0.52, 0.52, 0.54, 0.57, 0.59, 0.61, 0.61], [0.5, 0.5, 0.5, 0.51, 0.51, 0.51, 0.51, 0.52, 0.52, 0.54, 0.54], [0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5], [0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5, 0.5]]
entrance_distance_Idelchik_tck = tck_interp2d_linear(entrance_distance_Idelchik_l_Di, entrance_distance_Idelchik_t_Di, entrance_distance_Idelchik_dat, kx=1, ky=1)
entrance_distance_Idelchik_obj = lambda x, y: bisplev(x, y, entrance_distance_Idelchik_tck)
entrance_distance_Harris_t_Di = [0.00322, 0.007255, 0.01223, 0.018015, 0.021776, 0.029044, 0.039417, 0.049519, 0.058012, 0.066234, 0.076747, 0.088337, 0.098714, 0.109497, 0.121762, 0.130655, 0.14036, 0.148986, 0.159902, 0.17149, 0.179578, 0.189416, 0.200602, 0.208148, 0.217716, 0.228232, 0.239821, 0.250063, 0.260845, 0.270818, 0.280116, 0.289145]
entrance_distance_Harris_Ks = [0.894574, 0.832435, 0.749768, 0.671543, 0.574442, 0.508432, 0.476283, 0.430261, 0.45027, 0.45474, 0.461993, 0.457042, 0.458745, 0.464889, 0.471594, 0.461638, 0.467778, 0.475024, 0.474509, 0.456239, 0.466258, 0.467959, 0.466336, 0.459705, 0.454746, 0.478092, 0.468701, 0.467074, 0.468779, 0.467151, 0.46441, 0.458894]
entrance_distance_Harris_tck = implementation_optimize_tck([[0.00322, 0.00322, 0.00322, 0.00322, 0.01223, 0.018015, 0.021776, 0.029044, 0.039417, 0.049519, 0.058012, 0.066234, 0.076747, 0.088337, 0.098714, 0.109497, 0.121762, 0.130655, 0.14036, 0.148986, 0.159902, 0.17149, 0.179578, 0.189416, 0.200602, 0.208148, 0.217716, 0.228232, 0.239821, 0.250063, 0.260845, 0.270818, 0.289145, 0.289145, 0.289145, 0.289145], [0.894574, 0.8607821362959746, 0.7418364422223542, 0.7071594764719331, 0.5230593641637336, 0.5053866365045014, 0.4869380604512194, 0.40993425463761973, 0.4588732899536263, 0.45115886608796796, 0.4672085434114074, 0.45422360120010624, 0.45882234693051327, 0.4633823025024543, 0.4785594597978615, 0.45603301615693537, 0.46825191653436804, 0.4759245648612374, 0.4816400424293727, 0.4467699156979281, 0.4713316096394432, 0.4667017151264001, 0.4686302748435692, 0.4597796190662107, 0.445267522727416, 0.491034205369033, 0.4641178520412072, 0.46721810151497395, 0.46958841021674314, 0.4664976446563455, 0.46420067427943945, 0.458894, 0.0, 0.0, 0.0, 0.0], 3])
entrance_distance_Harris_obj = lambda x: float(splev(x, entrance_distance_Harris_tck))
entrance_distance_methods = ['Rennels', 'Miller', 'Idelchik', 'Harris', 'Crane']
entrance_distance_unrecognized_msg = f'Specified method not recognized; methods are {entrance_distance_methods}'

def entrance_distance(Di: float, t: float | None=None, l: float | None=None, method: str='Rennels') -> float:
    if method is None:
        method = 'Rennels'
    if method in ('Rennels', 'Miller', 'Idelchik', 'Harris'):
        if t is None:
            raise ValueError(f't is required for {method} method')
        t2 = t
    if method == 'Rennels':
        t_Di = t2 / Di
        if t_Di > 0.05:
            t_Di = 0.05
        return 1.12 + t_Di * (t_Di * (80.0 * t_Di + 216.0) - 22.0)
    elif method == 'Miller':
        t_Di = t2 / Di
        if t_Di > 0.3:
            t_Di = 0.3
        return horner(entrance_distance_Miller_coeffs, 20.0 / 3.0 * (t_Di - 0.15))
    elif method == 'Idelchik':
        if l is None:
            l = Di
        t_Di = min(t2 / Di, 1.0)
        l_Di = min(l / Di, 10.0)
        K = float(entrance_distance_Idelchik_obj(l_Di, t_Di))
        if K < 0.0:
            K = 0.0
        return K
    elif method == 'Harris':
        ratio = min(t2 / Di, 0.289145)
        K = float(entrance_distance_Harris_obj(ratio))
        return K
    elif method == 'Crane':
        return 0.78
    else:
        raise ValueError(entrance_distance_unrecognized_msg)
entrance_distance_45_Miller_coeffs = [1.866792110435199, -2.8873199398381075, -4.814715029513536, 10.49562589373457, 1.40401776402922, -14.035912282651882, 6.576826918678071, 7.854645523152614, -8.044860164646053, -1.1515885154512326, 4.145420152553604, -0.7994793202964967, -1.1034822877774095, 0.32764916637953573, 0.367065452438954, -0.2614447909010587, 0.29084476697430256]

def entrance_distance_45_Miller(Di: float, Di0: float) -> float:
    t = 0.5 * (Di0 - Di)
    t_Di = t / Di
    if t_Di > 0.3:
        t_Di = 0.3
    return horner(entrance_distance_45_Miller_coeffs, 6.666666666666667 * (t_Di - 0.15))
entrance_angled_methods = ['Idelchik']
entrance_angled_methods_missing = f'Specified method not recognized; methods are {entrance_angled_methods}'

def entrance_angled(angle: float, method: str='Idelchik') -> float:
    if method == 'Idelchik' or method is None:
        cos_term = cos(deg2rad * angle)
        return 0.57 + cos_term * (0.2 * cos_term + 0.3)
    else:
        raise ValueError(entrance_angled_methods_missing)
entrance_rounded_Miller_coeffs = [1.3127209945178038, 0.19963046592715727, -6.49081916725612, -0.10347409377743588, 12.68369791325003, -0.9435681020599904, -12.44320584089916, 1.328251365167716, 6.668390027065714, -0.4356382649470076, -2.209229212394282, -0.07222448354500295, 0.6786898049825905, -0.18686362789567468, 0.020064570486606065, -0.013120241146656442, 0.061951596342059975]
entrance_rounded_ratios_Idelchik = [0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.12, 0.16, 0.2]
entrance_rounded_Ks_Idelchik = [0.5, 0.44, 0.37, 0.31, 0.26, 0.22, 0.2, 0.15, 0.09, 0.06, 0.03]
entrance_rounded_Idelchik_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.015, 0.025, 0.035, 0.045, 0.055, 0.07, 0.1, 0.14, 0.2, 0.2, 0.2], [0.5, 0.46003224474143023, 0.3682580956033294, 0.30877401146621397, 0.2590978355993873, 0.2166389749374616, 0.19717564973543905, 0.1332971654240214, 0.08659056691519569, 0.05396118560777325, 0.03, 0.0, 0.0, 0.0], 2])
entrance_rounded_Idelchik = lambda x: float(splev(x, entrance_rounded_Idelchik_tck))
entrance_rounded_ratios_Crane = [0.0, 0.02, 0.04, 0.06, 0.1, 0.15]
entrance_rounded_Ks_Crane = [0.5, 0.28, 0.24, 0.15, 0.09, 0.04]
entrance_rounded_ratios_Harris = [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.12, 0.16]
entrance_rounded_Ks_Harris = [0.44, 0.35, 0.28, 0.22, 0.17, 0.13, 0.1, 0.07, 0.03, 0.0]
entrance_rounded_Harris_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.015, 0.025, 0.035, 0.045, 0.055, 0.07, 0.1, 0.16, 0.16, 0.16], [0.44, 0.36435669860605086, 0.2790010365858813, 0.2187082142826953, 0.16874967771794716, 0.1287937194096216, 0.09091157742799895, 0.06354756460434334, 0.01885121769782832, 0.0, 0.0, 0.0, 0.0], 2])
entrance_rounded_Harris = lambda x: float(splev(x, entrance_rounded_Harris_tck))
entrance_rounded_methods = ['Rennels', 'Crane', 'Miller', 'Idelchik', 'Harris', 'Swamee']
entrance_rounded_methods_error = f'Specified method not recognized; methods are {entrance_rounded_methods}'

def entrance_rounded(Di: float, rc: float, method: str='Rennels') -> float:
    if method is None:
        method = 'Rennels'
    ratio = rc / Di
    if method == 'Rennels':
        if ratio > 1.0:
            return 0.03
        lbd = 1.0 - 0.3 * sqrt(ratio) - 0.7 * ratio
        lbd *= lbd
        lbd = 1.0 + 0.622 * lbd * lbd
        return 0.0696 * (1.0 - 0.569 * ratio) * lbd * lbd + (lbd - 1.0) * (lbd - 1.0)
    elif method == 'Swamee':
        return 0.5 / (1.0 + 36.0 * ratio ** 1.2)
    elif method == 'Crane':
        if ratio < 0:
            return 0.5
        elif ratio > 0.15:
            return 0.04
        else:
            return interp(ratio, entrance_rounded_ratios_Crane, entrance_rounded_Ks_Crane)
    elif method == 'Miller':
        if ratio > 0.3:
            ratio = 0.3
        return horner(entrance_rounded_Miller_coeffs, 20.0 / 3.0 * (ratio - 0.15))
    elif method == 'Harris':
        if ratio > 0.16:
            return 0.0
        return float(splev(ratio, entrance_rounded_Harris_tck))
    elif method == 'Idelchik':
        if ratio > 0.2:
            return entrance_rounded_Ks_Idelchik[-1]
        return float(splev(ratio, entrance_rounded_Idelchik_tck))
    else:
        raise ValueError(entrance_rounded_methods_error)
entrance_beveled_methods = ['Rennels', 'Idelchik']
entrance_beveled_methods_unknown_msg = f'Specified method not recognized; methods are {entrance_beveled_methods}'
entrance_beveled_Idelchik_l_Di = [0.025, 0.05, 0.075, 0.1, 0.15, 0.6]
entrance_beveled_Idelchik_angles = [0.0, 10.0, 20.0, 30.0, 40.0, 60.0, 100.0, 140.0, 180.0]
entrance_beveled_Idelchik_dat = [[0.5, 0.47, 0.45, 0.43, 0.41, 0.4, 0.42, 0.45, 0.5], [0.5, 0.45, 0.41, 0.36, 0.33, 0.3, 0.35, 0.42, 0.5], [0.5, 0.42, 0.35, 0.3, 0.26, 0.23, 0.3, 0.4, 0.5], [0.5, 0.39, 0.32, 0.25, 0.22, 0.18, 0.27, 0.38, 0.5], [0.5, 0.37, 0.27, 0.2, 0.16, 0.15, 0.25, 0.37, 0.5], [0.5, 0.27, 0.18, 0.13, 0.11, 0.12, 0.23, 0.36, 0.5]]
entrance_beveled_Idelchik_tck = tck_interp2d_linear(entrance_beveled_Idelchik_angles, entrance_beveled_Idelchik_l_Di, entrance_beveled_Idelchik_dat, kx=1, ky=1)
entrance_beveled_Idelchik_obj = lambda x, y: float(bisplev(x, y, entrance_beveled_Idelchik_tck))

def entrance_beveled(Di: float, l: float, angle: float, method: str='Rennels') -> float:
    if method is None:
        method = 'Rennels'
    if method == 'Rennels':
        Cb = (1 - angle / 90.0) * (angle / 90.0) ** (1.0 / (1 + l / Di))
        lbd = 1 + 0.622 * (1 - 1.5 * Cb * (l / Di) ** ((1 - sqrt(sqrt(l / Di))) / 2.0))
        return 0.0696 * (1 - Cb * l / Di) * lbd ** 2 + (lbd - 1.0) ** 2
    elif method == 'Idelchik':
        return float(bisplev(angle * 2.0, l / Di, entrance_beveled_Idelchik_tck))
    else:
        raise ValueError(entrance_beveled_methods_unknown_msg)

def entrance_beveled_orifice(Di: float, Do: float, l: float, angle: float) -> float:
    Cb = (1 - angle / 90.0) * (angle / 90.0) ** (1.0 / (1 + l / Do))
    lbd = 1 + 0.622 * (1 - Cb * (l / Do) ** ((1 - sqrt(sqrt(l / Do))) / 2.0))
    return 0.0696 * (1 - Cb * l / Do) * lbd ** 2 + (lbd - (Do / Di) ** 2) ** 2

def exit_normal() -> float:
    return 1.0
tck_bend_rounded_Miller = implementation_optimize_tck([[0.500967, 0.500967, 0.500967, 0.500967, 0.5572659504420276, 0.6220535279438968, 0.6876695918008857, 0.8109956990835443, 0.8966138996017785, 1.0418136796591293, 1.2129808986390955, 1.4328097893561944, 2.684491977649823, 3.496050493509287, 4.245254058334557, 10.0581, 10.0581, 10.0581, 10.0581], [10.0022, 10.0022, 10.0022, 10.0022, 26.661576730080427, 35.71142422728946, 46.22896414495794, 54.476944091380965, 67.28681897720492, 79.96560467244989, 88.89484575805731, 104.37345376723293, 113.75217318286595, 121.36638011164008, 139.53481668808192, 180.502, 180.502, 180.502, 180.502], [0.02844925354339322, 0.032368056788003474, 0.06341726367587057, 0.18372991235687228, 0.27828335685928296, 0.4184452895626468, 0.5844709012848479, 0.8517327028006999, 1.0883889837806633, 1.003595822015052, 1.2959349743905006, 1.3631701864169843, 3.2579960738248563, 8.188259745620396, 6.370167194425542, 0.026614405579949103, 0.03578575879432178, 0.05399131725104529, 0.17357295746658216, 0.2597698136964017, 0.384398460262134, 0.5537955210508835, 0.842964805734998, 1.1076060802420074, 1.0500502914944205, 1.2160489773171173, 1.2940140217639442, 2.5150913200614293, 5.987790923112488, 4.791049223949247, 0.026866783841898684, 0.03061409809632371, 0.054698306220358, 0.14037162784411245, 0.23981090432386729, 0.31617091309760137, 0.47435842573782666, 0.7484605121106159, 0.9223888516911868, 1.0345139221619066, 1.0709769967277933, 1.1489283659291687, 1.4249255928619116, 2.6908421883082823, 2.3898833324508804, 0.019707980719056793, 0.03350958504709355, 0.0457699204936841, 0.1180773988295937, 0.18163838540491214, 0.2955424583244998, 0.3178086095370295, 0.54907384767895, 0.7497276995283433, 0.8353766950608585, 0.8907203653185313, 0.941376749552297, 0.8755423259796333, 0.8987849646797164, 0.9905785504810203, 0.018632197087313764, 0.0275473376021632, 0.046686663726990756, 0.09334625398868963, 0.15009471210360348, 0.21438462374865175, 0.310541469358518, 0.27652184608845864, 0.4703245212932829, 0.5612926929410017, 0.6344189573543495, 0.6897616299237337, 0.8553230255854581, 0.8050040042565408, 0.7800498994134173, 0.017040716941189974, 0.027163747207842776, 0.04233976165781228, 0.08546809847236579, 0.11872359104267481, 0.1748602349243538, 0.248787221592314, 0.3166892465009758, 0.2894990945943436, 0.35635089905047324, 0.3942719381041552, 0.4019846022857163, 0.4910888827789205, 0.4424331343990761, 0.5367477778555589, 0.017232689797500957, 0.024595005629126976, 0.04235982677436609, 0.0748705682747817, 0.11096283696103083, 0.13900984487771062, 0.18773056195495877, 0.2400721832034611, 0.28581377924973544, 0.282839816159864, 0.2907117502580411, 0.3035848810896592, 0.31268019467513564, 0.3365050687225188, 0.2836774098946595, 0.017462451480157917, 0.02373981127475937, 0.04248526591300313, 0.07305722078054935, 0.09424065630357203, 0.13682400355164548, 0.15020534827616405, 0.2100221959547714, 0.23136495625582817, 0.24417894312621574, 0.2505645472554214, 0.24143469557592281, 0.24722191256497117, 0.2195110087547775, 0.29557609063213136, 0.017605444779345832, 0.026265210174737128, 0.0445497171166642, 0.07254637551095446, 0.08779690828578819, 0.11992614224260065, 0.14501268843599757, 0.17386066713179812, 0.21657094190224363, 0.21594544490951023, 0.22661999176624517, 0.23759356544596819, 0.23887614636323537, 0.25802515101229484, 0.20566480389514516, 0.01928450591486404, 0.03264367752872495, 0.05391006363370407, 0.07430728218140033, 0.08818045730326454, 0.09978389535000864, 0.12544634357734885, 0.13365159719049172, 0.15802979203343911, 0.17543365869590444, 0.17531453508236272, 0.1706085325985479, 0.15983319357859727, 0.16872558079206196, 0.19799750352823683, 0.020835891827102552, 0.047105767455498285, 0.05307639179638059, 0.07839236342751181, 0.09519829368423402, 0.10189528661430994, 0.12852821694010982, 0.13195311029179943, 0.1594822363328695, 0.15660304273110143, 0.15934161651984413, 0.17702957118830723, 0.1892675345030034, 0.19710951153945122, 0.1897835097361326, 0.031571285288316195, 0.04810266172763896, 0.05660304311192384, 0.09317293919692342, 0.08967028392412497, 0.12028974875677166, 0.1182836264474129, 0.13845925262729528, 0.15739100571169004, 0.17649056196464383, 0.20171423738165223, 0.20947832805305883, 0.22837004534830094, 0.23661874048689152, 0.24537433391842686, 0.042992073811512765, 0.045958026954244176, 0.08988351069774198, 0.08320361205549355, 0.1253881915447805, 0.12765039447605908, 0.1632907944306065, 0.17922551055575348, 0.20436939408609628, 0.23133806857897737, 0.22837190631962206, 0.2611718034649056, 0.30462224139228183, 0.3277471634644065, 0.3595577208662931, 0.042671097083349346, 0.06027193387363409, 0.07182684474072856, 0.12072547771177115, 0.1331787059163636, 0.16137414417679433, 0.1780034002291815, 0.19820571860540606, 0.2294059556234193, 0.23221403415772682, 0.2697708431035234, 0.2813760107306456, 0.28992333749905363, 0.3650401400682786, 0.8993207970132076, 0.045660964207664585, 0.06299599466264151, 0.09193684371316964, 0.12747145786167088, 0.14606550538249963, 0.172664884028299, 0.19152378303841075, 0.2212007207927944, 0.23752800077573005, 0.26289800433018995, 0.2772198641539113, 0.2995308585350757, 0.3549459028594012, 0.8032461437896778, 3.330618601208751], 3, 3])
bend_rounded_Miller_Kb = lambda rc_D, angle: float(bisplev(rc_D, angle, tck_bend_rounded_Miller))
tck_bend_rounded_Miller_C_Re = implementation_optimize_tck([[4.0, 4.0, 4.0, 4.0, 8.0, 8.0, 8.0, 8.0], [1.0, 1.0, 1.0, 1.0, 2.0, 2.0, 2.0, 2.0], [2.177340320782947, 2.185952396281732, 2.185952396281732, 2.1775876405173977, 0.6513348082098823, 0.7944713057222101, 0.7944713057222103, 1.0526247737400114, 0.6030278030721317, 1.3741240162063968, 1.3741240162063992, 0.7693594604301893, -2.1663631289607883, -1.9474318981548622, -1.9474318981548622, 0.4196741237602154], 3, 3])
bend_rounded_Miller_C_Re = lambda Re, rc_D: float(bisplev(log10(Re), rc_D, tck_bend_rounded_Miller_C_Re))
bend_rounded_Miller_C_Re_limit_1 = [2428087.757821312, -13637184.203693766, 28450331.830760233, -25496945.91463643, 8471761.477755375]
tck_bend_rounded_Miller_C_o_0_1 = implementation_optimize_tck([[9.975803953769495e-06, 9.975803953769495e-06, 9.975803953769495e-06, 9.975803953769495e-06, 0.5259485989276764, 1.3157845547408782, 3.220104449183945, 6.133677908951886, 30.260656153593906, 30.260656153593906, 30.260656153593906, 30.260656153593906], [0.6179524338907976, 0.6000479624108129, 0.49299050530751654, 0.4820011733402483, 0.5584830305084972, 0.7496716557444135, 0.8977538553873484, 0.9987218804089956, 0.0, 0.0, 0.0, 0.0], 3])
tck_bend_rounded_Miller_C_o_0_15 = implementation_optimize_tck([[0.0025931401409935687, 0.0025931401409935687, 0.0025931401409935687, 0.0025931401409935687, 0.26429667728434275, 0.5188174292838083, 1.469212480387932, 4.269571348168375, 13.268280073552294, 26.28093462852014, 26.28093462852014, 26.28093462852014, 26.28093462852014], [0.8691924906711972, 0.8355177386350426, 0.7617588987656675, 0.5853012015918869, 0.5978128647571033, 0.7366100253604377, 0.8229203841913866, 0.9484887080989913, 1.0003643259424702, 0.0, 0.0, 0.0, 0.0], 3])
tck_bend_rounded_Miller_C_o_0_2 = implementation_optimize_tck([[-0.001273275512351991, -0.001273275512351991, -0.001273275512351991, -0.001273275512351991, 0.36379835796750504, 0.7789151587713531, 1.7319487323386349, 3.559883175039053, 22.10600230228466, 22.10600230228466, 22.10600230228466, 22.10600230228466], [1.2055892891232, 1.1810797953131011, 0.8556056552110055, 0.6595884323229468, 0.6669634037761268, 0.8636791463334055, 0.8855712717206472, 0.9992625616471772, 0.0, 0.0, 0.0, 0.0], 3])
tck_bend_rounded_Miller_C_o_0_25 = implementation_optimize_tck([[0.0025931401409935687, 0.0025931401409935687, 0.0025931401409935687, 0.0025931401409935687, 0.2765978180291006, 0.5010875816968301, 0.6395222359284018, 0.661563946104784, 0.6887462820881093, 0.7312909084975013, 0.7605490601821624, 0.8078652661481783, 0.8553090397903271, 1.024376958429362, 1.4748577103270428, 2.052843716337269, 3.9670225184835175, 6.951737782758053, 16.770001745987884, 16.770001745987884, 16.770001745987884, 16.770001745987884], [2.7181584441006414, 2.6722855229796196, 2.510271857479865, 2.162580617260359, 1.8234805515473758, 1.5274137403431902, 1.3876379087140025, 1.2712745614209848, 1.1478416325256429, 1.015542018903243, 0.8445749706812837, 0.7368799268423506, 0.7061205857035833, 0.7381928947255646, 0.7960778489514514, 0.878729192230999, 0.9281388590439098, 0.9825611959699471, 0.0, 0.0, 0.0, 0.0], 3])
tck_bend_rounded_Miller_C_o_1_0 = implementation_optimize_tck([[0.0025931401409935687, 0.0025931401409935687, 0.0025931401409935687, 0.0025931401409935687, 0.4940382602529053, 0.7383107558560895, 0.8929948619544391, 0.9910262538499016, 1.1035407055233972, 1.2685727302009009, 2.190931635360523, 3.718073594472333, 6.026458907878363, 13.268280073552294, 13.268280073552294, 13.268280073552294, 13.268280073552294], [2.713127433391318, 2.6799201583608965, 2.4446034702691906, 2.0505313661892837, 1.7853408404592677, 1.5802763594858027, 1.395503315683405, 1.0504150726350026, 0.9294800209596744, 0.8937523212160566, 0.9339124388590752, 0.9769117997985829, 0.9948478073955791, 0.0, 0.0, 0.0, 0.0], 3])
tck_bend_rounded_Miller_C_os = (tck_bend_rounded_Miller_C_o_0_1, tck_bend_rounded_Miller_C_o_0_15, tck_bend_rounded_Miller_C_o_0_2, tck_bend_rounded_Miller_C_o_0_25, tck_bend_rounded_Miller_C_o_1_0)
bend_rounded_Miller_C_o_Kbs = [0.1, 0.15, 0.2, 0.25, 1]
bend_rounded_Miller_C_o_limits = [30.260656153593906, 26.28093462852014, 22.10600230228466, 16.770001745987884, 13.268280073552294]
bend_rounded_Miller_C_o_limit_0_01 = [0.6169055099514943, 0.8663244713199465, 1.2029584898712695, 2.7143438886138744, 2.7115417734646114]

def Miller_bend_roughness_correction(Re: float, Di: float, roughness: float) -> float:
    Re_fd_min = min(1000000.0, Re)
    if Re_fd_min < 1000000.0:
        fd_smooth = friction_factor(Re=Re_fd_min, eD=0.0)
    else:
        fd_smooth = 0.011645040997991626
    fd_rough = friction_factor(Re=Re_fd_min, eD=roughness / Di)
    C_roughness = fd_rough / fd_smooth
    return C_roughness

def Miller_bend_unimpeded_correction(Kb: float, Di: float, L_unimpeded: float) -> float:
    if Kb < 0.1:
        Kb_C_o = 0.1
    elif Kb > 1:
        Kb_C_o = 1.0
    else:
        Kb_C_o = Kb
    L_unimpeded_ratio = L_unimpeded / Di
    if L_unimpeded_ratio > 30:
        L_unimpeded_ratio = 30.0
    for i in range(len(bend_rounded_Miller_C_o_Kbs)):
        Kb_low, Kb_high = (bend_rounded_Miller_C_o_Kbs[i], bend_rounded_Miller_C_o_Kbs[i + 1])
        if Kb_low <= Kb_C_o <= Kb_high:
            if L_unimpeded_ratio >= bend_rounded_Miller_C_o_limits[i]:
                Co_low = 1.0
            elif L_unimpeded_ratio <= 0.01:
                Co_low = bend_rounded_Miller_C_o_limit_0_01[i]
            else:
                Co_low = float(splev(L_unimpeded_ratio, tck_bend_rounded_Miller_C_os[i]))
            if L_unimpeded_ratio >= bend_rounded_Miller_C_o_limits[i + 1]:
                Co_high = 1.0
            elif L_unimpeded_ratio <= 0.01:
                Co_high = bend_rounded_Miller_C_o_limit_0_01[i + 1]
            else:
                Co_high = float(splev(L_unimpeded_ratio, tck_bend_rounded_Miller_C_os[i + 1]))
            C_o = Co_low + (Kb_C_o - Kb_low) * (Co_high - Co_low) / (Kb_high - Kb_low)
            return C_o
    raise ValueError(f'No matching Kb range found for Kb={Kb}')

def bend_rounded_Miller(Di: float, angle: float, Re: float, rc: float | None=None, bend_diameters: float | None=None, roughness: float=0.0, L_unimpeded: float | None=None) -> float:
    if rc is None:
        if bend_diameters is None:
            bend_diameters = 5.0
        rc = Di * bend_diameters
    radius_ratio = rc / Di
    if L_unimpeded is None:
        L_unimpeded = 20.0 * Di
    if radius_ratio < 0.5:
        radius_ratio = 0.5
    if radius_ratio > 10.0:
        radius_ratio = 10.0
    if angle < 10.0:
        angle = 10.0
    Kb = bend_rounded_Miller_Kb(radius_ratio, angle)
    C_roughness = Miller_bend_roughness_correction(Re=Re, Di=Di, roughness=roughness)
    'Section 9.2.2 - Reynolds Number Correction\n    Allow some extrapolation up to 1E8 (1E7 max in graph but the trend looks good)\n    '
    Re_C_Re = min(max(Re, 10000.0), 100000000.0)
    if radius_ratio >= 2.0:
        if Re_C_Re == 100000000.0:
            C_Re = 0.4196741237602154
        elif Re_C_Re == 10000.0:
            C_Re = 2.1775876405173977
        else:
            C_Re = bend_rounded_Miller_C_Re(Re_C_Re, 2.0)
    elif radius_ratio <= 1.0:
        C_Re_1 = bend_rounded_Miller_C_Re(Re_C_Re, 1.0) if Re_C_Re < 207956.58904584477 else 1.0
        if radius_ratio > 0.7 or Kb < 0.4:
            C_Re = C_Re_1
        else:
            C_Re = Kb / (Kb - 0.2 * C_Re_1 + 0.2)
            if C_Re > 2.2 or C_Re < 0:
                C_Re = 2.2
    elif Re_C_Re > 1048884.4656835075:
        C_Re = 1.0
    elif Re_C_Re > horner(bend_rounded_Miller_C_Re_limit_1, radius_ratio):
        C_Re = 1.0
    else:
        C_Re = bend_rounded_Miller_C_Re(Re_C_Re, radius_ratio)
    C_o = Miller_bend_unimpeded_correction(Kb=Kb, Di=Di, L_unimpeded=L_unimpeded)
    return Kb * C_Re * C_roughness * C_o
bend_rounded_Crane_ratios = [1.0, 1.5, 2.0, 3.0, 4.0, 6.0, 8.0, 10.0, 12.0, 14.0, 16.0, 20.0]
bend_rounded_Crane_fds = [20.0, 14.0, 12.0, 12.0, 14.0, 17.0, 24.0, 30.0, 34.0, 38.0, 42.0, 50.0]
bend_rounded_Crane_coeffs = [111.75011378177442, -331.89911345404107, -27.841951521656483, 1066.8916917931147, -857.8702190626232, -1151.4621655498092, 1775.2416673594603, 216.37911821941805, -1458.1661519377653, 447.169127650163, 515.361158769082, -322.58377486107577, -38.38349416327068, 71.12796602489138, -16.198233745350535, 19.377150177339015, 31.107110520349494]

def bend_rounded_Crane(Di: float, angle: float, rc: float | None=None, bend_diameters: float | None=None) -> float:
    if rc is not None and bend_diameters is not None:
        if abs(Di * bend_diameters / rc - 1.0) > 1e-12:
            raise ValueError('Cannot specify both `rc` and `bend_diameters`')
    if rc is None:
        if bend_diameters is None:
            bend_diameters = 5.0
        rc = Di * bend_diameters
    fd = ft_Crane(Di)
    radius_ratio = rc / Di
    if radius_ratio < 1.0:
        radius_ratio = 1.0
    elif radius_ratio > 20.0:
        radius_ratio = 20.0
    factor = horner(bend_rounded_Crane_coeffs, 0.10526315789473684 * (radius_ratio - 10.5))
    K = fd * factor
    K = (angle / 90.0 - 1.0) * (0.25 * pi * fd * radius_ratio + 0.5 * K) + K
    return K
_Ito_angles = [45.0, 90.0, 180.0]

def bend_rounded_Ito(Di: float, angle: float, Re: float, rc: float | None=None, bend_diameters: float | None=None, roughness: float=0.0) -> float:
    if not rc:
        if bend_diameters is None:
            bend_diameters = 5.0
        rc = Di * bend_diameters
    radius_ratio = rc / Di
    angle_rad = radians(angle)
    De2 = Re * (Di / rc) ** 2.0
    if rc > 50.0 * Di:
        alpha = 1.0
    else:
        alpha_45 = 1.0 + 5.13 * (Di / rc) ** 1.47
        alpha_90 = 0.95 + 4.42 * (Di / rc) ** 1.96 if rc / Di < 9.85 else 1.0
        alpha_180 = 1.0 + 5.06 * (Di / rc) ** 4.52
        alpha = interp(angle, _Ito_angles, [alpha_45, alpha_90, alpha_180])
    if De2 <= 360.0:
        fc = friction_factor_curved(Re=Re, Di=Di, Dc=2.0 * rc, roughness=roughness, Rec_method='Srinivasan', laminar_method='White', turbulent_method='Srinivasan turbulent')
        K = 0.0175 * alpha * fc * angle * rc / Di
    else:
        K = 0.00431 * alpha * angle * Re ** (-0.17) * (rc / Di) ** 0.84
    return K
crane_standard_bend_angles = [45.0, 90.0, 180.0]
crane_standard_bend_losses = [16.0, 30.0, 50.0]
bend_rounded_methods = ['Rennels', 'Crane', 'Crane standard', 'Miller', 'Swamee', 'Ito']
bend_rounded_method_unknown = f'Specified method not recognized; methods are {bend_rounded_methods}'

def bend_rounded(Di: float, angle: float, fd: float | None=None, rc: float | None=None, bend_diameters: float | None=None, Re: float | None=None, roughness: float=0.0, L_unimpeded: None=None, method: str='Rennels') -> float:
    if method is None:
        method = 'Rennels'
    if bend_diameters is None and rc is None:
        bend_diameters = 5.0
    if rc is None:
        if bend_diameters is None:
            bend_diameters = 5.0
        bend_diameters2 = bend_diameters
        rc = Di * bend_diameters2
    else:
        bend_diameters2 = bend_diameters if bend_diameters is not None else rc / Di
    if method == 'Rennels':
        angle = radians(angle)
        if fd is None:
            if Re is None:
                raise ValueError('The `Rennels` method requires either a specified friction factor or `Re`')
            fd = Clamond(Re=Re, eD=roughness / Di, fast=False)
        sin_term = sin(0.5 * angle)
        return fd * angle * rc / Di + (0.1 + 2.4 * fd) * sin_term + 6.6 * fd * (sqrt(sin_term) + sin_term) / (rc / Di) ** (4.0 * angle / pi)
    elif method == 'Miller':
        if Re is None:
            raise ValueError('Miller method requires Reynolds number')
        return bend_rounded_Miller(Di=Di, angle=angle, Re=Re, rc=rc, bend_diameters=bend_diameters2, roughness=roughness, L_unimpeded=L_unimpeded)
    elif method == 'Crane':
        return bend_rounded_Crane(Di=Di, angle=angle, rc=rc, bend_diameters=bend_diameters2)
    elif method == 'Crane standard':
        return ft_Crane(Di) * interp(angle, crane_standard_bend_angles, crane_standard_bend_losses, extrapolate=True)
    elif method == 'Ito':
        if Re is None:
            raise ValueError('The `Ito` method requires `Re`')
        return bend_rounded_Ito(Di=Di, angle=angle, Re=Re, rc=rc, bend_diameters=bend_diameters2, roughness=roughness)
    elif method == 'Swamee':
        return (0.0733 + 0.923 * (Di / rc) ** 3.5) * sqrt(radians(angle))
    else:
        raise ValueError(bend_rounded_method_unknown)
bend_miter_Miller_coeffs = [-12.050299402650126, -4.472433689233185, 50.51478860493546, 18.246302079077196, -84.61426660754049, -28.9340865412371, 71.07345367553872, 21.354010992349565, -30.239604839338, -5.855129345095336, 5.465131779316523, -1.0881363712712555, -0.3635431075401224, 0.5120065303391261, 0.46818214491579246, 0.9789177645343993, 0.5080285124448385]

def bend_miter_Miller(Di: float, angle: float, Re: float, roughness: float=0.0, L_unimpeded: float | None=None) -> float:
    if L_unimpeded is None:
        L_unimpeded = 20.0 * Di
    if angle > 120.0:
        angle = 120.0
    Kb = horner(bend_miter_Miller_coeffs, 1.0 / 60.0 * (angle - 60.0))
    C_o = Miller_bend_unimpeded_correction(Kb=Kb, Di=Di, L_unimpeded=L_unimpeded)
    C_roughness = Miller_bend_roughness_correction(Re=Re, Di=Di, roughness=roughness)
    Re_C_Re = min(max(Re, 10000.0), 100000000.0)
    C_Re_1 = bend_rounded_Miller_C_Re(Re_C_Re, 1.0) if Re_C_Re < 207956.58904584477 else 1.0
    C_Re = Kb / (Kb - 0.2 * C_Re_1 + 0.2)
    if C_Re > 2.2 or C_Re < 0:
        C_Re = 2.2
    return Kb * C_Re * C_roughness * C_o
bend_miter_Crane_angles = [0.0, 15.0, 30.0, 45.0, 60.0, 75.0, 90.0]
bend_miter_Crane_fds = [2.0, 4.0, 8.0, 15.0, 25.0, 40.0, 60.0]
bend_miter_Blevins_angles = [0.0, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 70.0, 80.0, 90.0, 120.0]
bend_miter_Blevins_Ks = [0.0, 0.025, 0.055, 0.1, 0.2, 0.35, 0.5, 0.7, 0.9, 1.1, 1.5]
bend_miter_methods = ['Rennels', 'Miller', 'Crane', 'Blevins']
bend_miter_method_unknown_msg = f'Specified method not recognized; methods are {bend_miter_methods}'

def bend_miter(angle: float, Di: float | None=None, Re: float | None=None, roughness: float=0.0, L_unimpeded: float | None=None, method: str='Rennels') -> float:
    if method is None:
        method = 'Rennels'
    if method == 'Rennels':
        angle_rad = radians(angle)
        sin_half_angle = sin(angle_rad * 0.5)
        return 0.42 * sin_half_angle + 2.56 * sin_half_angle * sin_half_angle * sin_half_angle
    elif method == 'Crane':
        if Di is None:
            raise ValueError('Crane method requires Di')
        factor = interp(angle, bend_miter_Crane_angles, bend_miter_Crane_fds)
        return ft_Crane(Di) * factor
    elif method == 'Miller':
        if Di is None:
            raise ValueError('Miller method requires Di')
        if Re is None:
            raise ValueError('Miller method requires Re')
        return bend_miter_Miller(Di=Di, angle=angle, Re=Re, roughness=roughness, L_unimpeded=L_unimpeded)
    elif method == 'Blevins':
        if Re is None:
            raise ValueError('Blevins method requires Re')
        K_base = interp(angle, bend_miter_Blevins_angles, bend_miter_Blevins_Ks)
        return K_base * (200000.0 / Re) ** 0.2
    else:
        raise ValueError(bend_miter_method_unknown_msg)

def helix(Di: float, rs: float, pitch: float, N: int, fd: float) -> float:
    return N * (fd * sqrt((2 * pi * rs) ** 2 + pitch ** 2) / Di + 0.2 + 4.8 * fd)

def spiral(Di: float, rmax: float, rmin: float, pitch: float, fd: float) -> float:
    return (rmax - rmin) / pitch * (fd * pi * (rmax + rmin) / Di + 0.2 + 4.8 * fd) + 13.2 * fd / (rmin / Di) ** 2
tck_contraction_abrupt_Miller = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.0, 0.5553844358576507, 0.7193937784550933, 0.8144518359319883, 1.0, 1.0, 1.0, 1.0], [0.0, 0.0, 0.0, 0.0, 0.008318525134414716, 0.03421785904690331, 0.1, 0.1, 0.1, 0.1], [0.4994829280256306, 0.4879234090312588, 0.4255534701302917, 0.13986792857000196, 0.18065199312360336, 0.08701863105570044, 0.440886271558411, 0.4243716649409474, 0.36030826702480984, 0.2117960027770777, 0.11248601502220595, 0.08616608643911047, 0.4018850813314268, 0.3706136100344715, 0.26368725187530173, 0.15316562777200723, 0.09856904494833027, 0.08399367477431015, 0.17005190739488515, 0.16023910724406945, 0.1242906181281536, 0.06137573180850665, 0.05726821990215439, 0.04684229988854647, 0.03922553704852396, 0.036955938945600654, 0.029450340285188167, 0.028656302938315878, 0.019588760093397686, 0.01950497484044149, 0.006447273360860872, 0.006569278508667471, 0.0053786079483153885, -0.013158950566037957, 0.010870991979047888, 0.0015100946100218284, -0.0005221250682760256, -0.0006447517875307877, -0.0007846123907797336, 0.0024459067063225485, -0.0019102888752274472, -0.0001356300464508266], 3, 3])

def contraction_round_Miller(Di1: float, Di2: float, rc: float) -> float:
    A_ratio = Di2 * Di2 / (Di1 * Di1)
    radius_ratio = rc / Di2
    if radius_ratio > 0.1:
        radius_ratio = 0.1
    Ks = float(bisplev(A_ratio, radius_ratio, tck_contraction_abrupt_Miller))
    if Ks < 0.0:
        Ks = 0.0
    return Ks
contraction_sharp_methods = ['Rennels', 'Hooper', 'Crane']
contraction_sharp_method_unknown = f'Specified method not recognized; methods are {contraction_sharp_methods}'

def contraction_sharp(Di1: float, Di2: float, fd: float | None=None, Re: float | None=None, roughness: float=0.0, method: str='Rennels') -> float:
    if method == 'Rennels':
        beta = Di2 / Di1
        beta2 = beta * beta
        beta5 = beta2 * beta2 * beta
        lbd = 1.0 + 0.622 * (1.0 - 0.215 * beta2 - 0.785 * beta5)
        return 0.0696 * (1.0 - beta5) * lbd * lbd + (lbd - 1.0) * (lbd - 1.0)
    elif method == 'Hooper':
        if Re is None:
            raise ValueError('Hooper method requires `Re`')
        D1_D2 = Di1 / Di2
        D1_D2_2 = D1_D2 * D1_D2
        if Re <= 2500.0:
            K = (1.2 + 160.0 / Re) * (D1_D2_2 * D1_D2_2 - 1.0)
        else:
            if fd is None:
                fd = Clamond(Re=Re, eD=roughness / Di1)
            K = (0.6 + 0.48 * fd) * D1_D2_2 * (D1_D2_2 - 1.0)
        K = change_K_basis(K, Di1, Di2)
        return K
    elif method == 'Crane':
        return contraction_conical_Crane(Di1, Di2, l=0.0)
    else:
        raise ValueError(contraction_sharp_method_unknown)
contraction_round_Idelchik_ratios = [0.0, 0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.08, 0.12, 0.16, 0.2]
contraction_round_Idelchik_factors = [0.5, 0.43, 0.37, 0.31, 0.26, 0.22, 0.2, 0.15, 0.09, 0.06, 0.03]
contraction_round_methods = ['Rennels', 'Miller', 'Idelchik']
contraction_round_unknown_method = f'Specified method not recognized; methods are {contraction_round_methods}'

def contraction_round(Di1: float, Di2: float, rc: float, method: str='Rennels') -> float:
    beta = Di2 / Di1
    if method is None:
        method = 'Rennels'
    if method == 'Rennels':
        lbd = 1.0 + 0.622 * (1.0 - 0.3 * sqrt(rc / Di2) - 0.7 * rc / Di2) ** 4 * (1.0 - 0.215 * beta ** 2 - 0.785 * beta ** 5)
        return 0.0696 * (1.0 - 0.569 * rc / Di2) * (1.0 - sqrt(rc / Di2) * beta) * (1.0 - beta ** 5) * lbd * lbd + (lbd - 1.0) ** 2
    elif method == 'Miller':
        return contraction_round_Miller(Di1=Di1, Di2=Di2, rc=rc)
    elif method == 'Idelchik':
        K0 = interp(rc / Di2, contraction_round_Idelchik_ratios, contraction_round_Idelchik_factors)
        return K0 * (1.0 - beta * beta)
    else:
        raise ValueError(contraction_round_unknown_method)

def contraction_conical_Crane(Di1: float, Di2: float, l: float | None=None, angle: float | None=None) -> float:
    if l is not None:
        if l == 0.0:
            angle_rad = pi
        else:
            angle_rad = 2.0 * atan((Di1 - Di2) / (2.0 * l))
    elif angle is not None:
        angle_rad = deg2rad * angle
    else:
        raise ValueError('One of `l` or `angle` must be specified')
    beta = Di2 / Di1
    beta2 = beta * beta
    if angle_rad < 0.25 * pi:
        K2 = 0.8 * sin(0.5 * angle_rad) * (1.0 - beta2)
    else:
        K2 = 0.5 * (sqrt(sin(0.5 * angle_rad)) * (1.0 - beta2))
    return K2
contraction_conical_angles_Idelchik = [2, 3, 6, 8, 10, 12, 14, 16, 20]
contraction_conical_A_ratios_Idelchik = [0.05, 0.075, 0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6]
contraction_conical_friction_Idelchik = [[0.14, 0.1, 0.05, 0.04, 0.03, 0.03, 0.02, 0.02, 0.01], [0.14, 0.1, 0.05, 0.04, 0.03, 0.02, 0.02, 0.02, 0.01], [0.14, 0.1, 0.05, 0.04, 0.03, 0.02, 0.02, 0.02, 0.01], [0.14, 0.1, 0.05, 0.04, 0.03, 0.02, 0.02, 0.02, 0.01], [0.14, 0.1, 0.05, 0.03, 0.03, 0.02, 0.02, 0.02, 0.01], [0.14, 0.1, 0.05, 0.03, 0.03, 0.02, 0.02, 0.02, 0.01], [0.13, 0.09, 0.04, 0.03, 0.03, 0.02, 0.02, 0.02, 0.01], [0.12, 0.08, 0.04, 0.03, 0.02, 0.02, 0.02, 0.02, 0.01], [0.11, 0.07, 0.04, 0.03, 0.02, 0.02, 0.02, 0.02, 0.01], [0.09, 0.06, 0.03, 0.02, 0.02, 0.02, 0.02, 0.02, 0.01]]
contraction_conical_friction_Idelchik_tck = tck_interp2d_linear(contraction_conical_angles_Idelchik, contraction_conical_A_ratios_Idelchik, contraction_conical_friction_Idelchik, kx=1, ky=1)
contraction_conical_friction_Idelchik_obj = lambda x, y: float(bisplev(x, y, contraction_conical_friction_Idelchik_tck))
contraction_conical_l_ratios_Blevins = [0.0, 0.05, 0.1, 0.15, 0.6]
contraction_conical_A_ratios_Blevins = [1.2, 1.5, 2.0, 3.0, 5.0, 10.0]
contraction_conical_Ks_Blevins = [[0.08, 0.06, 0.04, 0.03, 0.03], [0.17, 0.12, 0.09, 0.07, 0.06], [0.25, 0.23, 0.17, 0.14, 0.06], [0.33, 0.31, 0.27, 0.23, 0.08], [0.4, 0.38, 0.35, 0.31, 0.18], [0.45, 0.45, 0.41, 0.39, 0.27]]
contraction_conical_Blevins_tck = tck_interp2d_linear(contraction_conical_l_ratios_Blevins, contraction_conical_A_ratios_Blevins, contraction_conical_Ks_Blevins, kx=1, ky=1)
contraction_conical_Blevins_obj = lambda x, y: float(bisplev(x, y, contraction_conical_Blevins_tck))
contraction_conical_Miller_tck = implementation_optimize_tck([[-2.2990613088204293, -2.2990613088204293, -2.2990613088204293, -2.2990613088204293, -1.9345621970869704, -1.404550366067981, -1.1205580332553446, -0.7202074014540876, -0.18305354619604816, 0.5791478950190209, 1.2576636025381396, 2.2907351590368092, 2.2907351590368092, 2.2907351590368092, 2.2907351590368092], [0.09564194294666524, 0.09564194294666524, 0.17553288711543455, 0.263895293813645, 0.3890819147022019, 0.46277323951998217, 0.5504296236707121, 0.7265657737596892, 1.0772357648098938, 1.2566022106161683, 1.3896885941879062, 1.3896885941879062], [-0.019518693251672135, 0.04439613867473242, 0.11549650174721836, 0.21325506677861075, 0.268179723158688, 0.31125301421509866, 0.38394595875289805, 0.4808287074532006, 0.5205981039085685, 0.5444079315893322, -0.016435668699253902, 0.036132755789022385, 0.09344296094392814, 0.18264727448046977, 0.23460506265914166, 0.2772896726095435, 0.3475409775384636, 0.45339837219176454, 0.49766916609817535, 0.533981552804865, -0.006524265764454468, 0.024107195694715193, 0.05862956870028131, 0.12122104285943507, 0.17207312024278762, 0.2175356288866053, 0.282297563080016, 0.3995008583081823, 0.4563724107887528, 0.5175856070810377, 0.00971345082784277, 0.025981390544674948, 0.0438578322196561, 0.08103403101086341, 0.11351528283253318, 0.16873088559958743, 0.2347695003589526, 0.3428907161435351, 0.42017998591926276, 0.49784770602295325, 0.022572122504756167, 0.0277671279384801, 0.033512283408629495, 0.05470423531298454, 0.06485563480390757, 0.10483763206962131, 0.1802208799223503, 0.29075723837012296, 0.35502824385155335, 0.4460106883062252, 0.030312717163327077, 0.03080869253188484, 0.03583128286874324, 0.04627567520803308, 0.050501484562613955, 0.05683263025468022, 0.12297253802915259, 0.2415222338797251, 0.3025777968736861, 0.3724407040165538, 0.03115993727503623, 0.03443665864698284, 0.03574452046031886, 0.03995718256281492, 0.04759698369059247, 0.050404788737262694, 0.052375330859925545, 0.1356057568743366, 0.20463667731329582, 0.26043914743762864, 0.02844193432840707, 0.0219797618956514, 0.013352154001094038, 0.018393840217638825, 0.02448602185526976, 0.038812331325140816, 0.0522197430071833, 0.057132169238281294, 0.06871138075102912, 0.09334527259294226, 0.04089985439478869, 0.07148502476706058, 0.06750266344761692, 0.038560772865945815, 0.020172054809734774, 0.01596047961326318, 0.033338955878272625, 0.058808731166289874, 0.055802602927507314, 0.025265841939291166, 0.11200365568168691, 0.11945663812857424, 0.10673570013847415, 0.07758458179796549, 0.055266607234870514, 0.03072901347153607, 0.025790727504652375, 0.037031664564632104, 0.0601306808668177, 0.07612350738135039, 0.0964900248905913, 0.11088549072803407, 0.10778442024110846, 0.09386482850507959, 0.06940476627270852, 0.04434507143623664, 0.03331958878624311, 0.01854072032522763, 0.027553821071285824, 0.045426686375783926], 3, 1])
contraction_conical_Miller_obj = lambda l_r2, A_ratio: max(min(float(bisplev(log(l_r2), log(A_ratio), contraction_conical_Miller_tck)), 0.5), 0)
contraction_conical_methods = ['Rennels', 'Idelchik', 'Crane', 'Swamee', 'Blevins', 'Miller', 'Hooper']
contraction_conical_method_unknown = f'Specified method not recognized; methods are {contraction_conical_methods}'

def contraction_conical(Di1: float, Di2: float, fd: float | None=None, l: float | None=None, angle: float | None=None, Re: float | None=None, roughness: float=0.0, method: str='Rennels') -> float:
    beta = Di2 / Di1
    if angle is not None:
        angle_rad = angle * deg2rad
        l = (Di1 - Di2) / (2.0 * tan(0.5 * angle_rad))
    elif l is not None:
        if l != 0.0:
            angle_rad = 2.0 * atan((Di1 - Di2) / (2.0 * l))
        else:
            angle_rad = pi
    else:
        raise ValueError('Either l or angle is required')
    if method == 'Rennels':
        if fd is None:
            if Re is None:
                raise ValueError('The `Rennels` method requires either a specified friction factor or `Re`')
            fd = Clamond(Re=Re, eD=roughness / Di2, fast=False)
        beta2 = beta * beta
        beta4 = beta2 * beta2
        beta5 = beta4 * beta
        lbd = 1.0 + 0.622 * (angle_rad / pi) ** 0.8 * (1.0 - 0.215 * beta2 - 0.785 * beta5)
        sin_half_angle = sin(0.5 * angle_rad)
        K_fr2 = fd * (1.0 - beta4) / (8.0 * sin_half_angle)
        K_conv2 = 0.0696 * sin_half_angle * (1.0 - beta5) * lbd * lbd + (lbd - 1.0) ** 2
        return K_fr2 + K_conv2
    elif method == 'Crane':
        return contraction_conical_Crane(Di1=Di1, Di2=Di2, l=l, angle=angle_rad * rad2deg)
    elif method == 'Swamee':
        return 0.315 * angle_rad ** (1.0 / 3.0)
    elif method == 'Idelchik':
        K0 = float(bisplev(angle_rad * rad2deg, l / Di2, entrance_beveled_Idelchik_tck))
        if angle_rad > 20.0 * deg2rad:
            angle_fric = 20.0
        elif angle_rad < 2.0 * deg2rad:
            angle_fric = 2.0
        else:
            angle_fric = angle_rad * rad2deg
        A_ratio = A_ratio_fric = Di2 * Di2 / (Di1 * Di1)
        if A_ratio_fric < 0.05:
            A_ratio_fric = 0.05
        elif A_ratio_fric > 0.6:
            A_ratio_fric = 0.6
        K_fr = float(contraction_conical_friction_Idelchik_obj(angle_fric, A_ratio_fric))
        return K0 * (1.0 - A_ratio) + K_fr
    elif method == 'Blevins':
        A_ratio = Di1 * Di1 / (Di2 * Di2)
        if A_ratio < 1.2:
            A_ratio = 1.2
        elif A_ratio > 10.0:
            A_ratio = 10.0
        l_ratio = l / Di2
        if l_ratio > 0.6:
            l_ratio = 0.6
        return float(contraction_conical_Blevins_obj(l_ratio, A_ratio))
    elif method == 'Miller':
        A_ratio = Di1 * Di1 / (Di2 * Di2)
        if A_ratio > 4.0:
            A_ratio = 4.0
        elif A_ratio < 1.1:
            A_ratio = 1.1
        l_ratio = l / (Di2 * 0.5)
        if l_ratio < 0.1:
            l_ratio = 0.1
        elif l_ratio > 10.0:
            l_ratio = 10.0
        return contraction_conical_Miller_obj(l_ratio, A_ratio)
    elif method == 'Hooper':
        if Re is None:
            raise ValueError('Hooper method requires `Re`')
        D1_D2 = Di1 / Di2
        D1_D2_2 = D1_D2 * D1_D2
        if Re <= 2500.0:
            K = (1.2 + 160.0 / Re) * (D1_D2_2 * D1_D2_2 - 1.0)
        else:
            if fd is None:
                fd = Clamond(Re=Re, eD=roughness / Di1)
            K = (0.6 + 0.48 * fd) * D1_D2_2 * (D1_D2_2 - 1.0)
        if angle_rad > 0.25 * pi:
            K *= sqrt(sin(0.5 * angle_rad))
        else:
            K *= 1.6 * sin(0.5 * angle_rad)
        K = change_K_basis(K, Di1, Di2)
        return K
    else:
        raise ValueError(contraction_conical_method_unknown)

def contraction_beveled(Di1: float, Di2: float, l: float, angle: float) -> float:
    angle = radians(angle)
    beta = Di2 / Di1
    CB = l / Di2 * 2.0 * beta * tan(0.5 * angle) / (1.0 - beta)
    beta2 = beta * beta
    beta5 = beta2 * beta2 * beta
    lbd = 1.0 + 0.622 * (1.0 + CB * ((angle / pi) ** 0.8 - 1.0)) * (1.0 - 0.215 * beta2 - 0.785 * beta5)
    return 0.0696 * (1.0 + CB * (sin(0.5 * angle) - 1.0)) * (1.0 - beta5) * lbd * lbd + (lbd - 1.0) ** 2
diffuser_sharp_methods = ['Rennels', 'Hooper']
diffuser_sharp_method_unknown = f'Specified method not recognized; methods are {diffuser_sharp_methods}'

def diffuser_sharp(Di1: float, Di2: float, Re: float | None=None, fd: float | None=None, roughness: float=0.0, method: str='Rennels') -> float:
    beta = Di1 / Di2
    if method == 'Rennels':
        r = 1.0 - beta * beta
        return r * r
    elif method == 'Hooper':
        if Re is None:
            raise ValueError('Method `Hooper` requires Reynolds number')
        if Re < 4000.0:
            return 2.0 * (1.0 - beta * beta * beta * beta)
        if fd is None:
            fd = Clamond(Re=Re, eD=roughness / Di1)
        x = 1.0 - beta * beta
        return (1.0 + 0.8 * fd) * x * x
    else:
        raise ValueError(diffuser_sharp_method_unknown)

def diffuser_conical_Crane(Di1, Di2, l=None, angle=None):
    beta = Di1 / Di2
    beta2 = beta * beta
    if angle is not None:
        angle_rad = radians(angle)
        angle_deg = angle
    elif l is not None:
        if l != 0.0:
            angle_rad = 2.0 * atan((Di2 - Di1) / (2.0 * l))
            angle_deg = degrees(angle_rad)
        else:
            angle_rad = pi
            angle_deg = 180.0
    else:
        raise ValueError('Either `l` or `angle` must be specified')
    if angle_deg < 45.0:
        K2 = 2.6 * sin(0.5 * angle_rad) * (1.0 - beta2) ** 2 / (beta2 * beta2)
    else:
        K2 = (1.0 - beta2) ** 2 / (beta2 * beta2)
    K1 = K2 * beta2 * beta2
    return K1
tck_diffuser_conical_Miller = implementation_optimize_tck([[-2.307004845727645, -2.307004845727645, -2.307004845727645, -2.307004845727645, -0.852533937110498, -0.08240363489988907, 0.5915927994712962, 0.8982804334259539, 1.2315822114127628, 1.5343291978351532, 1.9774792041044793, 2.990267368122924, 2.990267368122924, 2.990267368122924, 2.990267368122924], [0.15265175024859737, 0.15265175024859737, 0.15265175024859737, 0.15265175024859737, 0.40701687154729443, 0.6664564516122377, 0.8948974705226967, 1.0144777142876453, 1.0931592421107108, 1.1789561829062467, 1.3141101898631344, 1.4016433190574298, 1.4016433190574298, 1.4016433190574298, 1.4016433190574298], [0.06036297171599943, 0.08322477303304361, 0.1533018560180316, 0.23256231139725417, 0.3176212581983357, 0.40020914174974515, 0.4385944607898857, 0.5200344894492758, 0.6068491969006803, 0.5644812620968174, 0.5206931820307759, 0.05279258341151595, 0.06701886136626269, 0.15460022709300852, 0.22187392289400498, 0.3163189969211137, 0.40236602598664045, 0.44217477520553994, 0.5224439320660155, 0.5978399391103398, 0.6131809640282799, 0.6101286467987195, 0.05708355184742518, 0.06843627744908527, 0.08943713554460665, 0.2666074936578441, 0.3093579837678418, 0.3920305705167829, 0.44503141066730906, 0.5320996705995045, 0.5598015078960548, 0.9045290434928654, 1.1278543134986714, 0.004082132921064788, 0.08726673904790738, 0.05768023021275458, 0.2018006237954987, 0.31496483541908044, 0.3856708355645899, 0.4432173742517448, 0.5150555453757539, 0.5447727935474795, 0.8251456282600432, 0.996071097893787, -0.1110682037244921, 0.07314890991840513, 0.06176280023793122, 0.14210338139570033, 0.221133551530109, 0.34303500384378116, 0.40130996632027693, 0.49982098188910806, 0.5348917607889022, 0.6163719511180222, 0.6823385842053077, -0.2166378057986125, 0.03883937343819872, 0.06286476564404532, 0.10772310640543344, 0.16931893225970837, 0.22920155110345403, 0.32189134044934775, 0.4091523406543155, 0.5122997879847003, 0.5557259511248352, 0.5834892444785406, -0.2784258718931251, 0.01614983641474248, 0.06657175843926792, 0.06987287339424499, 0.11347683852709868, 0.18271325237542604, 0.24381226992585622, 0.33699751608726225, 0.4328543409526461, 0.4932084120786604, 0.5172902462503076, -0.3110304748285624, -0.02554857636053585, 0.04945754727786904, 0.06935393005092971, 0.05644398696176074, 0.08533241552366327, 0.15458680076525846, 0.24566876577901098, 0.35324686175439035, 0.4095605186012888, 0.4277661722408436, -0.27286175236092153, -0.15488345611240545, -0.09243246273089455, 0.03455782910023685, 0.0829563174865211, 0.05506682466210118, 0.07027248456489407, 0.13458355260751956, 0.21084209763905942, 0.2971705194724395, 0.3194829528180993, -0.08063077687005854, -0.4253397307338264, -0.6215191566655465, -0.29467521770312016, 0.018448009119198257, 0.08412326971799582, 0.08337420030229001, 0.131275821589702, 0.1623166890922024, 0.21352111168837065, 0.2394011632386149, 0.14484414802505116, -0.781141319195365, -1.4412452429263252, -0.6266583715858592, 0.019328251090708078, 0.07939124881757918, 0.07570115443982374, 0.10818570632561267, 0.14931529315415798, 0.1845260859797597, 0.1975713897205575], 3, 3])
diffuser_conical_Idelchik_angles = [3, 6, 8, 10, 12, 14, 16, 20, 24, 30, 40, 60, 90, 180]
diffuser_conical_Idelchik_A_ratios = [0, 0.05, 0.075, 0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6]
diffuser_conical_Idelchik_data = [[0.03, 0.08, 0.11, 0.15, 0.19, 0.23, 0.27, 0.36, 0.47, 0.65, 0.92, 1.15, 1.1, 1.02], [0.03, 0.07, 0.1, 0.14, 0.16, 0.2, 0.24, 0.32, 0.42, 0.58, 0.83, 1.04, 0.99, 0.92], [0.03, 0.07, 0.09, 0.13, 0.16, 0.19, 0.23, 0.3, 0.4, 0.55, 0.79, 0.99, 0.95, 0.88], [0.03, 0.07, 0.09, 0.12, 0.15, 0.18, 0.22, 0.29, 0.38, 0.52, 0.75, 0.93, 0.89, 0.83], [0.02, 0.06, 0.08, 0.11, 0.14, 0.17, 0.2, 0.26, 0.34, 0.46, 0.67, 0.84, 0.79, 0.74], [0.02, 0.05, 0.07, 0.1, 0.12, 0.15, 0.17, 0.23, 0.3, 0.41, 0.59, 0.74, 0.7, 0.65], [0.02, 0.05, 0.06, 0.08, 0.1, 0.13, 0.15, 0.2, 0.26, 0.35, 0.47, 0.65, 0.62, 0.58], [0.02, 0.04, 0.05, 0.07, 0.09, 0.11, 0.13, 0.18, 0.23, 0.31, 0.4, 0.57, 0.54, 0.5], [0.01, 0.03, 0.04, 0.06, 0.07, 0.08, 0.1, 0.13, 0.17, 0.23, 0.33, 0.41, 0.39, 0.37], [0.01, 0.02, 0.03, 0.04, 0.05, 0.06, 0.07, 0.09, 0.12, 0.16, 0.23, 0.29, 0.28, 0.26], [0.01, 0.01, 0.02, 0.03, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.15, 0.18, 0.17, 0.16]]
diffuser_conical_Idelchik_tck = implementation_optimize_tck([[0.0, 0.0, 0.0, 0.0, 0.075, 0.1, 0.15, 0.2, 0.25, 0.3, 0.4, 0.6, 0.6, 0.6, 0.6], [3.0, 3.0, 6.0, 8.0, 10.0, 12.0, 14.0, 16.0, 20.0, 24.0, 30.0, 40.0, 60.0, 90.0, 180.0, 180.0], [0.03, 0.08000000000000002, 0.11, 0.15000000000000002, 0.19, 0.23000000000000004, 0.2700000000000001, 0.36000000000000004, 0.4700000000000001, 0.6500000000000001, 0.9200000000000003, 1.1499999999999997, 1.0999999999999999, 1.02, 0.031285899404876215, 0.06962481602354913, 0.12336980866449107, 0.1503712244832664, 0.14378748320215035, 0.20742060216292338, 0.24836000991873095, 0.35209826742177064, 0.43872500319959085, 0.6090878367568959, 0.8690773980930455, 1.0742803401164671, 1.0021612593588036, 0.9451655708069392, 0.028714100595123804, 0.06926407286533984, 0.08440796911328675, 0.1374065532945115, 0.17287918346451642, 0.19813495339263237, 0.23719554563682488, 0.301235065911563, 0.4134972190226316, 0.5698010521319933, 0.8164781574625106, 1.0379418821057562, 1.0011720739745302, 0.9192788736375066, 0.03171453253983491, 0.07116642136473203, 0.09282641155265463, 0.11549496597768823, 0.14338331093620021, 0.17489413621723082, 0.21614667989164066, 0.28946435656236014, 0.37330000426612064, 0.5104504490091938, 0.7371031974573926, 0.9040404534886205, 0.8645483458117367, 0.810220761075916, 0.01599798425801497, 0.0600112625583925, 0.07849171306072822, 0.11003185192295382, 0.14431407179880976, 0.1740127023740962, 0.20378359569975044, 0.2582633102962821, 0.33980922441927436, 0.45585837012862357, 0.6659720355794456, 0.8470955557688615, 0.7909107314263772, 0.7433823030652078, 0.021150220771741206, 0.04655749664043002, 0.0703397965060472, 0.10328500351954951, 0.11954655404108269, 0.1488787675177576, 0.1662463204709797, 0.231242192999296, 0.3007649420874127, 0.4151976547001982, 0.604782427849235, 0.7361883438919813, 0.6970812056056823, 0.6428823350611119, 0.019401132655020165, 0.053758750879887386, 0.06014910091508289, 0.07682813399884816, 0.09749971203685935, 0.13047222755487306, 0.1512311224163308, 0.19676791770653376, 0.2571310072310745, 0.3433510110705831, 0.45489825302361336, 0.6481510686632118, 0.6207644461508929, 0.5850883566903438, 0.02185995392589747, 0.033290416160064826, 0.045368699473134086, 0.06692723598046114, 0.08810622640302032, 0.10215235383204274, 0.1213618790128196, 0.17665887566391483, 0.2219043695740277, 0.3007473976664318, 0.37586666240054567, 0.5455594857191605, 0.5128931976706977, 0.4673228653399028, 1.2670378191600348e-05, 0.03091333375994541, 0.03916320044367654, 0.06214899426206778, 0.062121072502719726, 0.06871380729933241, 0.09367771591902911, 0.10605919242336995, 0.14532614492011708, 0.196826752842303, 0.32944561762761065, 0.340669205008426, 0.32703730722467556, 0.32918425374885374, 0.014993664810904203, 0.014543333120027308, 0.025418399778161738, 0.026425502868966118, 0.04393946374864015, 0.0556430963503338, 0.05566114204048549, 0.07947040378831506, 0.10483692753994148, 0.13908662357884857, 0.1752771911861948, 0.26216539749578693, 0.2564813463876624, 0.22290787312557322, 0.01, 0.01, 0.02, 0.03, 0.03, 0.04, 0.05, 0.06, 0.08, 0.1, 0.15, 0.18, 0.17, 0.16], 3, 1])
diffuser_conical_Idelchik_obj = lambda x, y: float(bisplev(x, y, diffuser_conical_Idelchik_tck))
diffuser_conical_methods = ['Rennels', 'Crane', 'Miller', 'Swamee', 'Idelchik', 'Hooper']
diffuser_conical_method_unknown = f'Specified method not recognized; methods are {diffuser_conical_methods}'

def diffuser_conical(Di1: float, Di2: float, l: float | None=None, angle: float | None=None, fd: float | None=None, Re: float | None=None, roughness: float=0.0, method: str='Rennels') -> float:
    beta = Di1 / Di2
    beta2 = beta * beta
    if l is not None:
        angle_rad = 2.0 * atan(0.5 * (Di2 - Di1) / l)
        angle_deg = angle_rad * rad2deg
        l_calc = l
    elif angle is not None:
        angle_rad = angle * deg2rad
        angle_deg = angle
        l_calc = (Di2 - Di1) / (2.0 * tan(0.5 * angle_rad))
    else:
        raise ValueError('Either `l` or `angle` must be specified')
    if method is None:
        method = 'Rennels'
    if method == 'Rennels':
        if fd is None:
            if Re is None:
                raise ValueError('The `Rennels` method requires either a specified friction factor or `Re`')
            fd = Clamond(Re=Re, eD=roughness / Di2, fast=False)
        if 0.0 < angle_deg <= 20.0:
            K = 8.3 * tan(0.5 * angle_rad) ** 1.75 * (1.0 - beta2) ** 2 + 0.125 * fd * (1.0 - beta2 * beta2) / sin(0.5 * angle_rad)
        elif 20.0 < angle_deg <= 60.0 and 0.0 <= beta < 0.5:
            K = (1.366 * sqrt(sin(2.0 * pi * (angle_deg - 15.0) / 180.0)) - 0.17 - 3.28 * (0.0625 - beta ** 4) * sqrt(0.025 * (angle_deg - 20.0))) * (1.0 - beta2) ** 2 + 0.125 * fd * (1.0 - beta2 * beta2) / sin(0.5 * angle_rad)
        elif 20.0 < angle_deg <= 60.0 and beta >= 0.5:
            K = (1.366 * sqrt(sin(2.0 * pi * (angle_deg - 15.0) / 180.0)) - 0.17) * (1.0 - beta2) ** 2 + 0.125 * fd * (1.0 - beta2 * beta2) / sin(0.5 * angle_rad)
        elif 60.0 < angle_deg <= 180.0 and 0.0 <= beta < 0.5:
            beta4 = beta2 * beta2
            K = (1.205 - 3.28 * (0.0625 - beta4) - 12.8 * beta4 * beta2 * sqrt((angle_deg - 60.0) / 120.0)) * (1.0 - beta2) ** 2
        elif 60.0 < angle_deg <= 180.0 and beta >= 0.5:
            K = (1.205 - 0.2 * sqrt((angle_deg - 60.0) / 120.0)) * (1.0 - beta ** 2) ** 2
        else:
            raise ValueError('Conical diffuser inputs incorrect')
        return K
    elif method == 'Crane':
        return diffuser_conical_Crane(Di1=Di1, Di2=Di2, l=l_calc, angle=angle_deg)
    elif method == 'Miller':
        A_ratio = 1.0 / beta2
        if A_ratio > 4.0:
            A_ratio = 4.0
        elif A_ratio < 1.1:
            A_ratio = 1.1
        l_R1_ratio = l_calc / (0.5 * Di1)
        if l_R1_ratio < 0.1:
            l_R1_ratio = 0.1
        elif l_R1_ratio > 20.0:
            l_R1_ratio = 20.0
        Kd = max(float(bisplev(log(l_R1_ratio), log(A_ratio), tck_diffuser_conical_Miller)), 0)
        return Kd
    elif method == 'Idelchik':
        A_ratio = beta2
        if angle_deg > 20.0:
            angle_fric = 20.0
        elif angle_deg < 2.0:
            angle_fric = 2.0
        else:
            angle_fric = angle_deg
        A_ratio_fric = A_ratio
        if A_ratio_fric < 0.05:
            A_ratio_fric = 0.05
        elif A_ratio_fric > 0.6:
            A_ratio_fric = 0.6
        K_fr = float(contraction_conical_friction_Idelchik_obj(angle_fric, A_ratio_fric))
        K_exp = float(diffuser_conical_Idelchik_obj(min(0.6, A_ratio), max(3.0, angle_deg)))
        return K_fr + K_exp
    elif method == 'Swamee':
        r = Di2 / Di1
        K = 1.0 / sqrt(0.25 * angle_rad ** (-3) * (1.0 + 0.6 * r ** (-1.67) * (pi - angle_rad) / angle_rad) ** (0.533 * r - 2.6))
        return K
    elif method == 'Hooper':
        if Re is None:
            raise ValueError('Method `Hooper` requires Reynolds number')
        if Re < 4000.0:
            K_sharp = 2.0 * (1.0 - beta * beta * beta * beta)
            if angle_rad > 0.25 * pi:
                return K_sharp
            return K_sharp * 2.6 * sin(0.5 * angle_rad)
        if fd is None:
            fd = Clamond(Re=Re, eD=roughness / Di1)
        x = 1.0 - beta * beta
        K_sharp = (1.0 + 0.8 * fd) * x * x
        if angle_rad > 0.25 * pi:
            return K_sharp
        return K_sharp * 2.6 * sin(0.5 * angle_rad)
    else:
        raise ValueError(diffuser_conical_method_unknown)

def diffuser_conical_staged(Di1: float, Di2: float, DEs: list[float], ls: list[float], fd: float | None=None, method: str='Rennels') -> float:
    K = 0.0
    K += diffuser_conical(Di1=Di1, Di2=DEs[0], l=ls[0], fd=fd, method=method)
    K += diffuser_conical(Di1=DEs[-1], Di2=Di2, l=ls[-1], fd=fd, method=method)
    for i in range(len(DEs) - 1):
        K += diffuser_conical(Di1=DEs[i], Di2=DEs[i + 1], l=ls[i + 1], fd=fd, method=method)
    return K

def diffuser_curved(Di1: float, Di2: float, l: float) -> float:
    beta = Di1 / Di2
    phi = 1.01 - 0.624 * l / Di1 + 0.3 * (l / Di1) ** 2 - 0.074 * (l / Di1) ** 3 + 0.007 * (l / Di1) ** 4
    return phi * (1.43 - 1.3 * beta ** 2) * (1 - beta ** 2) ** 2

def diffuser_pipe_reducer(Di1: float, Di2: float, l: float, fd1: float, fd2: float | None=None) -> float:
    if fd2 is None:
        fd2 = fd1
    beta = Di1 / Di2
    angle = -2 * atan((Di1 - Di2) / 1.2 / l)
    K = fd1 * 0.2 * l / Di1 + fd1 * (1 - beta) / 8.0 / sin(angle / 2) + fd2 * 0.2 * l / Di2 * beta ** 4
    return K
DARBY_ANGLE_45DEG_FULL_VALVE = 'Valve, Angle valve, 45°, full line size, β = 1'
DARBY_ANGLE_90DEG_FULL_VALVE = 'Valve, Angle valve, 90°, full line size, β = 1'
DARBY_GLOBE_FULL_VALVE = 'Valve, Globe valve, standard, β = 1'
DARBY_PLUG_VALVE_BRANCH_FLOW = 'Valve, Plug valve, branch flow'
DARBY_PLUG_VALVE_STRAIGHT_THROUGH = 'Valve, Plug valve, straight through'
DARBY_PLUG_VALVE_THREE_WAY_FLOW_THROUGH = 'Valve, Plug valve, three-way (flow through)'
DARBY_GATE_VALVE = 'Valve, Gate valve, standard, β = 1'
DARBY_BALL_VALVE = 'Valve, Ball valve, standard, β = 1'
DARBY_DIAPHRAGM_DAM_VALVE = 'Valve, Diaphragm, dam type'
DARBY_SWING_CHECK_VALVE = 'Valve, Swing check'
DARBY_LIFT_CHECK_VALVE = 'Valve, Lift check'
DARBY_VALVES = [DARBY_ANGLE_45DEG_FULL_VALVE, DARBY_ANGLE_90DEG_FULL_VALVE, DARBY_GLOBE_FULL_VALVE, DARBY_PLUG_VALVE_BRANCH_FLOW, DARBY_PLUG_VALVE_STRAIGHT_THROUGH, DARBY_PLUG_VALVE_THREE_WAY_FLOW_THROUGH, DARBY_GATE_VALVE, DARBY_BALL_VALVE, DARBY_DIAPHRAGM_DAM_VALVE, DARBY_SWING_CHECK_VALVE, DARBY_LIFT_CHECK_VALVE]
Darby = {}
"Dictionary of coefficients for Darby's 3K fitting pressure drop method;\nthe tuple contains :math:`K_1` and :math:`K_i` and :math:`K_d` in that order.\n"
Darby['Elbow, 90°, threaded, standard, (r/D = 1)'] = (800.0, 0.14, 4.0)
Darby['Elbow, 90°, threaded, long radius, (r/D = 1.5)'] = (800.0, 0.071, 4.2)
Darby['Elbow, 90°, flanged, welded, bends, (r/D = 1)'] = (800.0, 0.091, 4.0)
Darby['Elbow, 90°, (r/D = 2)'] = (800.0, 0.056, 3.9)
Darby['Elbow, 90°, (r/D = 4)'] = (800.0, 0.066, 3.9)
Darby['Elbow, 90°, (r/D = 6)'] = (800.0, 0.075, 4.2)
Darby['Elbow, 90°, mitered, 1 weld, (90°)'] = (1000.0, 0.27, 4.0)
Darby['Elbow, 90°, 2 welds, (45°)'] = (800.0, 0.068, 4.1)
Darby['Elbow, 90°, 3 welds, (30°)'] = (800.0, 0.035, 4.2)
Darby['Elbow, 45°, threaded standard, (r/D = 1)'] = (500.0, 0.071, 4.2)
Darby['Elbow, 45°, long radius, (r/D = 1.5)'] = (500.0, 0.052, 4.0)
Darby['Elbow, 45°, mitered, 1 weld, (45°)'] = (500.0, 0.086, 4.0)
Darby['Elbow, 45°, mitered, 2 welds, (22.5°)'] = (500.0, 0.052, 4.0)
Darby['Elbow, 180°, threaded, close-return bend, (r/D = 1)'] = (1000.0, 0.23, 4.0)
Darby['Elbow, 180°, flanged, (r/D = 1)'] = (1000.0, 0.12, 4.0)
Darby['Elbow, 180°, all, (r/D = 1.5)'] = (1000.0, 0.1, 4.0)
Darby['Tee, Through-branch, (as elbow), threaded, (r/D = 1)'] = (500.0, 0.274, 4.0)
Darby['Tee, Through-branch,(as elbow), (r/D = 1.5)'] = (800.0, 0.14, 4.0)
Darby['Tee, Through-branch, (as elbow), flanged, (r/D = 1)'] = (800.0, 0.28, 4.0)
Darby['Tee, Through-branch, (as elbow), stub-in branch'] = (1000.0, 0.34, 4.0)
Darby['Tee, Run-through, threaded, (r/D = 1)'] = (200.0, 0.091, 4.0)
Darby['Tee, Run-through, flanged, (r/D = 1)'] = (150.0, 0.05, 4.0)
Darby['Tee, Run-through, stub-in branch'] = (100.0, 0.0, 0.0)
Darby[DARBY_ANGLE_45DEG_FULL_VALVE] = (950.0, 0.25, 4.0)
Darby[DARBY_ANGLE_90DEG_FULL_VALVE] = (1000.0, 0.69, 4.0)
Darby[DARBY_GLOBE_FULL_VALVE] = (1500.0, 1.7, 3.6)
Darby[DARBY_PLUG_VALVE_BRANCH_FLOW] = (500.0, 0.41, 4.0)
Darby[DARBY_PLUG_VALVE_STRAIGHT_THROUGH] = (300.0, 0.084, 3.9)
Darby[DARBY_PLUG_VALVE_THREE_WAY_FLOW_THROUGH] = (300.0, 0.14, 4.0)
Darby[DARBY_GATE_VALVE] = (300.0, 0.037, 3.9)
Darby[DARBY_BALL_VALVE] = (300.0, 0.017, 3.5)
Darby[DARBY_DIAPHRAGM_DAM_VALVE] = (1000.0, 0.69, 4.9)
Darby[DARBY_SWING_CHECK_VALVE] = (1500.0, 0.46, 4.0)
Darby[DARBY_LIFT_CHECK_VALVE] = (2000.0, 2.85, 3.8)
IS_NUMBA = 'IS_NUMBA' in globals()
if IS_NUMBA:
    Darby_keys = tuple(Darby.keys())
    Darby_values = tuple(Darby.values())

def Darby3K(NPS: float | None=None, Re: float | None=None, name: str | None=None, K1: float | None=None, Ki: float | None=None, Kd: float | None=None, Di: float | None=None) -> float:
    if Di is not None:
        NPS = interp(Di * 1000.0, S40i, NPS40, extrapolate=True)
    if name is not None:
        K1 = None
        if name in Darby:
            K1, Ki, Kd = Darby[name]
        if K1 is None:
            try:
                K1, Ki, Kd = Darby_values[Darby_keys.index(name)]
            except:
                raise ValueError('Name of fitting is not in database')
    elif K1 is not None and Ki is not None and (Kd is not None):
        pass
    else:
        raise ValueError('Name of fitting or constants are required')
    if NPS is None or Re is None or K1 is None or (Ki is None) or (Kd is None):
        raise ValueError('NPS, Re, and K constants must be set')
    return K1 / Re + Ki * (1.0 + Kd * NPS ** (-0.3))
HOOPER_CHECK_VALVE_TILTING_DISK = 'Valve, Check, Tilting-disc'
HOOPER_CHECK_VALVE_SWING = 'Valve, Check, Swing'
HOOPER_CHECK_VALVE_LIFT = 'Valve, Check, Lift'
HOOPER_BUTTERFLY_VALVE = 'Valve, Butterfly,'
HOOPER_DIAPHRAGM_DAM_VALVE = 'Valve, Diaphragm, Dam type'
HOOPER_GLOBE_ANGLED_OR_Y_VALVE = 'Valve, Globe, Angle or Y-type'
HOOPER_GLOBE_STANDARD_VALVE = 'Valve, Globe, Standard'
HOOPER_PLUG_REDUCED_TRIM_VALVE = 'Valve, Plug, Reduced trim, Beta = 0.8'
HOOPER_BALL_REDUCED_TRIM_VALVE = 'Valve, Ball, Reduced trim, Beta = 0.9'
HOOPER_GATE_FULL_LINE_SIZE_VALVE = 'Valve, Gate, Full line size, Beta = 1'
HOOPER_VALVES = [HOOPER_CHECK_VALVE_TILTING_DISK, HOOPER_CHECK_VALVE_SWING, HOOPER_CHECK_VALVE_LIFT, HOOPER_BUTTERFLY_VALVE, HOOPER_DIAPHRAGM_DAM_VALVE, HOOPER_GLOBE_ANGLED_OR_Y_VALVE, HOOPER_GLOBE_STANDARD_VALVE, HOOPER_PLUG_REDUCED_TRIM_VALVE, HOOPER_BALL_REDUCED_TRIM_VALVE, HOOPER_GATE_FULL_LINE_SIZE_VALVE]
Hooper = {}
"Dictionary of coefficients for Hooper's 2K fitting pressure drop method;\nthe tuple contains :math:`K_1` and :math:`K_\\infty` in that order.\n"
Hooper['Elbow, 90°, Standard (R/D = 1), Screwed'] = (800.0, 0.4)
Hooper['Elbow, 90°, Standard (R/D = 1), Flanged/welded'] = (800.0, 0.25)
Hooper['Elbow, 90°, Long-radius (R/D = 1.5), All types'] = (800.0, 0.2)
Hooper['Elbow, 90°, Mitered (R/D = 1.5), 1 weld (90° angle)'] = (1000.0, 1.15)
Hooper['Elbow, 90°, Mitered (R/D = 1.5), 2 weld (45° angle)'] = (800.0, 0.35)
Hooper['Elbow, 90°, Mitered (R/D = 1.5), 3 weld (30° angle)'] = (800.0, 0.3)
Hooper['Elbow, 90°, Mitered (R/D = 1.5), 4 weld (22.5° angle)'] = (800.0, 0.27)
Hooper['Elbow, 90°, Mitered (R/D = 1.5), 5 weld (18° angle)'] = (800.0, 0.25)
Hooper['Elbow, 45°, Standard (R/D = 1), All types'] = (500.0, 0.2)
Hooper['Elbow, 45°, Long-radius (R/D 1.5), All types'] = (500.0, 0.15)
Hooper['Elbow, 45°, Mitered (R/D=1.5), 1 weld (45° angle)'] = (500.0, 0.25)
Hooper['Elbow, 45°, Mitered (R/D=1.5), 2 weld (22.5° angle)'] = (500.0, 0.15)
Hooper['Elbow, 45°, Standard (R/D = 1), Screwed'] = (1000.0, 0.7)
Hooper['Elbow, 180°, Standard (R/D = 1), Flanged/welded'] = (1000.0, 0.35)
Hooper['Elbow, 180°, Long-radius (R/D = 1.5), All types'] = (1000.0, 0.3)
Hooper['Elbow, Used as, Standard, Screwed'] = (500.0, 0.7)
Hooper['Elbow, Elbow, Long-radius, Screwed'] = (800.0, 0.4)
Hooper['Elbow, Elbow, Standard, Flanged/welded'] = (800.0, 0.8)
Hooper['Elbow, Elbow, Stub-in type branch'] = (1000.0, 1.0)
Hooper['Tee, Run, Screwed'] = (200.0, 0.1)
Hooper['Tee, Through, Flanged or welded'] = (150.0, 0.05)
Hooper['Tee, Tee, Stub-in type branch'] = (100.0, 0.0)
Hooper[HOOPER_GATE_FULL_LINE_SIZE_VALVE] = (300.0, 0.1)
Hooper[HOOPER_BALL_REDUCED_TRIM_VALVE] = (500.0, 0.15)
Hooper[HOOPER_PLUG_REDUCED_TRIM_VALVE] = (1000.0, 0.25)
Hooper[HOOPER_GLOBE_STANDARD_VALVE] = (1500.0, 4.0)
Hooper[HOOPER_GLOBE_ANGLED_OR_Y_VALVE] = (1000.0, 2.0)
Hooper[HOOPER_DIAPHRAGM_DAM_VALVE] = (1000.0, 2.0)
Hooper[HOOPER_BUTTERFLY_VALVE] = (800.0, 0.25)
Hooper[HOOPER_CHECK_VALVE_LIFT] = (2000.0, 10.0)
Hooper[HOOPER_CHECK_VALVE_SWING] = (1500.0, 1.5)
Hooper[HOOPER_CHECK_VALVE_TILTING_DISK] = (1000.0, 0.5)
if IS_NUMBA:
    Hooper_keys = tuple(Hooper.keys())
    Hooper_values = tuple(Hooper.values())

def Hooper2K(Di: float, Re: float, name: str | None=None, K1: float | None=None, Kinfty: float | None=None) -> float:
    if name is not None:
        K1 = None
        if name in Hooper:
            K1, Kinfty = Hooper[name]
        if K1 is None:
            try:
                K1, Kinfty = Hooper_values[Hooper_keys.index(name)]
            except:
                raise ValueError('Name of fitting is not in database')
    elif K1 is not None and Kinfty is not None:
        pass
    else:
        raise ValueError('Name of fitting or constants are required')
    if K1 is None or Kinfty is None:
        raise ValueError('K1 and Kinfty must be set')
    return K1 / Re + Kinfty * (1.0 + 1.0 / Di)

def Kv_to_Cv(Kv: float) -> float:
    return 1.1560992283536566 * Kv

def Cv_to_Kv(Cv: float) -> float:
    return Cv / 1.1560992283536566

def Kv_to_K(Kv: float, D: float) -> float:
    return 1600000000.0 * D ** 4 * Kv ** (-2)

def K_to_Kv(K: float, D: float) -> float:
    return D * D * sqrt(1600000000.0 / K)

def K_to_Cv(K: float, D: float) -> float:
    return 1.1560992283536566 * D * D * sqrt(1600000000.0 / K)

def Cv_to_K(Cv: float, D: float) -> float:
    D2 = D * D
    term = Cv * (1.0 / 1.1560992283536566)
    return 1600000000.0 * D2 * D2 / (term * term)

def K_gate_valve_Crane(D1: float, D2: float, angle: float, fd: float | None=None) -> float:
    angle = radians(angle)
    beta = D1 / D2
    if fd is None:
        fd = ft_Crane(D2)
    K1 = 8.0 * fd
    if beta == 1.0 or angle == 0.0:
        return K1
    else:
        beta2 = beta * beta
        one_m_beta2 = 1.0 - beta2
        if angle <= 0.7853981633974483:
            K = (K1 + sin(0.5 * angle) * (one_m_beta2 * (0.8 + 2.6 * one_m_beta2))) / (beta2 * beta2)
        else:
            K = (K1 + one_m_beta2 * (0.5 * sqrt(sin(0.5 * angle)) + one_m_beta2)) / (beta2 * beta2)
    return K

def K_globe_valve_Crane(D1: float, D2: float, fd: float | None=None) -> float:
    beta = D1 / D2
    if fd is None:
        fd = ft_Crane(D2)
    K1 = 340.0 * fd
    if beta == 1.0:
        return K1
    else:
        beta2 = beta * beta
        one_m_beta = 1.0 - beta
        one_m_beta2 = 1.0 - beta2
        return (K1 + beta * (0.5 * one_m_beta * one_m_beta + one_m_beta2 * one_m_beta2)) / (beta2 * beta2)

def K_angle_valve_Crane(D1: float, D2: float, fd: float | None=None, style: int=0) -> float:
    beta = D1 / D2
    if style not in (0, 1, 2):
        raise ValueError('Valve style should be 0, 1, or 2')
    if fd is None:
        fd = ft_Crane(D2)
    if style in (0, 2):
        K1 = 55.0 * fd
    else:
        K1 = 150.0 * fd
    if beta == 1:
        return K1
    else:
        return (K1 + beta * (0.5 * (1 - beta) ** 2 + (1 - beta ** 2) ** 2)) / beta ** 4

def K_swing_check_valve_Crane(D: float | None=None, fd: float | None=None, angled: bool=True) -> float:
    if fd is None:
        if D is None:
            raise ValueError('D must be specified if fd is not provided')
        fd = ft_Crane(D)
    if angled:
        return 100.0 * fd
    return 50.0 * fd

def K_lift_check_valve_Crane(D1: float, D2: float, fd: float | None=None, angled: bool=True) -> float:
    beta = D1 / D2
    if fd is None:
        fd = ft_Crane(D2)
    if angled:
        K1 = 55 * fd
        if beta == 1:
            return K1
        else:
            return (K1 + beta * (0.5 * (1 - beta ** 2) + (1 - beta ** 2) ** 2)) / beta ** 4
    else:
        K1 = 600.0 * fd
        if beta == 1:
            return K1
        else:
            return (K1 + beta * (0.5 * (1 - beta ** 2) + (1 - beta ** 2) ** 2)) / beta ** 4

def K_tilting_disk_check_valve_Crane(D: float, angle: float, fd: float | None=None) -> float:
    if fd is None:
        fd = ft_Crane(D)
    if angle < 10:
        if D <= 0.2286:
            return 40 * fd
        elif D <= 0.381:
            return 30 * fd
        else:
            return 20 * fd
    elif D < 0.2286:
        return 120 * fd
    elif D < 0.381:
        return 90 * fd
    else:
        return 60 * fd
globe_stop_check_valve_Crane_coeffs = {0: 400.0, 1: 300.0, 2: 55.0}

def K_globe_stop_check_valve_Crane(D1: float, D2: float, fd: float | None=None, style: int=0) -> float:
    if fd is None:
        fd = ft_Crane(D2)
    if style == 0:
        K = 400.0 * fd
    elif style == 1:
        K = 300.0 * fd
    elif style == 2:
        K = 55.0 * fd
    else:
        raise ValueError('Accepted valve styles are 0, 1, and 2 only')
    beta = D1 / D2
    if beta == 1.0:
        return K
    else:
        return (K + beta * (0.5 * (1 - beta ** 2) + (1 - beta ** 2) ** 2)) / beta ** 4
angle_stop_check_valve_Crane_coeffs = {0: 200.0, 1: 350.0, 2: 55.0}

def K_angle_stop_check_valve_Crane(D1: float, D2: float, fd: float | None=None, style: int=0) -> float:
    if fd is None:
        fd = ft_Crane(D2)
    if style == 0:
        K = 200.0 * fd
    elif style == 1:
        K = 350.0 * fd
    elif style == 2:
        K = 55.0 * fd
    else:
        raise ValueError('Accepted valve styles are 0, 1, and 2 only')
    beta = D1 / D2
    if beta == 1:
        return K
    else:
        return (K + beta * (0.5 * (1.0 - beta ** 2) + (1.0 - beta ** 2) ** 2)) / beta ** 4

def K_ball_valve_Crane(D1: float, D2: float, angle: float, fd: float | None=None) -> float:
    if fd is None:
        fd = ft_Crane(D2)
    beta = D1 / D2
    K1 = 3 * fd
    angle = radians(angle)
    if beta == 1:
        return K1
    elif angle <= pi / 4:
        return (K1 + sin(angle / 2) * (0.8 * (1 - beta ** 2) + 2.6 * (1 - beta ** 2) ** 2)) / beta ** 4
    else:
        return (K1 + 0.5 * sqrt(sin(angle / 2)) * (1 - beta ** 2) + (1 - beta ** 2) ** 2) / beta ** 4
diaphragm_valve_Crane_coeffs = {0: 149.0, 1: 39.0}

def K_diaphragm_valve_Crane(D: float | None=None, fd: float | None=None, style: int=0) -> float:
    if D is None and fd is None:
        raise ValueError('Either `D` or `fd` must be specified')
    if fd is None:
        if D is None:
            raise ValueError('D must be specified if fd is not provided')
        fd = ft_Crane(D)
    if style == 0:
        K = 149.0 * fd
    elif style == 1:
        K = 39.0 * fd
    else:
        raise ValueError('Accepted valve styles are 0 (weir) or 1 (straight through) only')
    return K
foot_valve_Crane_coeffs = {0: 420.0, 1: 75.0}

def K_foot_valve_Crane(D: float | None=None, fd: float | None=None, style: int=0) -> float:
    if D is None and fd is None:
        raise ValueError('Either `D` or `fd` must be specified')
    if fd is None:
        if D is None:
            raise ValueError('D must be specified if fd is not provided')
        fd = ft_Crane(D)
    if style == 0:
        K = 420.0 * fd
    elif style == 1:
        K = 75.0 * fd
    else:
        raise ValueError('Accepted valve styles are 0 (poppet disk) or 1 (hinged disk) only')
    return K
butterfly_valve_Crane_coeffs = {0: (45.0, 35.0, 25.0), 1: (74.0, 52.0, 43.0), 2: (218.0, 96.0, 55.0)}

def K_butterfly_valve_Crane(D: float, fd: float | None=None, style: int=0) -> float:
    if fd is None:
        fd = ft_Crane(D)
    if style == 0:
        c1, c2, c3 = (45.0, 35.0, 25.0)
    elif style == 1:
        c1, c2, c3 = (74.0, 52.0, 43.0)
    elif style == 2:
        c1, c2, c3 = (218.0, 96.0, 55.0)
    else:
        raise ValueError('Accepted valve styles are 0 (centric), 1 (double offset), or 2 (triple offset) only.')
    if D <= 0.2286:
        return c1 * fd
    elif D <= 0.381:
        return c2 * fd
    else:
        return c3 * fd
plug_valve_Crane_coeffs = {0: 18.0, 1: 30.0, 2: 90.0}

def K_plug_valve_Crane(D1: float, D2: float, angle: float, fd: float | None=None, style: int=0) -> float:
    if fd is None:
        fd = ft_Crane(D2)
    beta = D1 / D2
    if style == 0:
        K = 18.0 * fd
    elif style == 1:
        K = 30.0 * fd
    elif style == 2:
        K = 90.0 * fd
    else:
        raise ValueError('Accepted valve styles are 0 (straight-through), 1 (3-way, flow straight-through), or 2 (3-way, flow 90°)')
    angle = radians(angle)
    if beta == 1:
        return K
    else:
        return (K + 0.5 * sqrt(sin(angle / 2)) * (1 - beta ** 2) + (1 - beta ** 2) ** 2) / beta ** 4

def v_lift_valve_Crane(rho: float, D1: float | None=None, D2: float | None=None, style: str='swing check angled') -> float:
    specific_volume = 1.0 / rho
    if D1 is not None and D2 is not None:
        beta = D1 / D2
        beta2 = beta * beta
    if style == 'swing check angled':
        return 45.0 * sqrt(specific_volume)
    elif style == 'swing check straight':
        return 75.0 * sqrt(specific_volume)
    elif style == 'swing check UL':
        return 120.0 * sqrt(specific_volume)
    elif style == 'lift check straight':
        return 50.0 * beta2 * sqrt(specific_volume)
    elif style == 'lift check angled':
        return 170.0 * beta2 * sqrt(specific_volume)
    elif style == 'tilting check 5°':
        return 100.0 * sqrt(specific_volume)
    elif style == 'tilting check 15°':
        return 40.0 * sqrt(specific_volume)
    elif style == 'stop check globe 1':
        return 70.0 * beta2 * sqrt(specific_volume)
    elif style == 'stop check angle 1':
        return 95.0 * beta2 * sqrt(specific_volume)
    elif style in ('stop check globe 2', 'stop check angle 2'):
        return 75.0 * beta2 * sqrt(specific_volume)
    elif style in ('stop check globe 3', 'stop check angle 3'):
        return 170.0 * beta2 * sqrt(specific_volume)
    elif style == 'foot valve poppet disc':
        return 20.0 * sqrt(specific_volume)
    elif style == 'foot valve hinged disc':
        return 45.0 * sqrt(specific_volume)
    else:
        raise ValueError(f'Unknown valve style: {style}')
CRANE_GATE_VALVE = 'CRANE_GATE_VALVE'
CRANE_GLOBE_VALVE = 'CRANE_GLOBE_VALVE'
CRANE_ANGLE_VALVE_0 = 'CRANE_ANGLE_VALVE_0'
CRANE_ANGLE_VALVE_1 = 'CRANE_ANGLE_VALVE_1'
CRANE_ANGLE_VALVE_2 = 'CRANE_ANGLE_VALVE_2'
CRANE_SWING_CHECK_VALVE = 'CRANE_SWING_CHECK_VALVE'
CRANE_SWING_CHECK_VALVE_ANGLED = 'CRANE_SWING_CHECK_VALVE_ANGLED'
CRANE_LIFT_CHECK_VALVE = 'CRANE_LIFT_CHECK_VALVE'
CRANE_LIFT_CHECK_VALVE_ANGLED = 'CRANE_LIFT_CHECK_VALVE_ANGLED'
CRANE_TILTING_CHECK_VALVE_5DEG = 'CRANE_TILTING_CHECK_VALVE_5DEG'
CRANE_TILTING_CHECK_VALVE_15DEG = 'CRANE_TILTING_CHECK_VALVE_15DEG'
CRANE_GLOBE_STOP_CHECK_VALVE_0 = 'CRANE_GLOBE_STOP_CHECK_VALVE_0'
CRANE_GLOBE_STOP_CHECK_VALVE_1 = 'CRANE_GLOBE_STOP_CHECK_VALVE_1'
CRANE_GLOBE_STOP_CHECK_VALVE_2 = 'CRANE_GLOBE_STOP_CHECK_VALVE_2'
CRANE_ANGLE_STOP_CHECK_VALVE_0 = 'CRANE_ANGLE_STOP_CHECK_VALVE_0'
CRANE_ANGLE_STOP_CHECK_VALVE_1 = 'CRANE_ANGLE_STOP_CHECK_VALVE_1'
CRANE_ANGLE_STOP_CHECK_VALVE_2 = 'CRANE_ANGLE_STOP_CHECK_VALVE_2'
CRANE_BALL_VALVE = 'CRANE_BALL_VALVE'
CRANE_DIAPHRAGM_VALVE_WEIR = 'CRANE_DIAPHRAGM_VALVE_WEIR'
CRANE_DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR = 'CRANE_DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR'
CRANE_FOOT_VALVE_POPPET_DISK = 'CRANE_FOOT_VALVE_POPPET_DISK'
CRANE_FOOT_VALVE_HINGED_DISK = 'CRANE_FOOT_VALVE_HINGED_DISK'
CRANE_BUTTERFLY_VALVE_CENTRIC = 'CRANE_BUTTERFLY_VALVE_CENTRIC'
CRANE_BUTTERFLY_VALVE_DOUBLE_OFFSET = 'CRANE_BUTTERFLY_VALVE_DOUBLE_OFFSET'
CRANE_BUTTERFLY_VALVE_TRIPLE_OFFSET = 'CRANE_BUTTERFLY_VALVE_TRIPLE_OFFSET'
CRANE_PLUG_VALVE_STRAIGHT_THROUGH = 'CRANE_PLUG_VALVE_STRAIGHT_THROUGH'
CRANE_PLUG_VALVE_3_WAY_STRAIGHT_THROUGH = 'CRANE_PLUG_VALVE_3_WAY_STRAIGHT_THROUGH'
CRANE_PLUG_VALVE_3_WAY_90_DEG = 'CRANE_PLUG_VALVE_3_WAY_90_DEG'
CRANE_VALVES = [CRANE_GATE_VALVE, CRANE_GLOBE_VALVE, CRANE_ANGLE_VALVE_0, CRANE_ANGLE_VALVE_1, CRANE_ANGLE_VALVE_2, CRANE_SWING_CHECK_VALVE, CRANE_SWING_CHECK_VALVE_ANGLED, CRANE_LIFT_CHECK_VALVE, CRANE_LIFT_CHECK_VALVE_ANGLED, CRANE_TILTING_CHECK_VALVE_5DEG, CRANE_TILTING_CHECK_VALVE_15DEG, CRANE_GLOBE_STOP_CHECK_VALVE_0, CRANE_GLOBE_STOP_CHECK_VALVE_1, CRANE_GLOBE_STOP_CHECK_VALVE_2, CRANE_ANGLE_STOP_CHECK_VALVE_0, CRANE_ANGLE_STOP_CHECK_VALVE_1, CRANE_ANGLE_STOP_CHECK_VALVE_2, CRANE_BALL_VALVE, CRANE_DIAPHRAGM_VALVE_WEIR, CRANE_DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR, CRANE_FOOT_VALVE_POPPET_DISK, CRANE_FOOT_VALVE_HINGED_DISK, CRANE_BUTTERFLY_VALVE_CENTRIC, CRANE_BUTTERFLY_VALVE_DOUBLE_OFFSET, CRANE_BUTTERFLY_VALVE_TRIPLE_OFFSET, CRANE_PLUG_VALVE_STRAIGHT_THROUGH, CRANE_PLUG_VALVE_3_WAY_STRAIGHT_THROUGH, CRANE_PLUG_VALVE_3_WAY_90_DEG]

def Crane_loss_coefficient(D1, D2, angle, fitting, fd=None):
    if fitting == CRANE_GATE_VALVE:
        return K_gate_valve_Crane(D1, D2, angle, fd=fd)
    elif fitting == CRANE_GLOBE_VALVE:
        return K_globe_valve_Crane(D1, D2, fd)
    elif fitting == CRANE_ANGLE_VALVE_0:
        return K_angle_valve_Crane(D1, D2, fd, 0)
    elif fitting == CRANE_ANGLE_VALVE_1:
        return K_angle_valve_Crane(D1, D2, fd, 1)
    elif fitting == CRANE_ANGLE_VALVE_2:
        return K_angle_valve_Crane(D1, D2, fd, 2)
    elif fitting == CRANE_SWING_CHECK_VALVE:
        return K_swing_check_valve_Crane(D2, fd, False)
    elif fitting == CRANE_SWING_CHECK_VALVE_ANGLED:
        return K_swing_check_valve_Crane(D2, fd, True)
    elif fitting == CRANE_LIFT_CHECK_VALVE:
        return K_lift_check_valve_Crane(D1, D2, fd, False)
    elif fitting == CRANE_LIFT_CHECK_VALVE_ANGLED:
        return K_lift_check_valve_Crane(D1, D2, fd, True)
    elif fitting == CRANE_TILTING_CHECK_VALVE_5DEG:
        return K_tilting_disk_check_valve_Crane(D2, 5.0, fd)
    elif fitting == CRANE_TILTING_CHECK_VALVE_15DEG:
        return K_tilting_disk_check_valve_Crane(D2, 15.0, fd)
    elif fitting == CRANE_GLOBE_STOP_CHECK_VALVE_0:
        return K_globe_stop_check_valve_Crane(D1, D2, fd, 0)
    elif fitting == CRANE_GLOBE_STOP_CHECK_VALVE_1:
        return K_globe_stop_check_valve_Crane(D1, D2, fd, 1)
    elif fitting == CRANE_GLOBE_STOP_CHECK_VALVE_2:
        return K_globe_stop_check_valve_Crane(D1, D2, fd, 2)
    elif fitting == CRANE_ANGLE_STOP_CHECK_VALVE_0:
        return K_angle_stop_check_valve_Crane(D1, D2, fd, 0)
    elif fitting == CRANE_ANGLE_STOP_CHECK_VALVE_1:
        return K_angle_stop_check_valve_Crane(D1, D2, fd, 1)
    elif fitting == CRANE_ANGLE_STOP_CHECK_VALVE_2:
        return K_angle_stop_check_valve_Crane(D1, D2, fd, 2)
    elif fitting == CRANE_BALL_VALVE:
        return K_ball_valve_Crane(D1, D2, angle, fd)
    elif fitting == CRANE_DIAPHRAGM_VALVE_WEIR:
        return K_diaphragm_valve_Crane(D2, fd, 0)
    elif fitting == CRANE_DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR:
        return K_diaphragm_valve_Crane(D2, fd, 1)
    elif fitting == CRANE_FOOT_VALVE_POPPET_DISK:
        return K_foot_valve_Crane(D2, fd, 0)
    elif fitting == CRANE_FOOT_VALVE_HINGED_DISK:
        return K_foot_valve_Crane(D2, fd, 1)
    elif fitting == CRANE_BUTTERFLY_VALVE_CENTRIC:
        return K_butterfly_valve_Crane(D2, fd, 0)
    elif fitting == CRANE_BUTTERFLY_VALVE_DOUBLE_OFFSET:
        return K_butterfly_valve_Crane(D2, fd, 1)
    elif fitting == CRANE_BUTTERFLY_VALVE_TRIPLE_OFFSET:
        return K_butterfly_valve_Crane(D2, fd, 2)
    elif fitting == CRANE_PLUG_VALVE_STRAIGHT_THROUGH:
        return K_plug_valve_Crane(D1, D2, angle, fd, 0)
    elif fitting == CRANE_PLUG_VALVE_3_WAY_STRAIGHT_THROUGH:
        return K_plug_valve_Crane(D1, D2, angle, fd, 1)
    elif fitting == CRANE_PLUG_VALVE_3_WAY_90_DEG:
        return K_plug_valve_Crane(D1, D2, angle, fd, 2)
    else:
        raise ValueError('Unrecognized fitting')
branch_converging_Crane_Fs = [1.74, 1.41, 1.0, 0.0]
branch_converging_Crane_angles = [30.0, 45.0, 60.0, 90.0]

def K_branch_converging_Crane(D_run: float, D_branch: float, Q_run: float, Q_branch: float, angle: float=90.0) -> float:
    beta = D_branch / D_run
    beta2 = beta * beta
    Q_comb = Q_run + Q_branch
    Q_ratio = Q_branch / Q_comb
    if beta2 <= 0.35:
        C = 1.0
    elif Q_ratio <= 0.4:
        C = 0.9 * (1 - Q_ratio)
    else:
        C = 0.55
    D, E = (1.0, 2.0)
    F = interp(angle, branch_converging_Crane_angles, branch_converging_Crane_Fs)
    K = C * (1.0 + D * (Q_ratio / beta2) ** 2 - E * (1.0 - Q_ratio) ** 2 - F / beta2 * Q_ratio ** 2)
    return K
run_converging_Crane_Fs = [1.74, 1.41, 1.0]
run_converging_Crane_angles = [30.0, 45.0, 60.0]

def K_run_converging_Crane(D_run: float, D_branch: float, Q_run: float, Q_branch: float, angle: float=90) -> float:
    beta = D_branch / D_run
    beta2 = beta * beta
    Q_comb = Q_run + Q_branch
    Q_ratio = Q_branch / Q_comb
    if angle < 75.0:
        C = 1.0
    else:
        return 1.55 * Q_ratio - Q_ratio * Q_ratio
    D, E = (0.0, 1.0)
    F = interp(angle, run_converging_Crane_angles, run_converging_Crane_Fs)
    K = C * (1.0 + D * (Q_ratio / beta2) ** 2 - E * (1.0 - Q_ratio) ** 2 - F / beta2 * Q_ratio ** 2)
    return K

def K_branch_diverging_Crane(D_run: float, D_branch: float, Q_run: float, Q_branch: float, angle: float=90) -> float:
    beta = D_branch / D_run
    beta2 = beta * beta
    Q_comb = Q_run + Q_branch
    Q_ratio = Q_branch / Q_comb
    if angle < 60 or beta <= 2 / 3.0:
        H, J = (1.0, 2.0)
    else:
        H, J = (0.3, 0)
    if angle < 75:
        if beta2 <= 0.35:
            if Q_ratio <= 0.4:
                G = 1.1 - 0.7 * Q_ratio
            else:
                G = 0.85
        elif Q_ratio <= 0.6:
            G = 1.0 - 0.6 * Q_ratio
        else:
            G = 0.6
    elif beta2 <= 2 / 3.0:
        G = 1
    else:
        G = 1 + 0.3 * Q_ratio * Q_ratio
    angle_rad = radians(angle)
    K_branch = G * (1 + H * (Q_ratio / beta2) ** 2 - J * (Q_ratio / beta2) * cos(angle_rad))
    return K_branch

def K_run_diverging_Crane(D_run: float, D_branch: float, Q_run: float, Q_branch: float, angle: float=90) -> float:
    beta = D_branch / D_run
    beta2 = beta * beta
    Q_comb = Q_run + Q_branch
    Q_ratio = Q_branch / Q_comb
    if beta2 <= 0.4:
        M = 0.4
    elif Q_ratio <= 0.5:
        M = 2.0 * (2.0 * Q_ratio - 1.0)
    else:
        M = 0.3 * (2.0 * Q_ratio - 1.0)
    return M * Q_ratio * Q_ratio
