from __future__ import annotations
from math import cos, radians
from rfluids.numerics import implementation_optimize_tck, interp, splev
__all__: list[str] = ['round_edge_grill', 'round_edge_open_mesh', 'round_edge_screen', 'square_edge_grill', 'square_edge_screen']
round_Res = [20.0, 30.0, 40.0, 60.0, 80.0, 100.0, 200.0, 400.0]
round_betas = [1.3, 1.1, 0.95, 0.83, 0.75, 0.7, 0.6, 0.52]
'Quadratic interpolation with no smoothing, constant value extremities\nreturned when outside table limits'
round_thetas = [0.0, 10.0, 20.0, 30.0, 40.0, 50.0, 60.0, 70.0, 80.0, 85.0]
round_gammas = [1.0, 0.97, 0.88, 0.75, 0.59, 0.45, 0.3, 0.23, 0.15, 0.09]
'Quadratic interpolation with no smoothing, constant value extremities\nreturned when outside table limits'
'Quadratic interpolation with no smoothing, constant value extremities\nreturned when outside table limits. Last actual value in the original table is\nK=1000 at alpha=0.05; the rest are extrapolated.'
square_alphas = [0.0015625, 0.003125, 0.00625, 0.0125, 0.025, 0.05, 0.1, 0.15, 0.2, 0.25, 0.3, 0.35, 0.4, 0.45, 0.5, 0.55, 0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 1.0]
square_Ks = [1024000.0, 256000, 64000, 16000, 4000, 1000.0, 250.0, 85.0, 52.0, 30.0, 17.0, 11.0, 7.7, 5.5, 3.8, 2.8, 2, 1.5, 1.1, 0.78, 0.53, 0.35, 0.08, 0.0]
grills_rounded_alphas = [0.3, 0.4, 0.5, 0.6, 0.7]
grills_rounded_Ks = [2.0, 1.0, 0.6, 0.4, 0.2]
'Cubic interpolation with no smoothing, constant value extremities\nreturned when outside table limits'
grills_rounded_tck = implementation_optimize_tck([[0.3, 0.3, 0.3, 0.45, 0.55, 0.7, 0.7, 0.7], [2.0, 1.0014285714285716, 0.5799999999999998, 0.3585714285714287, 0.2, 0.0, 0.0, 0.0], 2])

def round_edge_screen(alpha: float, Re: float, angle: float=0.0) -> float:
    beta = interp(Re, round_Res, round_betas)
    alpha2 = alpha * alpha
    K = beta * (1.0 - alpha2) / alpha2
    if angle is not None:
        if angle <= 45.0:
            v = cos(radians(angle))
            K *= v * v
        else:
            K *= interp(angle, round_thetas, round_gammas)
    return K

def round_edge_open_mesh(alpha: float, subtype: str='diamond pattern wire', angle: float=0.0) -> float:
    one_m_alpha = 1.0 - alpha
    if subtype == 'round bar screen':
        K = 0.95 + 0.2 * one_m_alpha
    elif subtype == 'diamond pattern wire':
        K = 0.67 + 1.3 * one_m_alpha
    elif subtype == 'knotted net':
        K = 0.7 + 4.9 * one_m_alpha
    elif subtype == 'knotless net':
        K = 0.72 + 2.1 * one_m_alpha
    else:
        raise ValueError('Subtype not recognized')
    K *= one_m_alpha
    if angle is not None:
        if angle < 45.0:
            K *= cos(radians(angle)) ** 2.0
        else:
            K *= interp(angle, round_thetas, round_gammas)
    return K

def square_edge_screen(alpha: float) -> float:
    return interp(alpha, square_alphas, square_Ks)

def square_edge_grill(alpha: float, l: float | None=None, Dh: float | None=None, fd: float | None=None) -> float:
    x0 = 0.5 * (1.0 - alpha)
    alpha2 = alpha * alpha
    x0 += 1.0 - alpha2
    if Dh is not None and l is not None and (fd is not None) and (l > 50.0 * Dh):
        x0 += fd * l / Dh
    return x0 / alpha2

def round_edge_grill(alpha: float, l: float | None=None, Dh: float | None=None, fd: float | None=None) -> float:
    t1 = float(splev(alpha, grills_rounded_tck))
    if Dh and l and fd and (l > 50.0 * Dh):
        alpha2 = alpha * alpha
        return t1 + fd * l / (alpha2 * Dh)
    else:
        return t1
