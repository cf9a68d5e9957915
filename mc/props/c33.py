"""C33: the standard atmosphere is the 1976 model."""
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
import fluids.atmosphere as a
from fluids.atmosphere import ATMOSPHERE_1976 as A

RULE = ("every geometric altitude of a lattice from -2 km to 120 km including both sides of every layer boundary, times temperature offsets; every (temperature, pressure, height difference) "
        "of the pressure-integral lattice; air mass over angles, ceilings and density profiles; non-trivial when a state is returned")
ASSUMPTIONS = ["US Standard Atmosphere 1976: R*=8314.32, g0=9.80665, M0=28.9644, r0=6356766 m; the layer table is rebuilt here from lapse rates alone (above 84.852 km the last layer is continued isothermally as documented)"]
r0, g0, M0, R = 6356766.0, 9.80665, 28.9644, 8314.32
HB = [0.0, 11e3, 20e3, 32e3, 47e3, 51e3, 71e3, 84852.0]
LB = [-6.5e-3, 0.0, 1e-3, 2.8e-3, 0.0, -2.8e-3, -2e-3, 0.0]


def base():
    T, P = [288.15], [101325.0]
    for i in range(7):
        dh = HB[i + 1] - HB[i]
        Tn = T[i] + LB[i] * dh
        P.append(P[i] * (math.exp(-g0 * M0 * dh / (R * T[i])) if LB[i] == 0 else (T[i] / Tn) ** (g0 * M0 / (R * LB[i]))))
        T.append(Tn)
    return T, P


TB, PB = base()


def std(Z):
    H = r0 * Z / (r0 + Z)
    i = 0
    while i < 7 and HB[i + 1] < H:
        i += 1
    dh = H - HB[i]
    T = TB[i] + LB[i] * dh
    P = PB[i] * (math.exp(-g0 * M0 * dh / (R * TB[i])) if LB[i] == 0 else (TB[i] / T) ** (g0 * M0 / (R * LB[i])))
    return H, T, P


def state(Z, dT):
    H, T, P = std(Z)
    for o in ((A(Z, dT), A(Z, dT=dT)) if dT else (A(Z), A(Z, 0.0), A(Z=Z))):
        w = "ATMOSPHERE_1976(%r, %r)." % (Z, dT)
        expect(o.Z, Z, 0, 0, w + "Z")
        expect(o.dT, dT, 0, 0, w + "dT")
        expect(o.H, H, 1e-13, 0, w + "H")
        expect(o.T, T + dT, 1e-6, 0, w + "T")
        expect(o.P, P, 2e-6, 0, w + "P")
        expect(o.rho, P * M0 / (R * (T + dT)), 4e-6, 0, w + "rho")
        expect(o.rho, o.P * M0 / (R * o.T), 1e-11, 0, w + "rho against the ideal gas law")
        expect(o.v_sonic, math.sqrt(1.4 * R * o.T / M0), 1e-11, 0, w + "v_sonic")
        expect(o.mu, 1.458e-6 * o.T ** 1.5 / (o.T + 110.4), 1e-11, 0, w + "mu")
        expect(o.k, 2.64638e-3 * o.T ** 1.5 / (o.T + 245.4 * 10 ** (-12.0 / o.T)), 1e-11, 0, w + "k")
        expect(o.g, g0 * (r0 / (r0 + Z)) ** 2, 1e-13, 0, w + "g")
        expect(A.gravity(Z), o.g, 1e-14, 0, "gravity")
        expect(A.density(o.T, o.P), o.rho, 1e-14, 0, "density")
        expect(A.viscosity(o.T), o.mu, 1e-14, 0, "viscosity")
        expect(A.thermal_conductivity(o.T), o.k, 1e-14, 0, "thermal_conductivity")
        expect(A.sonic_velocity(o.T), o.v_sonic, 1e-14, 0, "sonic_velocity")
    # the layer data shown are the layer's own
    i = HB.index(o.H_layer)
    expect(o.T_layer, TB[i], 1e-6, 0, w + "T_layer")
    expect(o.P_layer, PB[i], 2e-6, 0, w + "P_layer")
    expect(o.T_increase, LB[i], 1e-12, 0, w + "T_increase")
    expect(o.H_above_layer, o.H - o.H_layer, 1e-12, 1e-9, w + "H_above_layer")
    # strictly falling pressure, continuity
    dz = 0.5
    up = A(Z + dz, dT)
    need(up.P < o.P, w + "P does not fall with height: %r then %r" % (o.P, up.P))
    expect(up.P / o.P, math.exp(-o.g * M0 * dz / (R * T)), 2e-6, 0, w + "P: hydrostatic balance over %g m" % dz)
    expect(up.T - o.T, 0.0, 0, 4e-3, w + "T jumps")
    return o.T, o.P, o.rho


X, W = [], []


def gauss(n=40):
    if not X:
        for i in range(n):
            x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
            for _ in range(100):
                p0, p1 = 1.0, x
                for k in range(2, n + 1):
                    p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
                dp = n * (x * p1 - p0) / (x * x - 1)
                dx = p1 / dp
                x -= dx
                if abs(dx) < 1e-15:
                    break
            X.append(x)
            W.append(2 / ((1 - x * x) * dp * dp))
    return X, W


def integ(f, a_, b_):
    x, w = gauss()
    m, h = (a_ + b_) / 2, (b_ - a_) / 2
    return h * sum(wi * f(m + h * xi) for xi, wi in zip(x, w))


ZB = [r0 * h / (r0 - h) for h in HB]


def pieces(f, a_, b_):
    s = 1.0
    if b_ < a_:
        a_, b_, s = b_, a_, -1.0
    pts = [a_] + [z for z in ZB if a_ < z < b_] + [b_]
    return s * sum(integ(f, u, v) for u, v in zip(pts, pts[1:]))


def pint(T1, P1, dH):
    """height of P1 by the independent model, then the hydrostatic integral with the temperature offset found there"""
    lo, hi = -610.0, 86000.0
    if not std(hi)[2] < P1 < std(lo)[2]:
        return TRIVIAL
    for _ in range(200):
        m = (lo + hi) / 2
        if std(m)[2] > P1:
            lo = m
        else:
            hi = m
    Z = lo
    dT = T1 - std(Z)[1]
    if std(Z)[1] + dT < 100:
        return TRIVIAL

    def f(z):
        H, T, P = std(z)
        return g0 * (r0 / (r0 + z)) ** 2 * P * M0 / (R * (T + dT))
    want = pieces(f, Z, Z + dH)
    got = A.pressure_integral(T1, P1, dH)
    expect(got, want, 2e-5, 1e-9 * P1, "pressure_integral(T1=%r, P1=%r, dH=%r)" % (T1, P1, dH))
    if dH:
        need((got > 0) == (dH > 0), "sign of the pressure difference")
    if abs(dT) < 1e-12:
        expect(got, P1 - std(Z + dH)[2], 2e-5, 1e-6 * P1, "pressure integral without offset")
    return got


def pnull(Z, dH):
    """the standard temperature at P1: the integral is the difference of the standard pressures"""
    o = A(Z)
    got = A.pressure_integral(o.T, o.P, dH)
    want = o.P - A(Z + dH).P
    expect(got, want, 3e-5, 1e-8 * o.P, "pressure_integral at Z=%r, dH=%r against the forward model" % (Z, dH))
    return got


def airmass(prof, ang, Hmax, Rp, RI):
    f = {"std": lambda Z: A(Z).rho, "exp": lambda Z: 1.2 * math.exp(-Z / 8000.0), "const": lambda Z: 0.7, "lin": lambda Z: 1.3 * (1 - Z / 2e5)}[prof]
    kw = {}
    if Hmax != 86400.0:
        kw["H_max"] = Hmax
    if Rp != 6371229.0:
        kw["R_planet"] = Rp
    if RI != 1.000276:
        kw["RI"] = RI
    c = math.cos(math.radians(ang))
    rho0 = f(0.0)

    def h(Z):
        rho = f(Z)
        return rho / math.sqrt(1 - (1 + 2 * (RI - 1) * (1 - rho / rho0)) * (c / (1 + Z / Rp)) ** 2)
    # sqrt-type peak at the ground for low sun: substitute Z = u^2
    n = 1 if ang > 5 else 4
    pts = [math.sqrt(Hmax) * i / (8 * n) for i in range(8 * n + 1)]
    pts = sorted(set(pts + [math.sqrt(z) for z in ZB if 0 < z < Hmax]))
    want = sum(integ(lambda u: 2 * u * h(u * u), p, q) for p, q in zip(pts, pts[1:]))
    got = a.airmass(f, ang, **kw)
    expect(got, want, 1e-5, 0, "airmass(%s, angle=%r, H_max=%r, R_planet=%r, RI=%r)" % (prof, ang, Hmax, Rp, RI))
    zen = a.airmass(f, 90.0, **kw)
    expect(zen, sum(integ(lambda u: 2 * u * f(u * u), p, q) for p, q in zip(pts, pts[1:])), 1e-5, 0, "zenith air mass is the density column")
    need(got >= zen * (1 - 1e-7), "air mass at %r deg below the zenith one" % ang)
    return got


def spaces(tier):
    q = tier == "quick"
    edge = [z + d for z in ZB for d in (-1000.0, -1.0, -1e-3, -1e-6, 0.0, 1e-6, 1e-3, 1.0, 1000.0)]
    n = 400 if q else 6000
    Zs = sorted(set(edge + [-2000 + 122000.0 * i / n for i in range(n + 1)]))
    S = [
        Space("states", lambda: [(Z, dT) for dT in (0.0, -40.0, -1.0, 0.5, 25.0, 80.0) for Z in Zs], lambda c: state(*c)),
        Space("pressure integral", lambda: [(T, P, dH) for T in (200.0, 250.0, 288.15, 288.6, 310.0) for P in (101325.0, 84147.0, 1.05e5, 22632.06, 22000.0, 5474.9, 868.0, 110.9, 66.9, 3.95, 0.5) for dH in (-500.0, 0.0, 1.0, 147.0, 5e3, -3.0, 12e3, 3e4)], lambda c: pint(*c)),
        Space("pressure integral, standard temperature", lambda: [(Z, dH) for Z in (-500.0, 0.0, 10.0, 1500.0, 11e3, 11020.0, 15e3, 20e3, 20063.0, 30e3, 40e3, 47500., 50e3, 60e3, 75e3, 80e3) for dH in (0.5, 50.0, -30.0, 3000.0, 15e3)], lambda c: pnull(*c)),
        Space("airmass", lambda: [(p, ang, H, Rp, RI) for p in ("std", "exp", "const", "lin") for ang in (90.0, 75.0, 45.0, 30.0, 10.0, 3.0, 1.0) for H in (86400.0, 2e4, 1e5) for Rp in (6371229.0, 3.39e6) for RI in (1.000276, 1.0, 1.0005)], lambda c: airmass(*c), limit=60),
        conform_space("conformance", modules=["atmosphere"], skip=("sunrise_sunset", "solar_position", "earthsun_distance", "solar_irradiation", "ATMOSPHERE_NRLMSISE00"), tier=tier),
    ]
    return S
