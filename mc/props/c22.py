"""C22: fitting loss coefficients."""
import math

from ..core import Space, Violation, need, expect, TRIVIAL
from ..grid import ref_space, inv_space, Skip
from ..conform import conform_space
import fluids.fittings as f
from fluids.friction import friction_factor, ft_Crane

RULE = ("every (diameters, angle, length or radius, Reynolds number) of the lattice plus every constant the source compares with x every method; "
        "plus the conformance lattice of every public function; non-trivial when a loss coefficient is defined")
ASSUMPTIONS = ["published models transcribed from the documentation; table-fitted methods are decided by the reference model only"]
SQ = math.sqrt
RAT = [0.15, 0.35, 0.4999, 0.5, 0.5001, 0.59160797831, 0.66666666, 0.7, 0.8164966, 0.9, 0.99, 0.999999]
ANG = [0.5, 2.0, 5.0, 10.0, 15.0, 19.99, 20.0, 20.01, 30.0, 44.99, 45.0, 45.01, 59.9, 60.0, 60.1, 75.0, 90.0, 120.0, 150.0, 179.0]


def conv(K, D, D2):
    need(f.Cv_to_Kv(f.Kv_to_Cv(K)) == K or abs(f.Cv_to_Kv(f.Kv_to_Cv(K)) / K - 1) < 1e-12, "Cv/Kv round trip of %r" % K)
    expect(f.Kv_to_Cv(1.0), 1.156, 1e-3, 0, "Kv_to_Cv(1)")
    expect(f.K_to_Kv(f.Kv_to_K(K, D), D), K, 1e-11, 0, "K/Kv round trip")
    expect(f.Kv_to_K(f.K_to_Kv(K, D), D), K, 1e-11, 0, "Kv/K round trip")
    expect(f.K_to_Cv(f.Cv_to_K(K, D), D), K, 1e-11, 0, "K/Cv round trip")
    expect(f.Cv_to_K(f.K_to_Cv(K, D), D), K, 1e-11, 0, "Cv/K round trip")
    expect(f.K_to_Cv(K, D), f.Kv_to_Cv(f.K_to_Kv(K, D)), 1e-11, 0, "K to Cv through Kv")
    expect(f.change_K_basis(K, D, D2), K * (D2 / D) ** 4, 1e-12, 0, "change_K_basis")
    expect(f.change_K_basis(f.change_K_basis(K, D, D2), D2, D), K, 1e-12, 0, "change_K_basis round trip")
    expect(f.Kv_to_K(K, D), 1.6e9 * D ** 4 / K ** 2, 1e-9, 0, "Kv_to_K(%r, %r)" % (K, D))
    return K


def lam0(b):
    return 1 + 0.622 * (1 - 0.215 * b ** 2 - 0.785 * b ** 5)


def hooper_con(D1, D2, Re, fd):
    r = D1 / D2
    K = (1.2 + 160 / Re) * (r ** 4 - 1) if Re <= 2500 else (0.6 + 0.48 * fd) * r * r * (r * r - 1)
    return K * (D2 / D1) ** 4


def con_sharp(D1, b, Re, M):
    D2 = D1 * b
    if M == "Rennels":
        l = lam0(b)
        return 0.0696 * (1 - b ** 5) * l * l + (l - 1) ** 2
    if M == "Hooper":
        return hooper_con(D1, D2, Re, friction_factor(Re=Re, eD=0.0) if Re > 2500 else 0)
    return 0.5 * (1 - b * b)


def ang(D1, D2, a, l):
    return a if a is not None else (180.0 if l == 0 else math.degrees(2 * math.atan(abs(D1 - D2) / 2 / l)))


def con_conical(D1, b, a, Re, M):
    D2 = D1 * b
    t = math.radians(a)
    fd = friction_factor(Re=Re, eD=0.0)
    s = math.sin(t / 2)
    if M == "Rennels":
        if Re < 2041:
            raise Skip
        l = 1 + 0.622 * (t / math.pi) ** 0.8 * (1 - 0.215 * b ** 2 - 0.785 * b ** 5)
        return fd * (1 - b ** 4) / (8 * s) + 0.0696 * s * (1 - b ** 5) * l * l + (l - 1) ** 2
    if M == "Crane":
        return 0.8 * s * (1 - b * b) if a < 45 else 0.5 * SQ(s) * (1 - b * b)
    if M == "Swamee":
        return 0.315 * t ** (1 / 3.0)
    if M == "Hooper":
        return hooper_con(D1, D2, Re, fd) * (SQ(s) if a > 45 else 1.6 * s)
    raise Skip


def dif_conical(D1, b, a, Re, M):
    t = math.radians(a)
    fd = friction_factor(Re=Re, eD=0.0)
    s = math.sin(t / 2)
    if M == "Rennels":
        if Re < 2041:
            raise Skip
        fr = 0.125 * fd * (1 - b ** 4) / s
        if a <= 20:
            return 8.3 * math.tan(t / 2) ** 1.75 * (1 - b * b) ** 2 + fr
        q = 1.366 * SQ(math.sin(2 * math.pi * (a - 15) / 180)) - 0.17 if a <= 60 else None
        if a <= 60:
            if b < 0.5:
                q -= 3.28 * (0.0625 - b ** 4) * SQ((a - 20) / 40)
            return q * (1 - b * b) ** 2 + fr
        if b < 0.5:
            return (1.205 - 3.28 * (0.0625 - b ** 4) - 12.8 * b ** 6 * SQ((a - 60) / 120)) * (1 - b * b) ** 2
        return (1.205 - 0.2 * SQ((a - 60) / 120)) * (1 - b * b) ** 2
    if M == "Crane":
        return (2.6 * s if a < 45 else 1.0) * (1 - b * b) ** 2
    if M == "Swamee":
        r = 1 / b
        return (0.25 * t ** -3 * (1 + 0.6 * r ** -1.67 * (math.pi - t) / t) ** (0.533 * r - 2.6)) ** -0.5
    if M == "Hooper":
        k = 2 * (1 - b ** 4) if Re < 4000 else (1 + 0.8 * fd) * (1 - b * b) ** 2
        return k if a > 45 else k * 2.6 * s
    raise Skip


def either(kind, D1, b, a, Re, M):
    """The same cone given by its length."""
    fn = f.contraction_conical if kind == "c" else f.diffuser_conical
    d1, d2 = (D1, D1 * b) if kind == "c" else (D1 * b, D1)
    l = abs(d1 - d2) / (2 * math.tan(math.radians(a) / 2))
    x, y = fn(d1, d2, angle=a, Re=Re, method=M), fn(d1, d2, l=l, Re=Re, method=M)
    expect(y, x, 1e-6, 1e-12, "%s from length and from angle (%r, %r, angle %r, %s)" % (fn.__name__, d1, d2, a, M))
    need(x >= -1e-12, "%s(%r, %r, angle=%r, Re=%r, %s) = %r is negative" % (fn.__name__, d1, d2, a, Re, M, x))
    if M == "Crane":
        g = f.contraction_conical_Crane if kind == "c" else f.diffuser_conical_Crane
        expect(g(d1, d2, l=l), x, 1e-6, 0, "%s from its length" % g.__name__)
        expect(g(d1, d2, angle=a), x, 1e-6, 0, "%s from its angle" % g.__name__)
    return x


def bend(Di, r, angle, Re, M, e):
    """The bend given by its radius and by its radius in diameters; dispatcher against the method's function."""
    if M == "Miller" and angle < 10:
        return TRIVIAL
    kw = dict(Di=Di, angle=angle, Re=Re, roughness=e, method=M)
    x = f.bend_rounded(rc=r * Di, **kw)
    y = f.bend_rounded(bend_diameters=r, **kw)
    expect(x, y, 1e-7, 0, "bend_rounded(%s) from rc and bend_diameters, Di=%r r/D=%r" % (M, Di, r))
    own = {"Miller": lambda: f.bend_rounded_Miller(Di=Di, angle=angle, Re=Re, rc=r * Di, roughness=e),
           "Crane": lambda: f.bend_rounded_Crane(Di=Di, angle=angle, rc=r * Di),
           "Ito": lambda: f.bend_rounded_Ito(Di=Di, angle=angle, Re=Re, rc=r * Di, roughness=e)}.get(M)
    if own:
        expect(x, own(), 1e-7, 0, "bend_rounded(%s) against its function" % M)
    if r == 5.0:
        expect(f.bend_rounded(**kw), x, 1e-7, 0, "default bend of five diameters (%s)" % M)
    need(x > 0, "bend_rounded(%s) = %r" % (M, x))
    if M == "Rennels":
        fd = friction_factor(Re=Re, eD=e / Di)
        t = math.radians(angle)
        s = math.sin(t / 2)
        if Re > 2041:
            expect(x, fd * t * r + (0.1 + 2.4 * fd) * s + 6.6 * fd * (SQ(s) + s) / r ** (4 * t / math.pi), 1e-7, 0, "Rennels bend")
    if M == "Swamee":
        expect(x, (0.0733 + 0.923 * r ** -3.5) * SQ(math.radians(angle)), 1e-9, 0, "Swamee bend")
    return x


B = {"gate": lambda D1, D2, a, fd: f.K_gate_valve_Crane(D1, D2, a, fd), "globe": lambda D1, D2, a, fd: f.K_globe_valve_Crane(D1, D2, fd),
     "lift": lambda D1, D2, a, fd: f.K_lift_check_valve_Crane(D1, D2, fd, True), "lift straight": lambda D1, D2, a, fd: f.K_lift_check_valve_Crane(D1, D2, fd, False),
     "ball": lambda D1, D2, a, fd: f.K_ball_valve_Crane(D1, D2, a, fd)}
K1 = {"gate": 8, "globe": 340, "lift": 55, "lift straight": 600, "ball": 3, "plug 0": 18, "plug 1": 30, "plug 2": 90, "angle 0": 55, "angle 1": 150, "angle 2": 55,
      "stopglobe 0": 400, "stopglobe 1": 300, "stopglobe 2": 55, "stopangle 0": 200, "stopangle 1": 350, "stopangle 2": 55}
for i in (0, 1, 2):
    B["plug %d" % i] = lambda D1, D2, a, fd, i=i: f.K_plug_valve_Crane(D1, D2, a, fd, i)
    B["angle %d" % i] = lambda D1, D2, a, fd, i=i: f.K_angle_valve_Crane(D1, D2, fd, i)
    B["stopglobe %d" % i] = lambda D1, D2, a, fd, i=i: f.K_globe_stop_check_valve_Crane(D1, D2, fd, i)
    B["stopangle %d" % i] = lambda D1, D2, a, fd, i=i: f.K_angle_stop_check_valve_Crane(D1, D2, fd, i)


def valve(n, D2, b, a, fd):
    """Crane's valve formulas: full bore K1 = n f_T; reduced seats add the reducer's contraction and expansion, on the pipe basis."""
    D1 = D2 * b
    ft = ft_Crane(D2) if fd is None else fd
    K = K1[n] * ft
    got = B[n](D1, D2, a, fd)
    # Crane 2-25: K1 for beta 1; otherwise formulas 5-7
    if b == 1:
        want = K
    elif n in ("gate", "ball") and a == 0:
        return TRIVIAL
    elif n[:4] == "plug":
        want = (K + 0.5 * SQ(math.sin(math.radians(a / 2))) * (1 - b * b) + (1 - b * b) ** 2) / b ** 4
    elif n in ("gate", "ball"):
        t = math.sin(math.radians(a / 2))
        if a <= 45:
            want = (K + t * (0.8 * (1 - b * b) + 2.6 * (1 - b * b) ** 2)) / b ** 4
        else:
            want = (K + 0.5 * SQ(t) * (1 - b * b) + (1 - b * b) ** 2) / b ** 4
    else:
        want = (K + b * (0.5 * (1 - b * b) + (1 - b * b) ** 2)) / b ** 4
    if b != 1 and n.split()[0] in ("globe", "angle") and abs(got / ((K + b * (0.5 * (1 - b) ** 2 + (1 - b * b) ** 2)) / b ** 4) - 1) < 1e-9:
        raise Violation("%s valve with a reduced seat: contraction term 0.5(1-beta)^2 where the model has 0.5(1-beta^2)" % n.split()[0], key="K_%s_valve_Crane reduced seat" % n.split()[0])
    expect(got, want, 1e-9, 0, "%s valve D1=%r D2=%r angle=%r fd=%r" % (n, D1, D2, a, fd))
    return got


def darby_hooper(c):
    k, name, Re, D = c
    import rfluids.fittings as r
    if k == "H":
        k1, ki = r.Hooper[name] if isinstance(r.Hooper[name], tuple) else (r.Hooper[name]["K1"], r.Hooper[name]["Kinfty"])
        want = k1 / Re + ki * (1 + 1 / (D / 0.0254))
        expect(f.Hooper2K(Di=D / 0.0254 if False else D, Re=Re, name=name), k1 / Re + ki * (1 + 1 / D), 1e-10, 0, "Hooper2K(%r)" % name)
        expect(f.Hooper2K(Di=D, Re=Re, K1=k1, Kinfty=ki), k1 / Re + ki * (1 + 1 / D), 1e-10, 0, "Hooper2K coefficients")
    else:
        v = r.Darby[name]
        k1, ki, kd = v if isinstance(v, (tuple, list)) else (v["K1"], v["Ki"], v["Kd"])
        want = k1 / Re + ki * (1 + kd * 25.4 ** 0.3 / (D * 25.4) ** 0.3) if False else k1 / Re + ki * (1 + kd / D ** 0.3)
        expect(f.Darby3K(NPS=D, Re=Re, name=name), want, 1e-10, 0, "Darby3K(%r)" % name)
        expect(f.Darby3K(NPS=D, Re=Re, K1=k1, Ki=ki, Kd=kd), want, 1e-10, 0, "Darby3K coefficients")
    return c


def dh_cases():
    import rfluids.fittings as r
    for Re in (10.0, 1000.0, 1e5):
        for D in (0.5, 2.0, 12.0):
            for n in r.Hooper:
                yield "H", n, Re, D
            for n in r.Darby:
                yield "D", n, Re, D


def limits(c):
    n, D, Re, M = c
    if n == "contraction_sharp":
        expect(f.contraction_sharp(D, D, Re=Re, method=M), 0.0, 0, 1e-9, "contraction_sharp of no contraction (%s)" % M)
    elif n == "diffuser_sharp":
        expect(f.diffuser_sharp(D, D, Re=Re, method=M), 0.0, 0, 1e-9, "diffuser_sharp of no expansion (%s)" % M)
        expect(f.diffuser_sharp(D, D * 1e8, Re=1e15, method=M), 1.0, 0.02, 1e-9, "diffuser_sharp into a reservoir (%s)" % M)
    elif n == "entrance":
        k = f.entrance_sharp(M)
        need(0.49 <= k <= 0.58, "entrance_sharp(%s) = %r" % (M, k))
        ms = f.entrance_rounded_methods
        if M in ms and M != "Miller":
            last = None
            for r in (0.0, 0.01, 0.05, 0.1, 0.15, 0.2, 0.5, 1.0, 3.0):
                v = f.entrance_rounded(D, r * D, M)
                need(v >= -1e-9 and (last is None or v <= last + 2e-5), "entrance_rounded(%s) rises at r/D=%r" % (M, r))
                last = v
    elif n == "exit":
        expect(f.exit_normal(), 1.0, 0, 0, "exit_normal")
    elif n == "angled":
        expect(f.entrance_angled(90.0, M), 0.57, 1e-9, 0, "entrance at a right angle")
        expect(f.entrance_angled(30.0, M), 0.57 + 0.3 * math.cos(math.pi / 6) + 0.2 * 0.75, 1e-9, 0, "entrance at 30 degrees")
    elif n == "staged":
        D2 = D * 3
        v = f.diffuser_conical_staged(D, D2, [D * 1.5, D * 2], [D, D * 2, D * 3], fd=0.012, method=M)
        w = sum(f.diffuser_conical(a, b, l, fd=0.012, method=M) for a, b, l in ((D, D * 1.5, D), (D * 1.5, D * 2, D * 2), (D * 2, D2, D * 3)))
        expect(v, w, 1e-9, 0, "staged diffuser as the sum of its cones")
    elif n == "helix":
        rs, p, N, fd = D * 5, D * 2, 7, 0.0185
        expect(f.helix(D, rs, p, N, fd), N * (fd * SQ((2 * math.pi * rs) ** 2 + p * p) / D + 0.2 + 4.8 * fd), 1e-9, 0, "helix")
    return c


def lim_cases():
    for D in (0.01, 0.1, 1.0):
        for Re in (100.0, 2500.0, 4000.0, 1e5, 1e7):
            for n, ms in (("contraction_sharp", f.contraction_sharp_methods), ("diffuser_sharp", f.diffuser_sharp_methods), ("entrance", f.entrance_sharp_methods),
                          ("exit", [None]), ("angled", ["Idelchik", None]), ("staged", ["Rennels", "Crane", "Swamee"]), ("helix", [None])):
                for M in ms:
                    yield n, D, Re, M


def tee(Dr, b, q, a):
    """Q in percent of the combined flow; published Crane tees."""
    Qb, Qr = q, 1 - q
    Db = Dr * b
    b2 = b * b
    x = q / b2
    C = 1.0 if b2 <= 0.35 else (0.9 * (1 - q) if q <= 0.4 else 0.55)
    F = {30: 1.74, 45: 1.41, 60: 1.0, 90: 0.0}[a]
    expect(f.K_branch_converging_Crane(Dr, Db, Qr, Qb, a), C * (1 + x * x - 2 * (1 - q) ** 2 - F / b2 * q * q), 1e-9, 1e-12, "K_branch_converging_Crane")
    expect(f.K_run_converging_Crane(Dr, Db, Qr, Qb, a), 1.55 * q - q * q if a == 90 else 1 - (1 - q) ** 2 - F / b2 * q * q, 1e-9, 1e-12, "K_run_converging_Crane")
    H, J = (1, 2) if a < 60 or b <= 2 / 3.0 else (0.3, 0)
    if a <= 60:
        G = (1.1 - 0.7 * q if q <= 0.4 else 0.85) if b2 <= 0.35 else (1 - 0.6 * q if q <= 0.6 else 0.6)
    else:
        G = 1 if b2 <= 2 / 3.0 else 1 + 0.3 * q * q
    expect(f.K_branch_diverging_Crane(Dr, Db, Qr, Qb, a), G * (1 + H * x * x - J * x * math.cos(math.radians(a))), 1e-9, 1e-12, "K_branch_diverging_Crane")
    M = 0.4 if b2 <= 0.4 else (2 * (2 * q - 1) if q <= 0.5 else 0.3 * (2 * q - 1))
    expect(f.K_run_diverging_Crane(Dr, Db, Qr, Qb, a), M * q * q, 1e-9, 1e-12, "K_run_diverging_Crane")
    return x


def spaces(tier):
    Ds = [0.01, 0.0777, 0.2, 1.5]
    Res = [500.0, 2500.0, 2500.1, 3999.9, 4000.0, 1e5, 2e6]
    b = RAT
    return [
        inv_space("conversions", conv, {"K": [0.01, 1.0, 16.0, 2300.0], "D": Ds, "D2": Ds}),
        ref_space("contraction_sharp", lambda D, b, Re, M: f.contraction_sharp(D, D * b, Re=Re, method=M), con_sharp,
                  {"D": Ds, "b": b, "Re": Res, "M": f.contraction_sharp_methods}, under=[f.contraction_sharp], rtol=1e-7, atol=1e-12),
        ref_space("diffuser_sharp", lambda D, b, Re, M: f.diffuser_sharp(D * b, D, Re=Re, method=M),
                  lambda D, b, Re, M: (1 - b * b) ** 2 if M == "Rennels" else (2 * (1 - b ** 4) if Re < 4000 else (1 + 0.8 * friction_factor(Re=Re)) * (1 - b * b) ** 2),
                  {"D": Ds, "b": b, "Re": Res, "M": f.diffuser_sharp_methods}, under=[f.diffuser_sharp], rtol=1e-7, atol=1e-12),
        ref_space("contraction_conical", lambda D, b, a, Re, M: f.contraction_conical(D, D * b, angle=a, Re=Re, method=M), con_conical,
                  {"D": Ds[:2], "b": b, "a": ANG, "Re": Res, "M": ["Rennels", "Crane", "Swamee", "Hooper"]}, under=[f.contraction_conical], rtol=1e-7, atol=1e-12),
        ref_space("diffuser_conical", lambda D, b, a, Re, M: f.diffuser_conical(D * b, D, angle=a, Re=Re, method=M), dif_conical,
                  {"D": Ds[:2], "b": b, "a": ANG, "Re": Res, "M": ["Rennels", "Crane", "Swamee", "Hooper"]}, under=[f.diffuser_conical], rtol=1e-7, atol=1e-12),
        inv_space("cone_forms", either, {"kind": ["c"], "D": Ds[:2], "b": b[:-1], "a": [x for x in ANG if x not in (20, 45, 60)], "Re": [3000.0, 1e5], "M": f.contraction_conical_methods}),
        inv_space("cone_forms_diffuser", either, {"kind": ["d"], "D": Ds[:2], "b": b[:-1], "a": [x for x in ANG if x not in (20, 45, 60)], "Re": [3000.0, 1e5], "M": f.diffuser_conical_methods}),
        inv_space("bends", bend, {"Di": Ds, "r": [0.5, 0.7, 1.0, 1.5, 2.0, 3.0, 5.0, 9.85, 10.0, 12.0, 20.0, 50.0, 60.0], "angle": [10.0, 30.0, 45.0, 90.0, 135.0, 180.0],
                                  "Re": [1e3, 1e4, 2.2e5, 1e6, 1e8], "M": f.bend_rounded_methods, "e": [0.0, 1e-5]}),
        inv_space("crane_valves", valve, {"n": sorted(B), "D2": [0.02, 0.1, 0.3], "b": [0.4, 0.6, 0.8, 0.99, 1.0], "a": [0.0, 10.0, 44.9, 45.0, 45.1, 90.0, 180.0], "fd": [None, 0.015]}),
        Space("darby_hooper", dh_cases, darby_hooper),
        Space("limits", lambda: list(lim_cases()), limits),
        inv_space("tees", tee, {"Dr": [0.1, 0.5], "b": [0.2, 0.5, 0.5916, 0.5917, 0.63, 0.633, 0.66, 0.667, 0.81, 0.82, 1.0], "q": [0.0, 0.1, 0.39, 0.41, 0.49, 0.51, 0.59, 0.61, 0.9, 1.0], "a": [30, 45, 60, 90]}),
        conform_space("model", ["fittings"], tier=tier),
    ]
