"""C29: geometry of coils, plates, fins, towers, air coolers and simple solids."""
import itertools
import math
from math import pi

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..grid import inv_space, ref_space
from ..conform import conform_space
import fluids.geometry as g

RULE = ("every admissible combination of given dimensions x value lattice (with impossible and boundary values); every attribute against its definition; "
        "plus the conformance lattice of the functions; non-trivial when the object exists or must be rejected")
ASSUMPTIONS = ["definitions are those of the class documentation"]


def attrs(obj, want, what, rtol=1e-12, atol=0):
    for k, v in want.items():
        expect(getattr(obj, k), v, rtol, atol, "%s.%s" % (what, k))


# ------------------------------------------------------------------ helical coil
def coil(Dt, Do, pitch, N, di, far):
    H = N * pitch
    ok_geo = pitch >= Dt * (1 - 1e-12) and Dt <= Do * (1 + 1e-12)
    close = abs(pitch / Dt - 1) < 1e-9 or abs(Dt / Do - 1) < 1e-9
    Di = None if di is None else di * Dt
    th = math.atan(pitch / (pi * Do))
    L = math.sqrt((pi * Do * N) ** 2 + H * H)
    want = dict(Dt=Dt, Do=Do, Do_total=Do + Dt, pitch=pitch, N=N, H=H, H_total=H + Dt, tube_circumference=pi * Do, tube_length=L,
                surface_area=pi * Dt * L, helix_angle=th, curvature=Dt / Do / (1 + 4 * pi ** 2 * math.tan(th) ** 2),
                total_inlet_area=pi / 4 * Dt ** 2, total_volume=pi / 4 * Dt ** 2 * L)
    if Di is not None:
        want.update(Di=Di, inner_surface_area=pi * Di * L, inlet_area=pi / 4 * Di ** 2, inner_volume=pi / 4 * Di ** 2 * L,
                    annulus_area=pi / 4 * (Dt ** 2 - Di ** 2), annulus_volume=pi / 4 * (Dt ** 2 - Di ** 2) * L)
    n = 0
    for dkw in (dict(Do=Do), dict(Do_total=Do + Dt)):
        for hkw in (dict(N=N, pitch=pitch), dict(N=N, H=H), dict(H=H, pitch=pitch), dict(N=N, H_total=H + Dt), dict(H_total=H + Dt, pitch=pitch)):
            kw = dict(dkw, **hkw)
            ok, c = attempt(g.HelicalCoil, Dt, Di=Di, **kw)
            if close:
                if ok:
                    attrs(c, want, "coil from %s" % sorted(kw), 1e-9, 1e-12)
                continue
            if not ok_geo:
                need(not ok and c == "ValueError", lambda: "coil Dt=%r Do=%r pitch=%r given by %s is impossible but %s" % (Dt, Do, pitch, sorted(kw), "was accepted" if ok else "raised " + c))
                continue
            need(ok, lambda: "coil from %s raises %s" % (sorted(kw), c))
            attrs(c, want, "coil from %s" % sorted(kw), 1e-9, 1e-12)
            need(hasattr(c, "Di") == (Di is not None) or Di is None, "inner diameter attribute")
            n += 1
    for bad in (dict(Do=Do, N=N), dict(Do=Do, pitch=pitch), dict(Do=Do, H=H), dict(N=N, pitch=pitch)):
        ok, c = attempt(g.HelicalCoil, Dt, **bad)
        need(not ok and c == "ValueError", "an underspecified coil (%s) is accepted" % sorted(bad))
    return n or (TRIVIAL if close else "rejected")


# ------------------------------------------------------------------ plates
def ellipe_arc(b, lam):
    """Arc length of one sine wave of amplitude a = b/2 over its length, by Gauss quadrature."""
    import numpy as np
    x, w = np.polynomial.legendre.leggauss(200)
    u = 0.25 * pi * (x + 1)
    k = pi * b / lam
    return float(np.dot(w, np.sqrt(1 + (k * np.cos(u)) ** 2)) * 0.5)


def plate(a, lam, ang, angs, width, length, d_port, plates, thickness):
    phi = ellipe_arc(2 * a, lam)
    p = g.PlateExchanger(amplitude=a, wavelength=lam, chevron_angle=ang, chevron_angles=angs, width=width, length=length, d_port=d_port, plates=plates, thickness=thickness)
    mean = ang if angs is None else 0.5 * (angs[0] + angs[1])
    want = dict(a=a, amplitude=a, b=2 * a, wavelength=lam, pitch=lam, chevron_angle=mean, beta=mean, chevron_angles=(ang, ang) if angs is None else angs, inclination_angle=90 - mean,
                plate_corrugation_aspect_ratio=4 * a / lam, gamma=4 * a / lam, plate_enlargement_factor=phi, D_eq=4 * a, D_hydraulic=4 * a / phi)
    if width is not None:
        want.update(width=width, A_channel_flow=width * 2 * a)
    if length is not None:
        want.update(length=length)
    if d_port is not None and length is not None:
        want.update(d_port=d_port, length_port=length + d_port)
    if width is not None and length is not None:
        want["A_plate_surface"] = length * width * phi
        if plates is not None:
            want["A_heat_transfer"] = (plates - 2) * length * width * phi
    if plates is not None:
        want.update(channels=plates - 1, channels_per_fluid=(plates - 1) / 2)
    attrs(p, want, "plate exchanger", 1e-9, 1e-12)
    expect(g.plate_enlargement_factor(a, lam), phi, 1e-9, 0, "plate enlargement factor")
    A1, A2 = p.chevron_angles
    expect(p.plate_exchanger_identifier, "L%sA%sB%s-%s" % (round(lam * 1000, 2), round(a * 1000, 2), A1, A2), what="identifier")
    repr(p)
    return round(phi, 9)


def fins(h, t, s, L, W, n, tp, l):
    if not (t < s and t < h):
        return TRIVIAL
    Ac, P = (s - t) * (h - t), 2 * (s - t) + 2 * (h - t)
    e = g.RectangularFinExchanger(h, t, s, length=L, width=W, layers=n, plate_thickness=tp)
    want = dict(channel_height=h - t, channel_width=s - t, fin_count=1 / s, blockage_ratio=(s * h - s * t - t * (h - t)) / (s * h), A_channel=Ac, P_channel=P, Dh=4 * Ac / P)
    o = g.RectangularOffsetStripFinExchanger(fin_length=l, fin_height=h, fin_thickness=t, fin_spacing=s, length=L, width=W, layers=n, plate_thickness=tp)
    A = 2 * (l * (h - t) + l * (s - t) + t * (h - t)) + t * (s - 2 * t)
    wanto = dict(fin_length=l, fin_count=1 / s, A_channel=Ac, P_channel=P, A=A, Dh=4 * l * Ac / A, alpha=s / h, delta=t / l, gamma=t / s, Dh_Kays_London=4 * Ac / P,
                 Dh_Joshi_Webb=2 * l * (h - t) * (s - 2 * t) / (l * (h - t) + l * (s - t) + t * (h - t)),
                 blockage_ratio=2 * t / s * (1 - t / h) + t / h * (1 - 2 * t / s), blockage_ratio_Kim=1 - Ac / (h * s))
    both = {}
    if tp:
        both["layer_thickness"] = h + tp
    if L and W:
        both["layer_fin_count"] = k = round(W / s)
        if abs(W / s - math.floor(W / s) - 0.5) < 1e-6:
            return TRIVIAL
        both["A_HX_layer"] = P * L * k
        if n:
            both["A_HX"] = n * P * L * k
            if tp:
                both["height"] = (h + tp) * n + tp
                both["volume"] = L * W * ((h + tp) * n + tp)
                both["A_specific_HX"] = n * P * k / W / ((h + tp) * n + tp)
    for ob, w in ((e, want), (o, wanto)):
        attrs(ob, dict(w, **both), type(ob).__name__, 1e-10, 1e-13)
        for k in ("A_HX_layer", "A_HX", "height", "volume", "layer_thickness"):
            need((getattr(ob, k, None) is not None) == (k in both), "%s presence" % k)
    return round(e.Dh, 9)


def tower(Hi, Do, Ho, Di, Dt, Ht, fr):
    """fr: which optional values are given."""
    dthr = Dt if "t" in fr else 0.63 * Di
    hthr = Ht if "h" in fr else 2 / 3 * Ho
    if not (Hi < hthr < Ho and dthr < min(Di, Do)):
        return TRIVIAL
    b = dthr * (hthr - Hi) / math.sqrt(Di ** 2 - dthr ** 2)
    Db = dthr * math.sqrt(hthr ** 2 + b * b) / b
    kw = {}
    if "t" in fr:
        kw["D_throat"] = Dt
    if "h" in fr:
        kw["H_throat"] = Ht
    objs = [g.HyperbolicCoolingTower(Hi, Do, Ho, D_inlet=Di, **kw)]
    if "t" in fr:
        objs.append(g.HyperbolicCoolingTower(Hi, Do, Ho, D_base=Db, **kw))
        objs.append(g.HyperbolicCoolingTower(Hi, Do, Ho, D_base=Db, D_inlet=Di, **kw))
    for o in objs:
        attrs(o, dict(D_outlet=Do, H_inlet=Hi, H_outlet=Ho, H_throat=hthr, D_throat=dthr, D_inlet=Di, D_base=Db), "tower", 1e-9)
        expect(o.diameter(0.0), Db, 1e-9, 0, "diameter at the base")
        expect(o.diameter(Hi), Di, 1e-9, 0, "diameter at the inlet")
        expect(o.diameter(hthr), dthr, 1e-9, 0, "diameter at the throat")
        expect(o.diameter(Ho), Do, 1e-9, 0, "diameter at the outlet")
        bu = dthr * (Ho - hthr) / math.sqrt(Do ** 2 - dthr ** 2)
        for i in range(21):
            z = Ho * i / 20
            bb = b if z <= hthr else bu
            expect(o.diameter(z), dthr * math.sqrt(1 + ((z - hthr) / bb) ** 2), 1e-9, 0, "diameter at %g" % z)
        repr(o)
    for bad in (dict(), dict(D_throat=Dt)):
        ok, c = attempt(g.HyperbolicCoolingTower, Hi, Do, Ho, **bad)
        need(not ok and c == "ValueError", "an underspecified tower is accepted")
    return round(Db, 9)


PI_ANG = (30, 45, 60, 90, 37.0, 12.5)


def aircooler(rows, passes, per, ang, prat, fin, dens, bays, bundles, corb, thick):
    Dt, L, ft = 0.0254, 10.0, 0.00033
    pitch = prat * Dt
    fh = fin * Dt
    pn, pp = pitch * math.sin(math.radians(ang)), pitch * math.cos(math.radians(ang))
    tb = per * rows
    tbay = tb * bundles
    tt = tbay * bays
    iv = 1 / dens
    fd = Dt + 2 * fh
    bare = pi * Dt * L
    show = bare * (1 - ft / iv)
    onefin = 2 * pi / 4 * (fd ** 2 - Dt ** 2) + pi * fd * ft
    ftube = dens * L * onefin
    pd = math.hypot(pp, pn / 2)
    Ad = 2 * per * L * (pd - Dt - 2 * dens * fh * ft)
    An = per * L * (pn - Dt - 2 * dens * fh * ft)
    Am = min(Ad, An)
    Af = pn * L * (per + (0.5 if corb else 1.0))
    want = dict(angle=ang, pitch=pitch, pitch_ratio=prat, pitch_normal=pn, pitch_parallel=pp, pitch_diagonal=pd, fin_height=fh, fin_diameter=fd, fin_density=dens, fin_interval=iv,
                bare_length=iv - ft, tubes_per_bundle=tb, tubes_per_bay=tbay, tubes=tt,
                A_per_fin=onefin, A_increase=(show + ftube) / bare, A_diagonal_per_bundle=Ad, A_normal_per_bundle=An, A_min_per_bundle=Am, A_min_per_bay=Am * bundles, A_min=Am * bundles * bays,
                A_face_per_bundle=Af, A_face_per_bay=Af * bundles, A_face=Af * bundles * bays, flow_area_contraction_ratio=Am / Af,
                channels=tb / passes if rows % passes == 0 else per)
    for nm, one in (("A_bare_tube", bare), ("A_tube_showing", show), ("A_fin", ftube), ("A", show + ftube)):
        want.update({nm + "_per_tube": one, nm + "_per_row": one * per, nm + "_per_bundle": one * tb, nm + "_per_bay": one * tbay, nm: one * tt})
    Di = Dt - 2 * thick if thick else None
    fl = pi / 4 * Di ** 2 if thick else None
    for k, m in (("A_tube_flow", 1), ("A_tube_flow_per_row", per), ("A_tube_flow_per_bundle", tb), ("A_tube_flow_per_bay", tbay), ("A_tube_flow_total", tt)):
        want[k] = fl * m if thick else None
    for k, m in (("tube_volume_per_tube", 1), ("tube_volume_per_row", per), ("tube_volume_per_bundle", tb), ("tube_volume_per_bay", tbay), ("tube_volume", tt)):
        want[k] = fl * m * L if thick else None
    want["Di"] = Di
    base = dict(tube_rows=rows, tube_passes=passes, tubes_per_row=per, tube_length=L, tube_diameter=Dt, fin_thickness=ft, parallel_bays=bays, bundles_per_bay=bundles, corbels=corb, tube_thickness=thick)
    n = 0
    routes = [dict(angle=ang, pitch=pitch), dict(angle=ang, pitch_normal=pn), dict(pitch=pitch, pitch_normal=pn), dict(pitch=pitch, pitch_parallel=pp), dict(pitch_normal=pn, pitch_parallel=pp),
              dict(angle=ang, pitch_ratio=prat), dict(pitch_ratio=prat, pitch_normal=pn)]
    if ang != 90:
        routes.append(dict(angle=ang, pitch_parallel=pp))
    for r in routes:
        if ang == 90 and "angle" not in r and "pitch_parallel" not in r:
            continue                                   # asin at 1 loses half the digits
        for fk in (dict(fin_height=fh), dict(fin_diameter=fd)):
            for dk in (dict(fin_density=dens), dict(fin_interval=iv)):
                o = g.AirCooledExchanger(**dict(base, **r, **fk, **dk))
                for k, v in want.items():
                    expect(getattr(o, k), v, 1e-9, 1e-12 * L * per, "air cooler given %s: %s" % (sorted(r) + sorted(fk) + sorted(dk), k))
                if ang in (30, 45, 60, 90) and "angle" in r:
                    need(o.pitch_str == {30: "triangular", 60: "rotated triangular", 45: "rotated square", 90: "square"}[ang], "pitch name %r at %r" % (o.pitch_str, ang))
                elif ang not in (30, 45, 60, 90):
                    need(o.pitch_str == o.pitch_class == "custom", "pitch name")
                n += 1
    for bad in (dict(angle=ang), dict(pitch=pitch), dict(pitch_normal=pn), dict(angle=ang, pitch=pitch, pitch_ratio=prat)):
        ok, o = attempt(g.AirCooledExchanger, **dict(base, fin_height=fh, fin_density=dens, **bad))
        need(not ok and o == "ValueError", "air cooler given only %s is accepted" % sorted(bad))
    for bad in (dict(fin_height=fh), dict(fin_density=dens)):
        ok, o = attempt(g.AirCooledExchanger, **dict(base, angle=ang, pitch=pitch, **bad))
        need(not ok and o == "ValueError", "air cooler given only %s is accepted" % sorted(bad))
    return n


def pitches(ang, pitch):
    pn, pp = pitch * math.sin(math.radians(ang)), pitch * math.cos(math.radians(ang))
    full = dict(angle=ang, pitch=pitch, pitch_parallel=pp, pitch_normal=pn)
    for ks in itertools.combinations(full, 2):
        if ang in (0, 90) and set(ks) in ({"angle", "pitch_parallel"}, {"angle", "pitch_normal"}):
            continue
        got = g.pitch_angle_solver(**{k: full[k] for k in ks})
        loose = 1e-6 if set(ks) in ({"pitch", "pitch_normal"}, {"pitch", "pitch_parallel"}) else 1e-9
        for u, k in zip(got, full):
            expect(u, full[k], loose, loose * (90 if k == "angle" else pitch), "%s from %s" % (k, ks))
    for k in full:
        ok, r = attempt(g.pitch_angle_solver, **{k: full[k]})
        need(not ok and r == "ValueError", "pitch_angle_solver accepts only %s" % k)
    return round(pn, 9)


def solids(Do, rd, L, n1, rd2, n2):
    Di, D2 = rd * Do, rd2 * Do
    expect(g.V_cylinder(Do, L), pi / 4 * Do ** 2 * L, 1e-12, 0, "cylinder volume")
    expect(g.A_cylinder(Do, L), pi * Do * L + pi / 2 * Do ** 2, 1e-12, 0, "cylinder area")
    expect(g.V_hollow_cylinder(Di, Do, L), pi / 4 * (Do ** 2 - Di ** 2) * L, 1e-9, 1e-13, "hollow cylinder volume")
    expect(g.A_hollow_cylinder(Di, Do, L), pi * (Do + Di) * L + pi / 2 * (Do ** 2 - Di ** 2), 1e-9, 1e-13, "hollow cylinder area")
    holes = [(Di, n1), (D2, n2)]
    for hs in (holes, holes[::-1], holes[:1], tuple(holes), []):
        expect(g.V_multiple_hole_cylinder(Do, L, hs), g.V_cylinder(Do, L) - sum(n * g.V_cylinder(d, L) for d, n in hs), 1e-9, 1e-13, "drilled cylinder volume")
        expect(g.A_multiple_hole_cylinder(Do, L, hs), pi * Do * L + pi / 2 * Do ** 2 + sum(n * (pi * d * L - pi / 2 * d ** 2) for d, n in hs), 1e-9, 1e-13, "drilled cylinder area")
    expect(g.A_multiple_hole_cylinder(Do, L, [(Di, 1)]), g.A_hollow_cylinder(Di, Do, L), 1e-11, 1e-13, "one concentric hole")
    A, V = g.A_cylinder(Do, L), g.V_cylinder(Do, L)
    expect(g.sphericity(A, V), pi * (6 * V / pi) ** (2 / 3) / A, 1e-12, 0, "sphericity")
    need(g.sphericity(A, V) < 1, "sphericity of a cylinder above 1")
    expect(g.sphericity(pi * Do ** 2, pi * Do ** 3 / 6), 1.0, 1e-12, 0, "sphericity of a sphere")
    expect(g.aspect_ratio(Di, Do), Di / Do, 1e-14, 0, "aspect ratio")
    expect(g.circularity(A, L), 4 * pi * A / L ** 2, 1e-12, 0, "circularity")
    expect(g.circularity(pi * Do ** 2 / 4, pi * Do), 1.0, 1e-12, 0, "circularity of a circle")
    return round(A, 9)


def spaces(tier):
    q = tier == "quick"
    und = (g.HelicalCoil, g.PlateExchanger, g.RectangularFinExchanger)
    S = []
    S.append(inv_space("helical coils", coil,
                       {"Dt": [0.01, 0.05, 2.0], "Do": [0.03, 0.05, 0.3, 30.0], "pitch": [0.005, 0.01, 0.05, 0.2, 5.0], "N": [0.5, 1, 4, 20.5], "Di": [None, 0.5, 0.9], "f": [0]}))
    S.append(inv_space("plate exchangers", plate,
                       {"a": [5e-4, 1e-3, 2e-3, 1e-2], "lam": [3.7e-3, 1e-2, 0.2], "ang": [45, 30, 0, 90, 63.5], "angs": [None, (30, 60), (45, 45), (20, 65.5)],
                        "width": [None, 0.3], "length": [None, 1.2], "d_port": [None, 0.05], "plates": [None, 3, 51, 52], "thickness": [None, 0.001]}))
    S.append(inv_space("fin exchangers", fins,
                       {"h": [0.03, 0.006], "t": [0.001, 0.0001, 0.004], "s": [0.012, 0.003, 0.0011], "L": [None, 1.2, 0.3], "W": [None, 0.6, 1.01], "n": [None, 1, 30], "tp": [None, 0.002], "l": [0.05, 0.01]}))
    S.append(inv_space("cooling towers", tower,
                       {"Hi": [5.0, 14.0], "Do": [89.0, 60.0, 140.0], "Ho": [200.0, 120.0], "Di": [136.0, 100.0], "Dt": [85.0, 55.0], "Ht": [150.0, 90.0], "fr": ["", "t", "h", "th"]}))
    S.append(inv_space("air coolers", aircooler,
                       {"rows": [4, 1, 5], "passes": [4, 1, 2], "per": [56, 1, 20], "ang": list(PI_ANG), "prat": [2.5, 1.8], "fin": [0.625, 0.1], "dens": [393.7, 100.0], "bays": [1, 3], "bundles": [1, 2],
                        "corb": [True, False], "thick": [None, 0.00338]}))
    S.append(inv_space("pitch angles", pitches, {"ang": [0, 1e-3, 12.5, 30, 45, 60, 75, 89.9, 90] + [5.0 * i for i in range(1, 18)], "pitch": [0.02, 0.0635, 1.0, 30.0]}))
    S.append(inv_space("solids", solids, {"Do": [0.01, 0.3, 1.0, 20.0], "rd": [0.0, 0.1, 0.5, 0.9, 1.0], "L": [0.001, 0.1, 1.5, 40.0], "n1": [1, 2, 7], "rd2": [0.05, 0.3], "n2": [0, 1, 20]}))
    S.append(conform_space("conformance", modules=["geometry"], only={"pitch_angle_solver", "sphericity", "aspect_ratio", "circularity", "A_cylinder", "V_cylinder", "A_hollow_cylinder", "V_hollow_cylinder",
                                                                     "A_multiple_hole_cylinder", "V_multiple_hole_cylinder", "plate_enlargement_factor", "A_partial_circle"}, tier=tier))
    return S
