"""C13: the unit-aware interface agrees with the SI functions.

fluids.units is exercised with every argument form: the documented unit of each argument and of
each result comes from the reviewed table mc/dims.json (not from the docstrings the code reads),
and conversion factors come from mc/dims.py (not from pint)."""
import inspect
import itertools
import math

from .. import dims
from ..cases import pick
from ..conform import copyv, dec, seeds
from ..core import Outcome, Space, TRIVIAL, Violation, need

RULE = ("Every function of the reviewed table x harvested calls x forms of giving the arguments: documented units by keyword and by position; every argument alone, and all together, "
        "in other units (US customary products of foot, pound, minute, degree Rankine, and named units: psi, inch, cP, degC, degF, rpm, radian ...); arrays; every dimensional argument in a "
        "unit of another dimension and as a plain number.  Every class of the interface: construction, every attribute and method, in SI and in other units.")
ASSUMPTIONS = ["units of arguments and results as documented and reviewed (mc/dims.json); an argument documented without unit may be given in any form",
               "a result that jumps when an input moves by 1e-12 is not compared after a conversion"]
SKIPF = {"A_multiple_hole_cylinder", "V_multiple_hole_cylinder", "liquid_jet_pump"}
# conversion to kelvin of the offset scales
NAMED = {"Pa": ["psi", "bar", "kPa", "atm"], "m": ["inch", "mm", "ft"], "Pa*s": ["cP", "lb/ft/s"], "kg/s": ["lb/hour", "g/s"], "m^3/s": ["gallons/minute", "ft^3/hour"],
         "kg/m^3": ["lb/ft^3", "g/mm^3"], "K": ["degR"], "degrees": ["radians"], "revolutions/s": ["rpm"], "m/s": ["ft/minute", "km/hour"], "m^2": ["inch^2", "ft^2"],
         "N/m": ["lb/s^2", "J/mm^2"], "m^3/hr": ["gallons/minute", "m^3/s"], "g/mol": ["kg/kmol", "kg/mol"], "W": ["J/hour", "kg*m^2/s^3"], "m/s^2": ["ft/s^2"], "s": ["minute", "hour"],
         "J/kg/K": ["J/g/degR"], "J/mol": ["J/kmol"], "m^3": ["gallons"], "W/m/K": ["W/ft/degR"], "gallons/minute": ["m^3/hour"], "m^2/s": ["ft^2/hour"]}
PINT = {"ft": "foot", "lb": "pound", "g": "gram", "in": "inch", "degR": "degR", "gallons": "gallons"}


def us(unit):
    """the same dimension in feet, pounds, minutes, degrees Rankine, kilomoles"""
    d = dims.dims(unit)
    parts = ["%s^(%s)" % (n, e) for n, e in zip(("ft", "lb", "minute", "degR", "kmol", "A"), d) if e]
    return "*".join(parts) if parts else None


def quantity(x, unit):
    import fluids.units as U
    return U.u.Quantity(x, pint_name(unit))


def pint_name(unit):
    import re
    if unit in dims.DIMENSIONLESS:
        return "dimensionless"
    return re.sub(r"[A-Za-z]+", lambda m: PINT.get(m.group(0), m.group(0)), unit).replace("^", "**")


def array(v):
    import numpy as np
    return np.array(v)


def isdim(unit):
    return unit not in dims.DIMENSIONLESS


def wrapv(v, unit, alt=None):
    """(the quantity to pass, the SI-documented value it stands for)"""
    if v is None or isinstance(v, (str, bool)) or not isdim(unit) or (isinstance(v, list) and any(i is None or isinstance(i, (str, bool)) for i in v)):
        return v, v
    if alt is None:
        return quantity(array(v) if isinstance(v, list) else v, unit), v
    if alt in ("degC", "degF"):
        if isinstance(v, list):
            m = [to_offset(i, alt) for i in v]
            return quantity(array(m), alt), [from_offset(i, alt) for i in m]
        m = to_offset(v, alt)
        return quantity(m, alt), from_offset(m, alt)
    k = dims.parse(unit)[0] / dims.parse(alt)[0]
    if isinstance(v, list):
        m = [i * k for i in v]
        return quantity(array(m), alt), [i / k for i in m]
    m = v * k
    return quantity(m, alt), m / k


def to_offset(v, alt):
    return v - 273.15 if alt == "degC" else v * 1.8 - 459.67


def from_offset(v, alt):
    return v + 273.15 if alt == "degC" else (v + 459.67) / 1.8


def alternatives(name, unit):
    if not isdim(unit) or unit == "degC":
        return []
    out = list(NAMED.get(unit, ()))
    if unit not in ("degrees", "revolutions/s", "revolutions/second", "rpm") and any(dims.dims(unit)):
        x = us(unit)
        if x and x not in out:
            out.append(x)
    if unit == "K" and name.startswith("T"):
        out += ["degC", "degF"]
    return out


def magnitude(q, unit, what):
    """the number in the documented unit, with the dimension checked"""
    import fluids.units as U
    if not isdim(unit):
        if isinstance(q, U.u.Quantity):
            need(q.dimensionless, "%s carries the unit %s but is documented as dimensionless" % (what, q.units), key="unit")
            return q.to("dimensionless").magnitude
        return q
    need(isinstance(q, U.u.Quantity), "%s lost its unit: %r" % (what, q), key="unit")
    want = U.u.Quantity(1.0, pint_name(unit)).units
    need(q.dimensionality == want.dimensionality, "%s carries the unit %s, documented %s" % (what, q.units, unit), key="unit")
    return q.to(want).magnitude


def near(g, w, rtol):
    if isinstance(w, float) and w != w:
        return g != g
    return g == w or math.isclose(g, w, rel_tol=rtol, abs_tol=1e-290)


def compare(got, want, rets, what, rtol=1e-10):
    """raises Violation where the unit-aware result is not the documented one"""
    if want is None or isinstance(want, (str, bool)):
        need(type(got) is type(want) and got == want, "%s gives %r, expected %r" % (what, got, want), key="value")
    elif isinstance(want, dict):
        need(isinstance(got, dict) and set(got) == set(want), "%s gives %r" % (what, got), key="value")
        u = {n: x for n, x in rets}
        for k in want:
            compare(got[k], want[k], [[k, u.get(k, "-")]], "%s[%r]" % (what, k), rtol)
    elif isinstance(want, tuple):
        need(isinstance(got, (list, tuple)) and len(got) == len(want), "%s gives %s results, expected %d" % (what, len(got) if hasattr(got, "__len__") else got, len(want)), key="value")
        for i, (g, w) in enumerate(zip(got, want)):
            compare(g, w, [rets[i]] if i < len(rets) else [["?", "-"]], "%s[%d]" % (what, i), rtol)
    elif isinstance(want, list) or type(want).__name__ == "ndarray":
        want = list(want)
        if any(i is None or isinstance(i, (str, bool)) for i in want):
            need(list(got) == want, "%s gives %r, expected %r" % (what, got, want), key="value")
            return
        m = magnitude(got, rets[0][1], what)
        m = m.tolist() if hasattr(m, "tolist") else list(m)
        w = [i.tolist() if hasattr(i, "tolist") else i for i in want]
        need(len(m) == len(w), "%s has %d elements, expected %d" % (what, len(m), len(w)), key="value")
        flat = lambda l: [j for i in l for j in (flat(i) if isinstance(i, list) else [i])]
        for a, b in zip(flat(m), flat(w)):
            if not near(a, b, rtol):
                raise Violation("%s gives %s, expected %s" % (what, str(m)[:120], str(w)[:120]), key="value")
    elif isinstance(want, (int, float)):
        m = magnitude(got, rets[0][1], what)
        need(near(float(m), float(want), rtol), "%s = %s, expected %r %s" % (what, got, want, rets[0][1]), key="value")
    else:
        return


def jumps(f, kw, want):
    """the SI result moves by more than the conversion can explain when an input moves by 1e-12"""
    def flat(x):
        if isinstance(x, dict):
            return [j for k in sorted(x) for j in flat(x[k])]
        if isinstance(x, (list, tuple)) or type(x).__name__ == "ndarray":
            return [j for i in x for j in flat(i)]
        return [x]
    w = flat(want)
    for a, v in kw.items():
        if isinstance(v, float):
            for d in (1e-12, -1e-12):
                try:
                    p = flat(f(**dict({k: copyv(x) for k, x in kw.items()}, **{a: v * (1 + d)})))
                except Exception:
                    return True
                if len(p) != len(w):
                    return True
                for x, y in zip(p, w):
                    if isinstance(y, (int, float)) and not isinstance(y, bool):
                        if not near(x, y, 1e-9):
                            return True
                    elif x != y:
                        return True
    return False


def signature(f):
    return inspect.signature(f).parameters


def entries():
    import fluids
    import fluids.units as U
    out = []
    for key in sorted(dims.table()):
        mod, name = key.rsplit(".", 1)
        if name in SKIPF or getattr(fluids, name, None) is None:
            continue
        out.append((key, name))
    return out


def show(name, q):
    return "units.%s(%s)" % (name, ", ".join("%s=%s" % (a, v) for a, v in q.items()))


def sicall(f, kw):
    try:
        return True, f(**{k: copyv(v) for k, v in kw.items()})
    except Exception as e:
        return False, type(e).__name__


def one(name, e, form, kw, alts):
    """a call through the interface; alts: argument -> unit it is given in"""
    import fluids
    import fluids.units as U
    f = getattr(fluids, name)
    g = getattr(U, name)
    q, si = {}, {}
    for a, v in kw.items():
        q[a], si[a] = wrapv(v, e["args"].get(a, "-"), alts.get(a))
    ok, want = sicall(f, si)
    if not ok:
        return TRIVIAL
    sig = signature(f)
    rets = dims.result_units(e, si, list(sig))
    if rets is None:
        return TRIVIAL
    try:
        if form == "positional":
            pos = []
            names = list(sig)
            last = max([i for i, n in enumerate(names) if n in q] or [-1])
            for n in names[:last + 1]:
                if n in q:
                    pos.append(q[n])
                else:
                    pos.append(wrapv(sig[n].default, e["args"].get(n, "-"))[0])
            got = g(*pos)
        else:
            got = g(**q)
    except Exception as x:
        if alts and jumps(f, si, want):
            return TRIVIAL
        raise Violation("%s raises %s: %s, the SI function gives %s" % (show(name, q), type(x).__name__, str(x)[:120], str(want)[:80]), key=name + ":" + form)
    try:
        compare(got, want, rets, show(name, q), 1e-8 if alts else 1e-10)
    except Violation as v:
        if alts and v.key == "value" and jumps(f, si, want):
            return TRIVIAL
        raise Violation(str(v), key="%s:%s" % (name, form if v.key != "unit" else "unit"))
    return "ok"


def calls(key, n):
    return [{a: dec(v) for a, v in s.items()} for s in pick(seeds()[key], n)]


def sp_si(n):
    def cases():
        return [(key, name, i, form) for key, name in entries() for i in range(min(n, len(seeds()[key]))) for form in ("keyword", "positional")]

    def fn(case):
        key, name, i, form = case
        return one(name, dims.table()[key], form, calls(key, n)[i], {})
    return Space("documented units", cases, fn)


def sp_alt(n):
    def cases():
        out = []
        for key, name in entries():
            e = dims.table()[key]
            for i, kw in enumerate(calls(key, n)):
                al = {a: alternatives(a, e["args"].get(a, "-")) for a, v in kw.items() if v is not None and not isinstance(v, (str, bool))}
                for a, l in al.items():
                    for x in l:
                        out.append((key, name, i, ((a, x),)))
                al = {a: l for a, l in al.items() if l}
                if len(al) > 1:
                    for j in range(max(len(l) for l in al.values())):
                        out.append((key, name, i, tuple((a, l[j % len(l)]) for a, l in al.items())))
        return out

    def fn(case):
        key, name, i, alts = case
        return one(name, dims.table()[key], "other units", calls(key, n)[i], dict(alts))
    return Space("other units", cases, fn)


def sp_reject(n):
    def cases():
        out = []
        for key, name in entries():
            e = dims.table()[key]
            for i, kw in enumerate(calls(key, n)):
                for a, v in kw.items():
                    u = e["args"].get(a, "-")
                    if v is None or isinstance(v, (str, bool)) or not any(dims.dims(u)):
                        continue
                    for form in ("*candela", "1/x", "plain"):
                        for how in ("keyword", "positional"):
                            out.append((key, name, i, a, form, how))
        return out

    def fn(case):
        import fluids
        import fluids.units as U
        key, name, i, a, form, how = case
        e = dims.table()[key]
        kw = calls(key, n)[i]
        f = getattr(fluids, name)
        if not sicall(f, kw)[0]:
            return TRIVIAL
        q = {b: wrapv(v, e["args"].get(b, "-"))[0] for b, v in kw.items()}
        v, u = kw[a], e["args"][a]
        v = array(v) if isinstance(v, list) else v
        if form == "*candela":
            q[a] = U.u.Quantity(v, pint_name(u) + "*candela")
        elif form == "1/x":
            q[a] = U.u.Quantity(v, "1/(%s)" % pint_name(u))
        else:
            q[a] = kw[a]
        try:
            if how == "positional":
                sig = signature(f)
                names = list(sig)
                last = max(j for j, m in enumerate(names) if m in q)
                got = getattr(U, name)(*[q[m] if m in q else wrapv(sig[m].default, e["args"].get(m, "-"))[0] for m in names[:last + 1]])
            else:
                got = getattr(U, name)(**q)
        except Exception as x:
            return type(x).__name__
        raise Violation("%s accepted %s = %s (documented in %s) and gave %s" % (show(name, q), a, q[a], u, str(got)[:80]), key="%s:%s" % (name, a))
    return Space("incompatible units and plain numbers", cases, fn)


def sp_array(n):
    fac = (1.0, 0.9, 1.05)

    def cases():
        out = []
        for key, name in entries():
            e = dims.table()[key]
            if e["returns"] == "missing":
                continue
            for i, kw in enumerate(calls(key, n)):
                for a, v in kw.items():
                    if isinstance(v, float) and v and math.isfinite(v):
                        out.append((key, name, i, a))
        return out

    def fn(case):
        import fluids
        import fluids.units as U
        key, name, i, a = case
        e = dims.table()[key]
        kw = calls(key, n)[i]
        if any(isinstance(v, (list, tuple)) for v in kw.values()):
            return TRIVIAL
        f = getattr(fluids, name)
        vals = [kw[a] * k for k in fac]
        wants = []
        for v in vals:
            ok, w = sicall(f, dict(kw, **{a: v}))
            if not ok or not isinstance(w, (float, int)) or isinstance(w, bool) or not math.isfinite(w):
                return TRIVIAL
            wants.append(float(w))
        q = {b: wrapv(v, e["args"].get(b, "-"))[0] for b, v in kw.items()}
        u = e["args"].get(a, "-")
        q[a] = quantity(array(vals), u)
        rets = e["returns"]
        try:
            got = getattr(U, name)(**q)
        except Exception as x:
            raise Violation("%s raises %s: %s" % (show(name, q), type(x).__name__, str(x)[:120]), key=name + ":array")
        try:
            compare(got, wants, rets, show(name, q))
        except Violation as v:
            raise Violation(str(v), key=name + ":array")
        return "ok"
    return Space("arrays", cases, fn)


# ---------------------------------------------------------------- special argument forms
def sp_special():
    L = [("m", 1.0), ("ft", .3048), ("inch", .0254), ("mm", 1e-3)]

    def cases():
        out = [("holes", fn, u, w) for fn in ("A_multiple_hole_cylinder", "V_multiple_hole_cylinder") for u in range(4) for w in range(4)]
        out += [("dimensionless", k) for k in range(6)]
        out += [("jetpump", k) for k in range(3)]
        return out

    def fn(case):
        import fluids
        import fluids.units as U
        u = U.u
        if case[0] == "holes":
            _, name, a, b = case
            (na, fa), (nb, fb) = L[a], L[b]
            want = getattr(fluids, name)(.01, .1, [(.005, 1), (.0015, 2)])
            got = getattr(U, name)(quantity(.01 / fa, na), quantity(.1 / fb, nb), [(quantity(.005 / fb, nb), 1), (quantity(.0015 / fa, na), 2)])
            compare(got, want, [["x", "m^2" if name[0] == "A" else "m^3"]], name)
            return "ok"
        if case[0] == "jetpump":
            k = case[1]
            base = dict(rhop=998., rhos=1098., Ks=.11, Kp=.04, Km=.186, Kd=.12, max_variations=10000, nozzle_retracted=False, d_mixing=0.045, Qp=0.01, Qs=0.01, P2=133600., P5=200000.)
            un = dict(rhop="kg/m^3", rhos="kg/m^3", Qp="m^3/s", Qs="m^3/s", P1="Pa", P2="Pa", P5="Pa", d_nozzle="m", d_mixing="m", d_diffuser="m")
            want = fluids.liquid_jet_pump(**base)
            alt = [{}, {n: us(x) for n, x in un.items()}, {"P2": "psi", "P5": "bar", "d_mixing": "inch"}][k]
            got = U.liquid_jet_pump(**{n: wrapv(v, un.get(n, "-"), alt.get(n))[0] for n, v in base.items()})
            rets = [[n, un.get(n, "-")] for n in want]
            # restarts from random guesses: compared to the accuracy of its solver
            compare(got, want, rets, "liquid_jet_pump", 1e-3)
            return "ok"
        k = case[1]
        kw = [dict(Re=1E5, eD=1E-4), dict(Re=100., eD=.01)][k % 2]
        q = [{n: v for n, v in kw.items()}, {n: v * u.dimensionless for n, v in kw.items()}, {n: v * 1e3 * u("mm/m") for n, v in kw.items()}][k // 2]
        compare(U.friction_factor(**q), fluids.friction_factor(**kw), [["fd", "-"]], "friction_factor(%s)" % q)
        return "ok"
    return Space("holes, jet pump, dimensionless ratios", cases, fn)


# ------------------------------------------------------------------------------ classes
M, M2, M3, O = "m", "m^2", "m^3", "-"
TANKP = dict(D=M, L=M, V=M3, L_over_D=O, sideA_a=M, sideB_a=M, sideA_f=O, sideA_k=O, sideB_f=O, sideB_k=O, sideA_a_ratio=O, sideB_a_ratio=O, horizontal=O, sideA=O, sideB=O)
TANKA = dict(D=M, L=M, V_total=M3, L_over_D=O, h_max=M, A=M2, A_sideA=M2, A_sideB=M2, A_lateral=M2, A_sideA_extra=M2, A_sideB_extra=M2, sideA_a=M, sideB_a=M, sideA_f=O, sideB_k=O, sideA=O, sideB=O)
PSDA = dict(vssa="1/m")
PSDM = [("cdf", [("d", 4e-6, M)], O), ("pdf", [("d", 4e-6, M)], "1/m"), ("dn", [("fraction", .3, O)], M), ("mean_size", [("p", 3, O), ("q", 2, O)], M), ("mean_size_ISO", [("k", 1, O), ("r", 2, O)], M),
        ("delta_cdf", [("d_min", 2e-6, M), ("d_max", 5e-6, M)], O), ("ds_discrete", [("pts", 4, O)], M), ("fractions_discrete", [("ds", [2e-6, 3e-6, 7e-6], M)], O), ("cdf_discrete", [("ds", [2e-6, 3e-6, 7e-6], M)], O)]
PSDP = dict(d_characteristic=M, s=O, m=O, k=O, order=O, d_min=M, d_max=M, ds=M, fractions=O)
PEX = dict(amplitude=M, wavelength=M, chevron_angle="degrees", chevron_angles="degrees", width=M, length=M, thickness=M, d_port=M, plates=O)
ACX = dict(tube_rows=O, tube_passes=O, tubes_per_row=O, tube_length=M, tube_diameter=M, fin_thickness=M, angle="degrees", pitch=M, pitch_parallel=M, pitch_normal=M, pitch_ratio=O, fin_diameter=M,
           fin_height=M, fin_density="1/m", fin_interval=M, parallel_bays=O, bundles_per_bay=O, fans_per_bay=O, corbels=O, tube_thickness=M, fan_diameter=M)
ACA = dict({n: M2 for n in ("A A_bare_tube A_bare_tube_per_bay A_bare_tube_per_bundle A_bare_tube_per_row A_bare_tube_per_tube A_diagonal_per_bundle A_face A_face_per_bay A_face_per_bundle A_fin A_fin_per_bay "
                            "A_fin_per_bundle A_fin_per_row A_fin_per_tube A_min A_min_per_bay A_min_per_bundle A_normal_per_bundle A_per_bay A_per_bundle A_per_fin A_per_row A_per_tube A_tube_showing "
                            "A_tube_showing_per_bay A_tube_showing_per_bundle A_tube_showing_per_row A_tube_showing_per_tube A_tube_flow A_tube_flow_per_bay A_tube_flow_per_bundle A_tube_flow_per_row").split()},
           **{n: M for n in "bare_length tube_length tube_diameter fin_thickness fin_diameter fin_height fin_interval pitch pitch_parallel pitch_normal pitch_diagonal tube_thickness".split()},
           A_increase=O, channels=O, flow_area_contraction_ratio=O, pitch_ratio=O, angle="degrees", fin_density="1/m", tube_volume=M3)
RFP = dict(fin_height=M, fin_thickness=M, fin_spacing=M, length=M, width=M, layers=O, plate_thickness=M, flow=O)
RFA = dict(RFP, channel_height=M, channel_width=M, fin_count="1/m", blockage_ratio=O, A_channel=M2, P_channel=M, Dh=M, layer_thickness=M, layer_fin_count=O, A_HX_layer=M2, A_HX=M2, height=M, volume=M3, A_specific_HX="1/m")
HCP = dict(Dt=M, Do=M, pitch=M, H=M, N=O, H_total=M, Do_total=M, Di=M)
HCA = dict(HCP, tube_length=M, surface_area=M2, helix_angle=O, curvature=O, total_volume=M3, tube_circumference=M, inner_surface_area=M2, inlet_area=M2, inner_volume=M3, annulus_area=M2, annulus_volume=M3)
HTP = dict(H_inlet=M, D_outlet=M, H_outlet=M, D_inlet=M, D_base=M, D_throat=M, H_throat=M, H_support=M, D_support=M, n_support=O, inlet_rounding=M)
HTA = dict({k: v for k, v in HTP.items() if k != "H_throat"}, b_lower=M, b_upper=M)
A76A = dict(Z=M, H=M, T="K", P="Pa", rho="kg/m^3", g="m/s^2", mu="Pa*s", k="W/m/K", v_sonic="m/s")
A76M = [("thermal_conductivity", [("T", 300., "K")], "W/m/K"), ("viscosity", [("T", 300., "K")], "Pa*s"), ("density", [("T", 300., "K"), ("P", 9e4, "Pa")], "kg/m^3"), ("sonic_velocity", [("T", 300., "K")], "m/s"),
        ("gravity", [("Z", 3000., M)], "m/s^2"), ("pressure_integral", [("T1", 280., "K"), ("P1", 9e4, "Pa"), ("dH", 2000., M)], "Pa")]
MSISA = dict(T="K", P="Pa", rho="kg/m^3", particle_density="1/m^3", O2_density="1/m^3", N2_density="1/m^3", He_density="1/m^3", Ar_density="1/m^3", O_density="1/m^3", H_density="1/m^3", N_density="1/m^3")
MSISP = dict(Z=M, latitude="degrees", longitude="degrees", day="day", seconds="s")
TM = lambda h, v: [("V_from_h", [("h", h, M)], M3), ("h_from_V", [("V", v, M3)], M), ("SA_from_h", [("h", h, M)], M2), ("A_cross_sectional", [("h", h, M)], M2)]
CLASSES = [
    ("TANK", dict(D=2., L=4.), TANKP, TANKA, TM(.7, 3.)),
    ("TANK", dict(D=2., L=4., horizontal=False, sideA="conical", sideA_a=.5, sideB="ellipsoidal", sideB_a=.4), TANKP, TANKA, TM(1.3, 5.)),
    ("TANK", dict(V=20., L_over_D=2.5, sideA="torispherical", sideB="torispherical", sideA_f=1., sideA_k=.06, sideB_f=.9, sideB_k=.1), TANKP, TANKA, TM(.7, 3.)),
    ("TANK", dict(D=2., V=20., sideA="spherical", sideB="guppy", sideA_a=.6, sideB_a=.8), TANKP, TANKA, TM(.7, 3.)),
    ("TANK", dict(L=4., V=20., sideA="ellipsoidal", sideA_a_ratio=.25), TANKP, TANKA, TM(.7, 3.)),
    ("HelicalCoil", dict(Do=.6, H=.5, pitch=.1, Dt=.03, Di=.025), HCP, HCA, []),
    ("HelicalCoil", dict(Do_total=32 * .0254, H_total=22 * .0254, pitch=5 * .0254, Dt=.0254), HCP, HCA, []),
    ("HelicalCoil", dict(Do=.6, H=.5, N=5, Dt=.03), HCP, HCA, []),
    ("PlateExchanger", dict(amplitude=5e-4, wavelength=3.7e-3, chevron_angle=45, width=.2, length=1.1, thickness=5e-4, d_port=.05, plates=51),
     PEX, dict(PEX, inclination_angle="degrees", plate_corrugation_aspect_ratio=O, plate_enlargement_factor=O, D_eq=M, D_hydraulic=M, length_port=M, A_plate_surface=M2, A_heat_transfer=M2, A_channel_flow=M2, channels=O, channels_per_fluid=O), []),
    ("PlateExchanger", dict(amplitude=5e-4, wavelength=3.7e-3, chevron_angles=(45, 30)), PEX, dict(amplitude=M, wavelength=M, chevron_angle="degrees", D_eq=M, D_hydraulic=M), []),
    ("AirCooledExchanger", dict(tube_rows=4, tube_passes=4, tubes_per_row=56, tube_length=10.9728, tube_diameter=.0254, fin_thickness=.0003048, fin_density=393.7, angle=30, pitch=.0635, fin_height=.0158, tube_thickness=.00338,
                                bundles_per_bay=2, parallel_bays=4, corbels=True), ACX, ACA, []),
    ("AirCooledExchanger", dict(tube_rows=3, tube_passes=2, tubes_per_row=20, tube_length=6., tube_diameter=.03, fin_thickness=.0004, fin_interval=.003, angle=45, pitch_parallel=.04, pitch_normal=.08, fin_diameter=.055), ACX, ACA, []),
    ("RectangularFinExchanger", dict(fin_height=.03, fin_thickness=.001, fin_spacing=.012, length=1.5, width=.8, layers=30, plate_thickness=.002), RFP, RFA, []),
    ("HyperbolicCoolingTower", dict(H_inlet=5., H_outlet=100., D_inlet=60., D_outlet=40., D_throat=36., H_throat=80., H_support=5., D_support=.6, n_support=36, inlet_rounding=.3), HTP, HTA, [("diameter", [("H", 10., M)], M), ("diameter", [("H", 90., M)], M)]),
    ("HyperbolicCoolingTower", dict(H_inlet=14.5, D_outlet=89., H_outlet=200., D_inlet=136.18), HTP, HTA, [("diameter", [("H", 5., M)], M)]),
    ("ATMOSPHERE_1976", dict(Z=5000.), dict(Z=M, dT="dK"), A76A, A76M),
    ("ATMOSPHERE_1976", dict(Z=30000., dT=12.), dict(Z=M, dT="dK"), dict(A76A, dT="K"), A76M),
    ("ATMOSPHERE_NRLMSISE00", dict(Z=1000., latitude=45., longitude=45., day=150.), MSISP, MSISA, []),
    ("ATMOSPHERE_NRLMSISE00", dict(Z=2.9e5, latitude=-30., longitude=120., day=10., seconds=40000.), MSISP, MSISA, []),
    ("PSDLognormal", dict(d_characteristic=5e-6, s=.5), PSDP, dict(PSDA, d_characteristic=M, s=O, order=O), PSDM),
    ("PSDLognormal", dict(d_characteristic=5e-6, s=.5, order=0, d_min=1e-6, d_max=9e-6), PSDP, dict(d_characteristic=M, d_min=M, d_max=M), PSDM),
    ("PSDGatesGaudinSchuhman", dict(d_characteristic=8e-6, m=2.2), PSDP, PSDA, PSDM),
    ("PSDRosinRammler", dict(k=4e9, m=1.8), PSDP, dict(PSDA, k=O, m=O), PSDM),
    ("PSDInterpolated", dict(ds=[1e-6, 3e-6, 6e-6, 1e-5], fractions=[.2, .3, .4, .1]), PSDP, dict(ds=M), [m for m in PSDM if m[0] in ("cdf", "pdf", "dn", "delta_cdf", "fractions_discrete", "cdf_discrete")]),
]


def wrapc(v, unit, alt):
    if isinstance(v, tuple):
        l = [wrapc(i, unit, alt) for i in v]
        return quantity(array([q.to(pint_name(unit)).magnitude for q, _ in l]), unit), tuple(s for _, s in l)
    if unit == "dK":
        return wrapv(v, "K", "degR" if alt else None)
    return wrapv(v, unit, alt if isdim(unit) and alt else None)


def calt(unit, j):
    if unit == "dK":
        return "degR" if j else None
    if unit == "1/m^3" or not isdim(unit) or not j:
        return None
    if unit == "day":
        return None             # whole days count
    l = alternatives("x", unit)
    return l[(j - 1) % len(l)] if l else None


def sp_classes():
    def cases():
        return [(i, form, j) for i in range(len(CLASSES)) for form in ("keyword", "positional") for j in range(4)]

    def fn(case):
        import fluids
        import fluids.units as U
        i, form, j = case
        name, kw, P, A, meths = CLASSES[i]
        q, si = {}, {}
        for a, v in kw.items():
            q[a], si[a] = wrapc(v, P.get(a, "-"), calt(P.get(a, "-"), j))
        obj = getattr(fluids, name)(**si)
        cls = getattr(U, name)
        key = "%s:" % name
        try:
            if form == "positional":
                sig = inspect.signature(getattr(fluids, name).__init__).parameters
                names = [n for n in sig if n != "self"]
                last = max(names.index(n) for n in q)
                w = cls(*[q[n] if n in q else wrapc(sig[n].default, P.get(n, "-"), None)[0] for n in names[:last + 1]])
            else:
                w = cls(**q)
        except Exception as x:
            raise Violation("units.%s(%s) raises %s: %s" % (name, q, type(x).__name__, str(x)[:100]), key=key + "construction")
        n = 0
        for a, u in A.items():
            if not hasattr(obj, a):
                continue
            want = getattr(obj, a)
            if want is None:
                need(getattr(w, a) is None, "units.%s.%s = %s, expected None" % (name, a, getattr(w, a)), key=key + a)
                continue
            got = getattr(w, a)
            if isinstance(want, (str, bool)):
                if isinstance(want, str):
                    continue
                want = float(want)
            try:
                if u == "1/m^3":           # counted particles per volume
                    got = got / U.u.count if "count" in str(got.units) else got
                if a == "helix_angle":
                    got = got.to("radian").magnitude
                if isinstance(want, tuple):
                    want = list(want)
                compare(got, want if not hasattr(want, "tolist") else want, [[a, u]], "units.%s(%s).%s" % (name, ", ".join("%s=%s" % t for t in q.items()), a), 1e-8)
            except Violation as v:
                raise Violation(str(v), key=key + a)
            n += 1
        for m, args, u in meths:
            for jj in (j,):
                qa, sa = [], []
                for an, v, au in args:
                    a, b = wrapc(v, au, calt(au, jj))
                    qa.append((an, a))
                    sa.append((an, b))
                want = getattr(obj, m)(**dict(sa))
                for way in ("keyword", "positional")[:1 if m == "ds_discrete" else 2]:
                    try:
                        got = getattr(w, m)(**dict(qa)) if way == "keyword" else getattr(w, m)(*[a for _, a in qa])
                    except Exception as x:
                        raise Violation("units.%s(%s).%s(%s) raises %s: %s" % (name, q, m, qa, type(x).__name__, str(x)[:100]), key=key + m)
                    try:
                        compare(got, want, [[m, u]], "units.%s(%s).%s(%s)" % (name, q, m, qa), 1e-8)
                    except Violation as v:
                        raise Violation(str(v), key=key + m)
                    n += 1
        return Outcome("ok", evals=n)
    return Space("classes", cases, fn)


def sp_class_more():
    def cases():
        return ["add_thickness", "from_two_specs", "static", "independent", "wrong unit", "plain number"]

    def fn(case):
        import fluids
        import fluids.units as U
        u = U.u
        if case == "add_thickness":
            a = fluids.TANK(D=2., L=4., sideA="ellipsoidal", sideA_a=.5).add_thickness(.01)
            b = U.TANK(D=2. * u.m, L=4. * u.m, sideA="ellipsoidal", sideA_a=.5 * u.m).add_thickness(1. * u.cm)
            for n, x in (("V_total", M3), ("D", M), ("A", M2), ("sideA_a", M)):
                compare(getattr(b, n), getattr(a, n), [[n, x]], "TANK.add_thickness." + n)
        elif case == "from_two_specs":
            a = fluids.TANK.from_two_specs(20., 4., spec0_name="V", spec1_name="A_cross", h=.3)
            b = U.TANK.from_two_specs(20., 4., spec0_name="V", spec1_name="A_cross", h=30. * u.cm)
            for n, x in (("V_total", M3), ("D", M), ("A", M2)):
                compare(getattr(b, n), getattr(a, n), [[n, x]], "TANK.from_two_specs." + n, 1e-7)
        elif case == "static":
            for m, args, x in A76M:
                want = getattr(fluids.ATMOSPHERE_1976, m)(*[v for _, v, _ in args])
                compare(getattr(U.ATMOSPHERE_1976, m)(*[quantity(v, y) for _, v, y in args]), want, [[m, x]], "ATMOSPHERE_1976." + m)
        elif case == "independent":
            a, b = U.TANK(D=2. * u.m, L=4. * u.m), U.TANK(D=3. * u.m, L=4. * u.m)
            compare(a.V_total, fluids.TANK(D=2., L=4.).V_total, [["V", M3]], "first tank after a second was made")
            compare(b.V_total, fluids.TANK(D=3., L=4.).V_total, [["V", M3]], "second tank")
            c = a.add_thickness(1. * u.cm)
            compare(a.D, 2., [["D", M]], "tank after add_thickness")
            compare(c.D, 2.02, [["D", M]], "thicker tank")
        elif case == "wrong unit":
            for bad in (lambda: U.TANK(D=2. * u.s, L=4. * u.m), lambda: U.TANK(D=2. * u.m, L=4. * u.m).V_from_h(1. * u.kg), lambda: U.ATMOSPHERE_1976(5000 * u.K), lambda: U.HelicalCoil(Do=1. * u.Pa, H=1 * u.m, pitch=.1 * u.m, Dt=.01 * u.m)):
                try:
                    r = bad()
                except Exception:
                    continue
                raise Violation("a class of the unit-aware interface accepted an argument in a unit of another dimension: %r" % (r,), key="class units")
        else:
            for bad in (lambda: U.TANK(D=2., L=4. * u.m), lambda: U.TANK(D=2. * u.m, L=4. * u.m).V_from_h(1.), lambda: U.ATMOSPHERE_1976(5000)):
                try:
                    r = bad()
                except Exception:
                    continue
                raise Violation("a class of the unit-aware interface accepted a plain number for a dimensional argument: %r" % (r,), key="class plain")
        return "ok"
    return Space("methods that make objects, static methods, rejections", cases, fn)


def spaces(tier):
    import fluids.units          # once, before the workers are started
    q = tier == "quick"
    return [sp_special(), sp_classes(), sp_class_more(), sp_si(4 if q else 40), sp_alt(1 if q else 8), sp_reject(1 if q else 4), sp_array(1 if q else 6)]
