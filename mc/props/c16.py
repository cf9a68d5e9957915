"""C16: method listings, dispatchers and the methods' own functions agree."""
import importlib
import itertools
import math

import fluids
import fluids.drag as drag
import fluids.fittings as ft
import fluids.flow_meter as fm
import fluids.friction as fr
import fluids.packed_bed as pb
import fluids.particle_size_distribution as psd
import fluids.separator as sep
import fluids.two_phase as tp
import fluids.two_phase_voidage as tv

from ..conform import conform_space
from ..core import Space, Violation, need, expect, attempt, TRIVIAL

RULE = ("every dispatcher x every method name of a table written here x an input lattice crossing every range of applicability x every subset of the optional inputs: the result equals the method's own function called directly; the listing names exactly the methods whose inputs are there (and, where it filters, whose range holds the point), in any combination of inputs; unknown names (misspellings, other dispatchers' names, case changes, empty) are refused; leaving the method out, or giving None, equals the documented default; a listing changed by the caller does not change the next one; non-trivial when the method gives a value")
ASSUMPTIONS = ["the tables of method names, own functions and needed inputs are written here from the documentation; ranges of the pipe friction factors and sphere drag correlations are those of each correlation's own documentation"]


def same_call(a, b, what):
    """two attempts: equal values (same formula, so to rounding), or both refused"""
    oka, ra = a
    okb, rb = b
    if not okb:
        need(not oka, "%s gives %r where the method's own function raises %s" % (what, ra, rb))
        return "!" + str(rb)
    need(oka, "%s raised %s where the method's own function gives %r" % (what, ra, rb))
    if isinstance(rb, complex) or (isinstance(rb, float) and math.isnan(rb)):
        need((isinstance(ra, complex) and abs(ra - rb) <= 1e-12 * abs(rb)) or (isinstance(ra, float) and isinstance(rb, float) and math.isnan(ra)), "%s: %r, the method's own function %r" % (what, ra, rb))
        return "nan"
    expect(ra, rb, 1e-12, 0, what + " against the method's own function")
    return ra


BADS = ("", "bad", "clamond", "Rennels ", "Kim-Mudawar", "RENNELS", "None", "homogenous", "0")


def refused(f, kw, name, param, what):
    ok, r = attempt(f, **dict(kw, **{param: name}))
    need(not ok and r == "ValueError", "%s with %s=%r: %r instead of a ValueError" % (what, param, name, r))


# ----------------------------------------------------------- pipe friction
PIPE = {n: n for n in ("Moody", "Alshul_1952", "Wood_1966", "Churchill_1973", "Eck_1973", "Jain_1976", "Swamee_Jain_1976", "Churchill_1977", "Chen_1979", "Round_1980", "Shacham_1980", "Barr_1981", "Zigrang_Sylvester_1", "Zigrang_Sylvester_2", "Haaland", "Serghides_1", "Serghides_2", "Tsal_1989", "Manadilli_1997", "Romeo_2002", "Sonnad_Goudar_2006", "Rao_Kumar_2007", "Buzzelli_2008", "Avci_Karagoz_2009", "Papaevangelo_2010", "Brkic_2011_1", "Brkic_2011_2", "Fang_2011", "Clamond", "Colebrook")}
# (Re low, Re high, eD low, eD high); None: no limit
PIPE_RANGE = {"Moody": (4e3, 1e8, 0, 1e-2), "Wood_1966": (4e3, 5e7, 1e-5, 4e-2), "Jain_1976": (5e3, 1e7, 4e-5, 5e-2), "Swamee_Jain_1976": (5e3, 1e8, 1e-6, 5e-2), "Chen_1979": (4e3, 4e8, 1e-7, 5e-2), "Round_1980": (4e3, 4e8, 0, 5e-2), "Shacham_1980": (4e3, 4e8, None, None), "Zigrang_Sylvester_1": (4e3, 1e8, 4e-5, 5e-2), "Zigrang_Sylvester_2": (4e3, 1e8, 4e-5, 5e-2), "Haaland": (4e3, 1e8, 1e-6, 5e-2), "Tsal_1989": (4e3, 1e8, 0, 5e-2), "Manadilli_1997": (5245, 1e8, 0, 5e-2), "Romeo_2002": (3e3, 1.5e8, 0, 5e-2), "Sonnad_Goudar_2006": (4e3, 1e8, 1e-6, 5e-2), "Papaevangelo_2010": (1e4, 1e7, 1e-5, 1e-3), "Fang_2011": (3e3, 1e8, 0, 5e-2), "Clamond": (0, None, 0, None), "Colebrook": (0, None, 0, None)}


def pipe(Re, eD):
    what = "friction_factor(Re=%r, eD=%r" % (Re, eD)
    lam = Re < 2040
    outs = []
    for name, own in PIPE.items():
        f = getattr(fr, own)
        a = attempt(fr.friction_factor, Re=Re, eD=eD, Method=name)
        if lam:
            b = (True, 64.0 / Re)
        elif name == "Clamond":
            b = attempt(f, Re, eD, False)
        else:
            b = attempt(f, Re, eD)
        r = same_call(a, b, what + ", Method=%r)" % name)
        outs.append(r)
        if a[0]:
            ok, q = attempt(fr.friction_factor, Re=Re, eD=eD, Method=name, Darcy=False)
            need(ok, "%s, Method=%r, Darcy=False) raised %s" % (what, name, q))
            if not (isinstance(q, float) and math.isnan(q)):
                expect(4 * q, a[1], 1e-13, 0, what + ", Method=%r, Darcy=False)" % name)
    expect(fr.friction_factor(Re=Re, eD=eD, Method="laminar"), 64.0 / Re, 1e-14, 0, what + ", Method='laminar')")
    d = 64.0 / Re if lam else fr.Clamond(Re, eD, False)
    expect(fr.friction_factor(Re=Re, eD=eD), d, 1e-13, 0, what + ")")
    expect(fr.friction_factor(Re=Re, eD=eD, Method=None), d, 1e-13, 0, what + ", Method=None)")
    # listings
    li = fr.friction_factor_methods(Re=Re, eD=eD, check_ranges=True)
    if lam:
        want = {"laminar"}
    else:
        want = set()
        for n in PIPE:
            lo, hi, el, eh = PIPE_RANGE.get(n, (None,) * 4)
            if (lo is None or Re >= lo) and (hi is None or Re <= hi) and (el is None or eD >= el) and (eh is None or eD <= eh):
                want.add(n)
    need(len(set(li)) == len(li), "friction_factor_methods lists a method twice")
    need(set(li) == want, "friction_factor_methods(%r, %r): lists %s beyond and lacks %s of the methods whose range holds the point" % (Re, eD, sorted(set(li) - want), sorted(want - set(li))))
    la = fr.friction_factor_methods(Re=Re, eD=eD, check_ranges=False)
    need(set(la) == set(PIPE) | {"laminar"}, "friction_factor_methods without range check: %s" % sorted(set(la) ^ (set(PIPE) | {"laminar"})))
    for l in (li, la):
        l.append("scribble")
    need("scribble" not in fr.friction_factor_methods(Re=Re, eD=eD, check_ranges=True) + fr.friction_factor_methods(Re=Re, eD=eD, check_ranges=False), "a listing changed by the caller changes the next listing")
    # pressure drop
    m, rho, mu, D, L = Re * .05 * math.pi / 4 * 1e-3, 1000.0, 1e-3, .05, 3.0
    for name in ("Haaland", "Moody", "laminar", None):
        a = attempt(fr.one_phase_dP, m=m, rho=rho, mu=mu, D=D, roughness=eD * D, L=L, Method=name)
        V = m / (math.pi / 4 * D * D) / rho
        b = attempt(fr.friction_factor, Re=rho * V * D / mu, eD=eD, Method=name)
        if b[0]:
            b = (True, b[1] * L / D * .5 * rho * V * V)
        if abs(Re - 2040) > 1e-6:
            if b[0]:
                need(a[0], "one_phase_dP raised %s" % (a[1],))
                expect(a[1], b[1], 1e-10, 0, "one_phase_dP(Method=%r)" % (name,))
    return outs


def pipe_bad(Re, name):
    if name in PIPE or name == "laminar":
        return TRIVIAL
    if Re >= 2040:
        refused(fr.friction_factor, dict(Re=Re, eD=1e-4), name, "Method", "friction_factor(Re=%r)" % Re)
        return 1
    ok, r = attempt(fr.friction_factor, Re=Re, eD=1e-4, Method=name)
    need(not ok or abs(r * Re / 64 - 1) < 1e-12, "friction_factor(Re=%r, Method=%r): %r" % (Re, name, r))
    return 1


# ------------------------------------------------------------ curved pipes
CURV_LAM = {"White": "helical_laminar_fd_White", "Mori Nakayama laminar": "helical_laminar_fd_Mori_Nakayama", "Schmidt laminar": "helical_laminar_fd_Schmidt"}
CURV_TURB = {"Schmidt turbulent": ("helical_turbulent_fd_Schmidt", 1), "Mori Nakayama turbulent": ("helical_turbulent_fd_Mori_Nakayama", 0), "Prasad": ("helical_turbulent_fd_Prasad", 1), "Czop": ("helical_turbulent_fd_Czop", 0), "Guo": ("helical_turbulent_fd_Guo", 0), "Ju": ("helical_turbulent_fd_Ju", 1), "Mandal Nigam": ("helical_turbulent_fd_Mandal_Nigam", 1), "Srinivasan turbulent": ("helical_turbulent_fd_Srinivasan", 0)}
CURV_REC = {"Schmidt": "Schmidt", "Seth Stahel": "Seth_Stahel", "Ito": "Ito", "Kubair Kuloor": "Kubair_Kuloor", "Kutateladze Borishanskii": "Kutateladze_Borishanskii", "Srinivasan": "Srinivasan"}


def curved_own(name, Re, Di, Dc, e):
    if name in CURV_LAM:
        return attempt(getattr(fr, CURV_LAM[name]), Re, Di, Dc)
    n, r = CURV_TURB[name]
    return attempt(getattr(fr, n), Re, Di, Dc, e) if r else attempt(getattr(fr, n), Re, Di, Dc)


def curved(k, Di, ratio, e, rec):
    Dc = Di * ratio
    Rec = getattr(fr, "helical_transition_Re_" + CURV_REC[rec])(Di, Dc)
    expect(fr.helical_Re_crit(Di=Di, Dc=Dc, Method=rec), Rec, 1e-14, 0, "helical_Re_crit(Method=%r)" % rec)
    Re = Rec * k
    what = "friction_factor_curved(Re=%r, Di=%r, Dc=%r, roughness=%r" % (Re, Di, Dc, e)
    turb = Re >= Rec
    outs = []
    for name in list(CURV_LAM) + list(CURV_TURB):
        own = curved_own(name, Re, Di, Dc, e)
        outs.append(same_call(attempt(fr.friction_factor_curved, Re, Di, Dc, e, Method=name, Rec_method=rec), own, "%s, Method=%r)" % (what, name)))
        use = "turbulent_method" if name in CURV_TURB else "laminar_method"
        if turb == (name in CURV_TURB):
            same_call(attempt(fr.friction_factor_curved, Re, Di, Dc, e, Rec_method=rec, **{use: name}), own, "%s, %s=%r, Rec_method=%r)" % (what, use, name, rec))
        else:
            d = "Schmidt turbulent" if turb else "Schmidt laminar"
            same_call(attempt(fr.friction_factor_curved, Re, Di, Dc, e, Rec_method=rec, **{use: name}), curved_own(d, Re, Di, Dc, e), "%s, %s=%r, Rec_method=%r)" % (what, use, name, rec))
        if own[0]:
            ok, q = attempt(fr.friction_factor_curved, Re, Di, Dc, e, Method=name, Darcy=False)
            need(ok, "%s, Method=%r, Darcy=False) raised %s" % (what, name, q))
            expect(4 * q, own[1], 1e-12, 0, "%s, Method=%r, Darcy=False)" % (what, name))
    same_call(attempt(fr.friction_factor_curved, Re, Di, Dc, e, Rec_method=rec), curved_own("Schmidt turbulent" if turb else "Schmidt laminar", Re, Di, Dc, e), what + ", Rec_method=%r)" % rec)
    if rec == "Schmidt":
        li = fr.friction_factor_curved_methods(Re, Di, Dc, e, check_ranges=True)
        want = CURV_TURB if turb else CURV_LAM
        need(sorted(li) == sorted(want), "friction_factor_curved_methods at %r of the critical Reynolds number: %s" % (k, sorted(set(li) ^ set(want))))
        la = fr.friction_factor_curved_methods(Re, Di, Dc, e, check_ranges=False)
        need(sorted(la) == sorted(list(CURV_LAM) + list(CURV_TURB)), "friction_factor_curved_methods without range check")
        li.append("scribble")
        la.append("scribble")
        need("scribble" not in fr.friction_factor_curved_methods(Re, Di, Dc, e, check_ranges=True) + fr.friction_factor_curved_methods(Re, Di, Dc, e, check_ranges=False), "a listing changed by the caller changes the next listing")
    for b in ("bad", "schmidt", "", "White "):
        refused(fr.friction_factor_curved, dict(Re=Re, Di=Di, Dc=Dc), b, "Method", what)
        refused(fr.helical_Re_crit, dict(Di=Di, Dc=Dc), b, "Method", "helical_Re_crit")
        refused(fr.friction_factor_curved, dict(Re=Re, Di=Di, Dc=Dc), b, "Rec_method", what)
        refused(fr.friction_factor_curved, dict(Re=Re, Di=Di, Dc=Dc, Rec_method=rec), b, "turbulent_method" if turb else "laminar_method", what)
    return outs


# -------------------------------------------------------------------- drag
DRAG = ("Stokes", "Barati", "Barati_high", "Rouse", "Engelund_Hansen", "Clift_Gauvin", "Morsi_Alexander", "Graf", "Flemmer_Banks", "Khan_Richardson", "Swamee_Ojha", "Yen", "Haider_Levenspiel", "Cheng", "Terfous", "Mikhailov_Freire", "Clift", "Ceylan", "Almedeij", "Morrison", "Song_Xu")
DRAG_RANGE = {"Stokes": (None, .3), "Barati": (None, 2e5), "Barati_high": (None, 1e6), "Rouse": (None, 2e5), "Engelund_Hansen": (None, 2e5), "Clift_Gauvin": (None, 2e5), "Morsi_Alexander": (None, 2e5), "Graf": (None, 2e5), "Flemmer_Banks": (None, 2e5), "Khan_Richardson": (None, 2e5), "Swamee_Ojha": (None, 1.5e5), "Yen": (None, 2e5), "Haider_Levenspiel": (None, 2e5), "Cheng": (None, 2e5), "Terfous": (.1, 5e4), "Mikhailov_Freire": (None, 118300), "Clift": (None, 1e6), "Ceylan": (.1, 1e6), "Almedeij": (None, 1e6), "Morrison": (None, 1e6), "Song_Xu": (None, 1e3)}


def sphere(Re):
    outs = []
    for n in DRAG:
        outs.append(same_call(attempt(drag.drag_sphere, Re, Method=n), attempt(getattr(drag, n), Re), "drag_sphere(%r, Method=%r)" % (Re, n)))
    li = drag.drag_sphere_methods(Re, check_ranges=True)
    edge = {n for n in DRAG if Re in DRAG_RANGE[n]}
    want = {n for n in DRAG if (DRAG_RANGE[n][0] is None or Re > DRAG_RANGE[n][0]) and (DRAG_RANGE[n][1] is None or Re < DRAG_RANGE[n][1])}
    need(set(li) - edge == want - edge and len(li) == len(set(li)), "drag_sphere_methods(%r) and the correlations' ranges differ by %s" % (Re, sorted((set(li) ^ want) - edge)))
    need(set(drag.drag_sphere_methods(Re, check_ranges=False)) == set(DRAG), "drag_sphere_methods without range check")
    for d in (attempt(drag.drag_sphere, Re), attempt(drag.drag_sphere, Re, Method=None)):
        need(d[0], "drag_sphere(%r) raised %s" % (Re, d[1]))
        if Re < .01:
            w = [drag.Stokes(Re)]
        elif Re <= .1:
            t = (Re - .01) / .09
            w = [t * drag.Barati(Re) + (1 - t) * drag.Stokes(Re)]
        elif abs(Re / 212963.26847812787 - 1) < 1e-9:
            w = [drag.Barati(Re), drag.Barati_high(Re)]
        else:
            w = [drag.Barati(Re) if Re < 212963.26847812787 else drag.Barati_high(Re)]
        need(any(abs(d[1] / x - 1) < 1e-12 for x in w), "drag_sphere(%r) = %r, documented default %r" % (Re, d[1], w))
    for b in BADS + ("stokes", "Barati high"):
        refused(drag.drag_sphere, dict(Re=Re), b, "Method", "drag_sphere(%r)" % Re)
    return outs


def settle(D, rhop, mu):
    """terminal velocity by each drag method: the drag of that method balances the weight"""
    rho, g = 1.2, 9.80665
    outs = []
    for n in DRAG + (None,):
        ok, V = attempt(drag.v_terminal, D, rhop, rho, mu, Method=n)
        if not ok:
            outs.append(V)
            continue
        Re = rho * V * D / mu
        stokes = g * D * D * (rhop - rho) / (18 * mu)
        if abs(V / stokes - 1) < 1e-12 and Re < .0101:
            outs.append(V)
            continue
        Cd = drag.drag_sphere(Re, Method=n)
        expect(V * V, 4 * g * D * (rhop - rho) / (3 * Cd * rho), 1e-6, 0, "v_terminal(D=%r, rhop=%r, mu=%r, Method=%r)^2" % (D, rhop, mu, n))
        outs.append(V)
    for b in ("bad", "stokes"):
        ok, r = attempt(drag.v_terminal, D, rhop, rho, mu, Method=b)
        need(not ok or abs(r / (g * D * D * (rhop - rho) / (18 * mu)) - 1) < 1e-9, "v_terminal(Method=%r): %r" % (b, r))
    return outs


# -------------------------------------------------------------- packed bed
BED = {"Ergun": "Ergun", "Tallmadge": "Tallmadge", "Kuo & Nydegger": "Kuo_Nydegger", "Jones & Krier": "Jones_Krier", "Carman": "Carman", "Hicks": "Hicks", "Brauer": "Brauer", "KTA": "KTA", "Erdim, Akgiray & Demir": "Erdim_Akgiray_Demir", "Fahien & Schriver": "Fahien_Schriver", "Idelchik": "Idelchik"}
BED_DT = {"Harrison, Brunner & Hecker": "Harrison_Brunner_Hecker", "Montillet, Akkari & Comiti": "Montillet_Akkari_Comiti", "Guo, Sun, Zhang, Ding & Liu": "Guo_Sun"}


def bed(dp, voidage, vs, rho, mu, L, Dt, sph):
    kw = dict(dp=dp, voidage=voidage, vs=vs, rho=rho, mu=mu, L=L)
    opt = {} if Dt is None else {"Dt": Dt}
    own = dict(kw, dp=dp * (sph or 1.0))
    dis = dict(kw, **opt)
    if sph is not None:
        dis["sphericity"] = sph
    what = "dP_packed_bed(%s" % ", ".join("%s=%r" % i for i in dis.items())
    outs = []
    for n, f in list(BED.items()) + (list(BED_DT.items()) if Dt is not None else []):
        o = dict(own, **(opt if n in BED_DT else {}))
        outs.append(same_call(attempt(pb.dP_packed_bed, Method=n, **dis), attempt(getattr(pb, f), **o), "%s, Method=%r)" % (what, n)))
    d = "Erdim_Akgiray_Demir" if Dt is None else "Harrison_Brunner_Hecker"
    for k in ({}, {"Method": None}):
        same_call(attempt(pb.dP_packed_bed, **dict(dis, **k)), attempt(getattr(pb, d), **dict(own, **opt)), what + ")")
    li = pb.dP_packed_bed_methods(**dict(kw, **opt))
    want = list(BED) + (list(BED_DT) if Dt is not None else [])
    need(sorted(li) == sorted(want), "dP_packed_bed_methods(%r, Dt=%r): %s" % (kw, Dt, sorted(set(li) ^ set(want))))
    need(li[0] == ("Erdim, Akgiray & Demir" if Dt is None else "Harrison, Brunner & Hecker"), "dP_packed_bed_methods: first %r is not the default of dP_packed_bed" % li[0])
    li.append("scribble")
    need("scribble" not in pb.dP_packed_bed_methods(**dict(kw, **opt)), "a listing changed by the caller changes the next listing")
    for b in BADS + ("ergun", "Kuo_Nydegger"):
        refused(pb.dP_packed_bed, dis, b, "Method", what)
    return outs


# ----------------------------------------------------------- two phase drop
T_RHOG, T_MU, T_SIG = ("rhog",), ("rhog", "mul", "mug"), ("rhog", "mul", "mug", "sigma")
TWO = {"Zhang_Webb": ("Zhang_Webb", ("mul", "P", "Pc"), ("roughness",), {}),
       "Lockhart_Martinelli": ("Lockhart_Martinelli", T_MU, (), {}),
       "Kim_Mudawar": ("Kim_Mudawar", T_SIG, (), {}),
       "Lombardi_Pedrocchi": ("Lombardi_Pedrocchi", ("rhog", "sigma"), (), {}),
       "Chisholm rough": ("Chisholm", T_MU, ("roughness",), {"rough_correction": True}),
       "Zhang_Hibiki_Mishima adiabatic gas": ("Zhang_Hibiki_Mishima", T_SIG, ("roughness",), {"flowtype": "adiabatic gas"}),
       "Zhang_Hibiki_Mishima flow boiling": ("Zhang_Hibiki_Mishima", T_SIG, ("roughness",), {"flowtype": "flow boiling"}),
       "Beggs-Brill": ("Beggs_Brill", T_SIG + ("P", "angle"), ("roughness",), {"acceleration": False})}
for n in ("Bankoff", "Baroczy_Chisholm", "Chisholm", "Gronnerud", "Jung_Radermacher", "Muller_Steinhagen_Heck", "Theissing", "Wang_Chiang_Lu", "Yu_France"):
    TWO[n] = (n, T_MU, ("roughness",), {})
for n in ("Friedel", "Hwang_Kim", "Mishima_Hibiki", "Tran", "Xu_Fang", "Zhang_Hibiki_Mishima", "Chen_Friedel"):
    TWO[n] = (n, T_SIG, ("roughness",), {})
T_OPT = ("rhog", "mul", "mug", "sigma", "P", "Pc", "angle")
TWO_VAL = dict(rhog=2.6, mul=180e-6, mug=14e-6, sigma=.0487, P=1e6, Pc=2.2e7, angle=10.0)


def two_default(have):
    if set(T_SIG) <= have:
        return "Kim_Mudawar"
    if set(T_MU) <= have:
        return "Chisholm"
    if {"mul", "P", "Pc"} <= have:
        return "Zhang_Webb"
    if {"rhog", "sigma"} <= have:
        return "Lombardi_Pedrocchi"
    return None


def two(base, have):
    have = set(have)
    m, x, rhol, D, L, e = base
    fix = dict(m=m, x=x, rhol=rhol, D=D, L=L)
    opt = {k: TWO_VAL[k] for k in have}
    what = "two_phase_dP(m=%r, x=%r, rhol=%r, D=%r, L=%r, roughness=%r, given %s" % (m, x, rhol, D, L, e, sorted(have))
    outs = []
    for n, (own, needs, extra, const) in TWO.items():
        a = attempt(tp.two_phase_dP, Method=n, roughness=e, **fix, **opt)
        if set(needs) <= have:
            b = attempt(getattr(tp, own), **fix, **{k: opt[k] for k in needs}, **({"roughness": e} if extra else {}), **const)
            outs.append(same_call(a, b, "%s, Method=%r)" % (what, n)))
        else:
            need(not a[0] and a[1] in ("TypeError", "ValueError"), "%s, Method=%r): %r though %s is missing" % (what, n, a[1], sorted(set(needs) - have)))
    for b in BADS + ("Zhang Webb", "Chisholm_rough"):
        refused(tp.two_phase_dP, dict(fix, **opt), b, "Method", what)
    # the listing takes a missing angle to be level flow unless told None
    angle = {"angle": opt.get("angle")}
    li = tp.two_phase_dP_methods(**dict(fix, **opt, **({} if "angle" in have else angle)))
    want = {n for n in TWO if set(TWO[n][1]) <= have}
    need(set(li) == want and len(li) == len(want), "two_phase_dP_methods given %s: differs from the methods whose inputs are there by %s" % (sorted(have), sorted(set(li) ^ want)))
    lo = tp.two_phase_dP_methods(**dict(fix, **opt))
    for n in lo:
        ok, r = attempt(tp.two_phase_dP, Method=n, roughness=e, **fix, **opt)
        need(ok or r != "TypeError", "two_phase_dP_methods given %s lists %r, which two_phase_dP then refuses (%s)" % (sorted(have), n, r))
    li.append("scribble")
    need("scribble" not in tp.two_phase_dP_methods(**dict(fix, **opt)), "a listing changed by the caller changes the next listing")
    d = two_default(have)
    for k in ({}, {"Method": None}):
        a = attempt(tp.two_phase_dP, roughness=e, **fix, **opt, **k)
        if d is None:
            need(not a[0] and a[1] == "ValueError", "%s): %r though no method can be chosen" % (what, a[1]))
        else:
            own, needs, extra, const = TWO[d]
            same_call(a, attempt(getattr(tp, own), **fix, **{i: opt[i] for i in needs}, **({"roughness": e} if extra else {}), **const), what + ")")
            need(d in lo, "the default %r is not listed" % d)
    return outs


# ---------------------------------------------------------------- voidage
V2 = ("mul", "mug")
VOID = {"Thom": ("Thom", V2), "Zivi": ("Zivi", ()), "Smith": ("Smith", ()), "Fauske": ("Fauske", ()), "Chisholm_voidage": ("Chisholm_voidage", ()), "Turner Wallis": ("Turner_Wallis", V2), "homogeneous": ("homogeneous", ()), "Chisholm Armand": ("Chisholm_Armand", ()), "Armand": ("Armand", ()), "Nishino Yamazaki": ("Nishino_Yamazaki", ()), "Guzhov": ("Guzhov", ("m", "D")), "Kawahara": ("Kawahara", ("D",)), "Baroczy": ("Baroczy", V2), "Tandon Varma Gupta": ("Tandon_Varma_Gupta", V2 + ("m", "D")), "Harms": ("Harms", V2 + ("m", "D")), "Domanski Didion": ("Domanski_Didion", V2), "Graham": ("Graham", V2 + ("m", "D", "g")), "Yashar": ("Yashar", V2 + ("m", "D", "g")), "Huq_Loth": ("Huq_Loth", ()), "Kopte_Newell_Chato": ("Kopte_Newell_Chato", ("m", "D", "g")), "Steiner": ("Steiner", ("sigma", "m", "D", "g")), "Rouhani 1": ("Rouhani_1", ("sigma", "m", "D", "g")), "Rouhani 2": ("Rouhani_2", ("sigma", "m", "D", "g")), "Nicklin Wilkes Davidson": ("Nicklin_Wilkes_Davidson", ("m", "D", "g")), "Gregory_Scott": ("Gregory_Scott", ()), "Dix": ("Dix", ("sigma", "m", "D", "g")), "Sun Duffey Peng": ("Sun_Duffey_Peng", ("sigma", "m", "D", "P", "Pc", "g")), "Xu Fang voidage": ("Xu_Fang_voidage", ("m", "D", "g")), "Woldesemayat Ghajar": ("Woldesemayat_Ghajar", ("sigma", "m", "D", "P", "angle", "g"))}
V_OPT = ("D", "m", "mul", "mug", "sigma", "P", "Pc")


def void(x, rhol, rhog, have, g, angle):
    have = set(have)
    vals = dict(D=.05, m=.6, mul=180e-6, mug=14e-6, sigma=.0487, P=1e6, Pc=2.2e7)
    opt = {k: vals[k] for k in have}
    ex = {}
    if g is not None:
        ex["g"] = g
    if angle is not None:
        ex["angle"] = angle
    fix = dict(x=x, rhol=rhol, rhog=rhog)
    full = dict(opt, g=9.80665 if g is None else g, angle=0 if angle is None else angle)
    what = "liquid_gas_voidage(x=%r, rhol=%r, rhog=%r, given %s" % (x, rhol, rhog, sorted(have | set(ex)))
    outs = []
    for n, (own, needs) in VOID.items():
        a = attempt(tv.liquid_gas_voidage, Method=n, **fix, **opt, **ex)
        if set(needs) <= set(full):
            outs.append(same_call(a, attempt(getattr(tv, own), **fix, **{k: full[k] for k in needs}), "%s, Method=%r)" % (what, n)))
        else:
            need(not a[0] and a[1] in ("TypeError", "ValueError"), "%s, Method=%r): %r though %s is missing" % (what, n, a[1], sorted(set(needs) - set(full))))
    li = tv.liquid_gas_voidage_methods(**fix, **opt, **ex)
    want = {n for n in VOID if set(VOID[n][1]) <= set(full)}
    need(set(li) == want and len(li) == len(want), "liquid_gas_voidage_methods given %s: differs from the methods whose inputs are there by %s" % (sorted(have), sorted(set(li) ^ want)))
    li.append("scribble")
    need("scribble" not in tv.liquid_gas_voidage_methods(**fix, **opt, **ex), "a listing changed by the caller changes the next listing")
    for k in ({}, {"Method": None}):
        same_call(attempt(tv.liquid_gas_voidage, **fix, **opt, **ex, **k), attempt(tv.homogeneous, **fix), what + ")")
    for b in BADS + ("Rouhani", "Turner_Wallis"):
        refused(tv.liquid_gas_voidage, dict(fix, **opt), b, "Method", what)
    return outs


VISC = {"Beattie Whalley": ("Beattie_Whalley", True), "Fourar Bories": ("Fourar_Bories", True), "Duckler": ("Duckler", True), "McAdams": ("McAdams", False), "Cicchitti": ("Cicchitti", False), "Lin Kwok": ("Lin_Kwok", False)}


def visc(x, mul, mug, rhol, rhog):
    kw = dict(x=x, mul=mul, mug=mug)
    rh = {}
    if rhol is not None:
        rh["rhol"] = rhol
    if rhog is not None:
        rh["rhog"] = rhog
    what = "gas_liquid_viscosity(%r, %r" % (kw, rh)
    outs = []
    both = len(rh) == 2
    for n, (own, d) in VISC.items():
        a = attempt(tv.gas_liquid_viscosity, Method=n, **kw, **rh)
        if d and not both:
            need(not a[0] and a[1] in ("TypeError", "ValueError"), "%s, Method=%r): %r though a density is missing" % (what, n, a[1]))
            continue
        outs.append(same_call(a, attempt(getattr(tv, own), **kw, **(rh if d else {})), "%s, Method=%r)" % (what, n)))
    li = tv.gas_liquid_viscosity_methods(**rh)
    want = {n for n in VISC if both or not VISC[n][1]}
    need(set(li) == want and len(li) == len(want), "gas_liquid_viscosity_methods(%r): %s" % (rh, sorted(set(li) ^ want)))
    li.append("scribble")
    marked = "scribble" in tv.gas_liquid_viscosity_methods(**rh)
    while "scribble" in li:
        li.remove("scribble")
    need(not marked, "a listing changed by the caller changes the next listing of gas_liquid_viscosity_methods")
    for k in ({}, {"Method": None}):
        same_call(attempt(tv.gas_liquid_viscosity, **kw, **rh, **k), attempt(tv.McAdams, **kw), what + ")")
    for b in BADS + ("Fourar_Bories",):
        refused(tv.gas_liquid_viscosity, dict(kw, **rh), b, "Method", what)
    return outs


# --------------------------------------------------------------- fittings
FIT = {
    "entrance_sharp": (["Rennels", "Swamee", "Blevins", "Idelchik", "Crane", "Miller"], [{}], {}),
    "entrance_distance": (["Rennels", "Miller", "Idelchik", "Harris", "Crane"], [dict(Di=.1, t=.0005), dict(Di=.1, t=.02), dict(Di=.05, t=.004, l=.02)], {}),
    "entrance_angled": (["Idelchik"], [dict(angle=30.), dict(angle=80.)], {}),
    "entrance_rounded": (["Rennels", "Crane", "Miller", "Idelchik", "Harris", "Swamee"], [dict(Di=.1, rc=.0235), dict(Di=.1, rc=.003), dict(Di=.1, rc=.05)], {}),
    "entrance_beveled": (["Rennels", "Idelchik"], [dict(Di=.1, l=.003, angle=45.), dict(Di=.1, l=.02, angle=60.)], {}),
    "bend_rounded": (["Rennels", "Crane", "Crane standard", "Miller", "Swamee", "Ito"], [dict(Di=.1, angle=45., Re=1e5), dict(Di=4.02, rc=4.02 * 5, angle=30., Re=1e5), dict(Di=.05, bend_diameters=3.0, angle=90., Re=2e6, roughness=1e-5)],
                     {"Miller": ("bend_rounded_Miller", ("Di", "angle", "Re", "rc", "bend_diameters", "roughness")), "Crane": ("bend_rounded_Crane", ("Di", "angle", "rc", "bend_diameters"))}),
    "bend_miter": (["Rennels", "Miller", "Crane", "Blevins"], [dict(angle=45., Di=.1, Re=1e5), dict(angle=90., Di=.6, Re=1e6, roughness=1e-5), dict(angle=20., Di=.05, Re=2e7)], {"Miller": ("bend_miter_Miller", ("Di", "angle", "Re", "roughness"))}),
    "contraction_sharp": (["Rennels", "Hooper", "Crane"], [dict(Di1=1., Di2=.4, Re=1e5), dict(Di1=.3, Di2=.2, Re=2e3, roughness=1e-5)], {}),
    "contraction_round": (["Rennels", "Miller", "Idelchik"], [dict(Di1=1., Di2=.4, rc=.04), dict(Di1=.3, Di2=.2, rc=.01)], {"Miller": ("contraction_round_Miller", ("Di1", "Di2", "rc"))}),
    "contraction_conical": (["Rennels", "Idelchik", "Crane", "Swamee", "Blevins", "Miller", "Hooper"], [dict(Di1=.1, Di2=.04, l=.04, Re=1e6), dict(Di1=.3, Di2=.2, angle=30., Re=1e5, roughness=1e-5)], {"Crane": ("contraction_conical_Crane", ("Di1", "Di2", "l", "angle"))}),
    "diffuser_sharp": (["Rennels", "Hooper"], [dict(Di1=.5, Di2=1., Re=1e5), dict(Di1=.2, Di2=.3, Re=1e3, roughness=1e-5)], {}),
    "diffuser_conical": (["Rennels", "Crane", "Miller", "Swamee", "Idelchik", "Hooper"], [dict(Di1=.1, Di2=.2, angle=50., Re=1e6), dict(Di1=1/3., Di2=1., angle=15., Re=1e6), dict(Di1=.3, Di2=.4, l=.5, Re=1e5, roughness=1e-5)], {}),
}
# the listings the modules publish beside the dispatchers
FIT_LIST = {n: n + "_methods" for n in FIT}
FIT_NONE = ("entrance_sharp", "entrance_distance", "entrance_rounded", "entrance_beveled", "bend_rounded", "bend_miter", "contraction_round", "diffuser_conical", "entrance_angled")


def fitting(name, base):
    methods, _, own = FIT[name]
    f = getattr(ft, name)
    what = "%s(%s" % (name, ", ".join("%s=%r" % i for i in base.items()))
    outs = []
    for m in methods:
        ok, r = attempt(f, method=m, **base)
        need(ok and isinstance(r, float) and math.isfinite(r), "%s, method=%r): %r" % (what, m, r))
        if m in own:
            n, args = own[m]
            o = {k: base[k] for k in args if k in base}
            if name == "bend_rounded" and "rc" not in o and "bend_diameters" not in o:
                o["bend_diameters"] = 5.0
            expect(r, getattr(ft, n)(**o), 1e-12, 0, "%s, method=%r) against %s" % (what, m, n))
        outs.append(r)
    d = methods[0]
    expect(f(**base), f(method=d, **base), 1e-14, 0, what + ") against the default method")
    if name in FIT_NONE:
        ok, r = attempt(f, method=None, **base)
        need(ok, "%s, method=None) raised %s" % (what, r))
        expect(r, f(method=d, **base), 1e-14, 0, what + ", method=None)")
    pub = getattr(ft, FIT_LIST[name], None)
    if pub is not None:
        need(sorted(pub) == sorted(methods), "%s: the published list and the methods differ by %s" % (name, sorted(set(pub) ^ set(methods))))
    for b in BADS + ("Ergun", "Kim_Mudawar"):
        refused(f, base, b, "method", what)
    return outs


# ------------------------------------------------------------- flow meters
def meters():
    return sorted(n for n in dir(fm) if n in (
        "AS_CAST_VENTURI_TUBE", "CONCENTRIC_ORIFICE", "CONE_METER", "CONICAL_ORIFICE", "ECCENTRIC_ORIFICE", "HOLLINGSHEAD_CONE", "HOLLINGSHEAD_ORIFICE", "HOLLINGSHEAD_VENTURI_SHARP", "HOLLINGSHEAD_VENTURI_SMOOTH", "HOLLINGSHEAD_WEDGE", "ISA_1932_NOZZLE", "ISO_15377_CONICAL_ORIFICE", "ISO_15377_ECCENTRIC_ORIFICE", "ISO_15377_QUARTER_CIRCLE_ORIFICE", "ISO_5167_ORIFICE", "LONG_RADIUS_NOZZLE", "MACHINED_CONVERGENT_VENTURI_TUBE", "MILLER_CONICAL_ORIFICE", "MILLER_ECCENTRIC_ORIFICE", "MILLER_ORIFICE", "MILLER_QUARTER_CIRCLE_ORIFICE", "MILLER_SEGMENTAL_ORIFICE", "QUARTER_CIRCLE_ORIFICE", "ROUGH_WELDED_CONVERGENT_VENTURI_TUBE", "SEGMENTAL_ORIFICE", "VENTURI_NOZZLE", "WEDGE_METER"))


ALIAS = {"CONCENTRIC_ORIFICE": "ISO_5167_ORIFICE", "ECCENTRIC_ORIFICE": "ISO_15377_ECCENTRIC_ORIFICE", "CONICAL_ORIFICE": "ISO_15377_CONICAL_ORIFICE", "QUARTER_CIRCLE_ORIFICE": "ISO_15377_QUARTER_CIRCLE_ORIFICE", "SEGMENTAL_ORIFICE": "MILLER_SEGMENTAL_ORIFICE"}


def meter(name, beta, D, m, dp):
    P1, rho, mu, k = 1e6, 40.0, 1.2e-5, 1.3
    P2 = P1 * (1 - dp)
    t = getattr(fm, name)
    real = ALIAS.get(name, name)
    Do = beta * D
    kw = dict(D=D, D2=Do, m=m, P1=P1, P2=P2, rho=rho, mu=mu, k=k)
    what = "differential_pressure_meter_C_epsilon(%s, D=%r, D2=%r, m=%r, P2/P1=%r)" % (name, D, Do, m, P2 / P1)
    miller = real.startswith("MILLER")
    opts = [{}]
    if real == "ISO_5167_ORIFICE":
        opts = [dict(taps=s) for s in ("corner", "flange", "D", "D and D/2") if s != "D"] + [{}]
    elif real == "MILLER_ORIFICE":
        opts = [dict(taps=s) for s in ("corner", "flange", "D and D/2", "pipe")]
    elif real == "MILLER_ECCENTRIC_ORIFICE":
        opts = [dict(taps=s, tap_position=p) for s in ("flange", "vena contracta") for p in ("180 degree", "90 degree")]
    elif real == "MILLER_SEGMENTAL_ORIFICE":
        opts = [dict(taps=s, tap_position="180 degree") for s in ("flange", "vena contracta")] + [{}]
    elif real in ("MILLER_CONICAL_ORIFICE", "MILLER_QUARTER_CIRCLE_ORIFICE"):
        opts = [{}, dict(taps="flange")]
    outs = []
    for o in opts:
        a = attempt(fm.differential_pressure_meter_C_epsilon, meter_type=t, **kw, **o)
        orif = lambda: fm.orifice_expansibility(D, Do, P1, P2, k)
        nozz = lambda **q: fm.nozzle_expansibility(D=D, Do=Do, P1=P1, P2=P2, k=k, **q)
        C = eps = None
        if real == "ISO_5167_ORIFICE":
            C, eps = attempt(fm.C_Reader_Harris_Gallagher, D, Do, rho, mu, m, o.get("taps", "corner")), orif()
        elif real == "ISO_15377_ECCENTRIC_ORIFICE":
            C, eps = attempt(fm.C_eccentric_orifice_ISO_15377_1998, D, Do), orif()
        elif real == "ISO_15377_QUARTER_CIRCLE_ORIFICE":
            C, eps = attempt(fm.C_quarter_circle_orifice_ISO_15377_1998, D, Do), orif()
        elif real == "ISO_15377_CONICAL_ORIFICE":
            C, eps = (True, .734), .5 * (orif() + nozz())
        elif miller:
            C = attempt(fm.C_Miller_1996, D, Do, rho, mu, m, subtype=t if name in ALIAS.values() or name == real else getattr(fm, real), **o)
            eps = .5 * (orif() + nozz()) if real == "MILLER_CONICAL_ORIFICE" else orif()
        elif real == "LONG_RADIUS_NOZZLE":
            C, eps = attempt(fm.C_long_radius_nozzle, D=D, Do=Do, rho=rho, mu=mu, m=m), nozz()
        elif real == "ISA_1932_NOZZLE":
            C, eps = attempt(fm.C_ISA_1932_nozzle, D=D, Do=Do, rho=rho, mu=mu, m=m), nozz()
        elif real == "VENTURI_NOZZLE":
            C, eps = attempt(fm.C_venturi_nozzle, D=D, Do=Do), nozz()
        elif real in ("AS_CAST_VENTURI_TUBE", "MACHINED_CONVERGENT_VENTURI_TUBE", "ROUGH_WELDED_CONVERGENT_VENTURI_TUBE"):
            C, eps = (True, {"AS": .984, "MA": .995, "RO": .985}[real[:2]]), nozz()
        elif real == "CONE_METER":
            C, eps = (True, .82), fm.cone_meter_expansibility_Stewart(D=D, Dc=Do, P1=P1, P2=P2, k=k)
        elif real == "WEDGE_METER":
            C, eps = attempt(fm.C_wedge_meter_ISO_5167_6_2017, D=D, H=Do), nozz(beta=fm.diameter_ratio_wedge_meter(D=D, H=Do))
        elif real == "HOLLINGSHEAD_WEDGE":
            eps = nozz(beta=fm.diameter_ratio_wedge_meter(D=D, H=Do))
        elif real == "HOLLINGSHEAD_CONE":
            eps = fm.cone_meter_expansibility_Stewart(D=D, Dc=Do, P1=P1, P2=P2, k=k)
        elif real == "HOLLINGSHEAD_ORIFICE":
            eps = orif()
        else:
            eps = nozz()
        if C is not None and not C[0]:
            need(not a[0], "%s %r gives %r, the coefficient's own function raises %s" % (what, o, a[1], C[1]))
            continue
        need(a[0], "%s %r raised %s" % (what, o, a[1]))
        if C is not None:
            expect(a[1][0], C[1], 1e-12, 0, "%s %r: discharge coefficient" % (what, o))
        else:
            need(.5 < a[1][0] < 1.2 or m < 1, "%s: discharge coefficient %r" % (what, a[1][0]))
        expect(a[1][1], eps, 1e-12, 0, "%s %r: expansibility" % (what, o))
        b = fm.differential_pressure_meter_C_epsilon(meter_type=t, C_specified=.612, epsilon_specified=.97, **kw, **o)
        need(tuple(b) == (.612, .97), "%s %r with both specified: %r" % (what, o, b))
        b = fm.differential_pressure_meter_C_epsilon(meter_type=t, C_specified=.612, **kw, **o)
        need(b[0] == .612 and b[1] == a[1][1], "%s %r with C specified: %r" % (what, o, b))
        b = fm.differential_pressure_meter_C_epsilon(meter_type=t, epsilon_specified=.97, **kw, **o)
        need(b[0] == a[1][0] and b[1] == .97, "%s %r with epsilon specified: %r" % (what, o, b))
        outs.append(a[1])
    if not outs:
        return TRIVIAL
    for bad in BADS:
        refused(fm.differential_pressure_meter_C_epsilon, kw, bad, "meter_type", what)
    return outs


# ------------------------------------------------------------------- small
SIEVES = ("ISO 3310-1", "ISO 3310-1 R20", "ISO 3310-1 R20/3", "ISO 3310-1 R40/3", "ISO 3310-1 R10", "ASTM E11")


def small(which):
    if which == "K_separator_Watkins":
        f, kw, names, p = sep.K_separator_Watkins, dict(x=.88, rhol=985.4, rhog=1.3), ("spline", "branan", "blackwell"), "method"
    else:
        f, kw, names, p = psd.psd_spacing, dict(d_min=1e-6, d_max=1e-3, pts=8), ("logarithmic", "linear") + SIEVES, "method"
    outs = []
    for n in names:
        ok, r = attempt(f, **kw, **{p: n})
        need(ok, "%s with %s=%r raised %s" % (which, p, n, r))
        outs.append(r)
    need(f(**kw) == outs[0], "%s default" % which)
    if which == "psd_spacing":
        for o in outs[2:]:
            need(o and o == sorted(o) and kw["d_min"] <= o[0] and o[-1] <= kw["d_max"], "psd_spacing by sieves: %r" % o)
        for n in ("R5", "R10", "R20", "R40", "r10"):
            up, dn = f(d_min=1e-6, pts=8, method=n), f(d_max=1e-3, pts=8, method=n)
            for i in range(8):
                expect(up[i], 1e-6 * 10 ** (i / float(n[1:])), 1e-12, 0, "psd_spacing %s" % n)
                expect(dn[7 - i], 1e-3 * 10 ** (-i / float(n[1:])), 1e-12, 0, "psd_spacing %s" % n)
    for b in ("bad", "Spline", "lin"):
        ok, r = attempt(f, **dict(kw, **{p: b}))
        need(not ok and r == "ValueError", "%s with %s=%r: %r instead of a ValueError" % (which, p, b, r))
    return outs


def near(vals):
    out = []
    for v in vals:
        out += [v * (1 - 1e-9), v, v * (1 + 1e-9)]
    return out


def spaces(tier):
    q = tier == "quick"
    res = sorted(set(near([2040.0, 3e3, 4e3, 5e3, 5245.0, 1e4, 1e7, 5e7, 1e8, 1.5e8, 4e8]) + [1.0, 500.0, 2e3, 2.5e3, 3.5e3, 2e4, 1e5, 1e6, 3e6, 2e9] + ([] if q else [10 ** (1 + .25 * i) for i in range(36)])))
    eds = sorted(set([0.0] + near([1e-7, 1e-6, 1e-5, 4e-5, 1e-3, 1e-2, 4e-2, 5e-2]) + [1e-8, 1e-4, .02, .06]))
    drs = sorted(set(near([.01, .1, .3, 1e3, 5e4, 118300.0, 1.5e5, 2e5, 212963.26847812787, 1e6]) + [1e-4, .003, .05, .2, 1.0, 7.0, 30.0, 100., 300.0, 700., 3e3, 1e4, 3e4, 1.7e5, 3e5, 5e5, 2e6] + ([] if q else [10 ** (-3 + .1 * i) for i in range(92)])))
    bases = [(.6, .1, 915.0, .05, 1.0, 0.0), (.6, .9, 915.0, .05, 2.5, 1e-4), (.01, .3, 1150.0, .008, 1.0, 1e-6)] + ([] if q else [(3.0, .5, 700.0, .2, 100.0, 1e-5), (.002, .02, 1000., .002, .1, 0.0), (20., .99, 500., .3, 1., 5e-4)])
    subsets = [c for n in range(8) for c in itertools.combinations(T_OPT, n)]
    vsub = [c for n in range(8) for c in itertools.combinations(V_OPT, n)]
    xs = (.001, .1, .4, .73, .97) if q else (.001, .01, .05, .1, .2, .4, .6, .73, .9, .97, .999)
    return [
        Space("pipe friction", lambda: list(itertools.product(res, eds)), lambda a: pipe(*a)),
        Space("pipe friction, unknown names", lambda: list(itertools.product((100.0, 2039.9, 2040.0, 1e5), BADS + ("haaland", "Serghides", "Ergun"))), lambda a: pipe_bad(*a)),
        Space("curved pipes", lambda: list(itertools.product((.01, .3, .9, 1 - 1e-9, 1.0, 1 + 1e-9, 1.3, 4.0, 10.0, 50.0), (.01, .1), (5.0, 20.0, 80.0, 200.0, 900.0) if q else (3.0, 5.0, 10., 20.0, 40., 80.0, 119., 121., 200.0, 900.0, 5000.), (0.0, 1e-5), tuple(CURV_REC))), lambda a: curved(*a)),
        Space("sphere drag", lambda: drs, sphere),
        Space("terminal velocity", lambda: list(itertools.product((1e-6, 1e-5, 7e-5, 3e-4, 2e-3, 1e-2) if q else (1e-6, 3e-6, 1e-5, 3e-5, 7e-5, 1.5e-4, 3e-4, 7e-4, 2e-3, 5e-3, 1e-2), (50.0, 2200.0, 8000.0), (1e-5, 1.78e-5, 1e-3))), lambda a: settle(*a)),
        Space("packed bed", lambda: list(itertools.product((8e-4, 5e-3), (.26, .4, .6), (1e-4, 1e-3, .1), (1.2, 1000.0), (1e-5, 1e-3), (1.0, .4), (None, .01, .3), (None, 1.0, .6))), lambda a: bed(*a)),
        Space("two phase pressure drop", lambda: list(itertools.product(bases, subsets)), lambda a: two(*a)),
        Space("voidage", lambda: [(x, r, g, h, gr, an) for x in xs for r, g in ((800.0, 2.5), (1000.0, 1.2), (600.0, 40.0)) for h in vsub for gr, an in (((None, None), (3.7, 30.0)) if len(h) > 3 else ((None, None),))], lambda a: void(*a)),
        Space("two phase viscosity", lambda: list(itertools.product(xs + (0.0, 1.0), (1e-3, 1e-4), (1e-5, 2e-5), (None, 850.0), (None, 1.2, 30.0))), lambda a: visc(*a)),
        Space("fittings", lambda: [(n, i) for n in FIT for i in range(len(FIT[n][1]))], lambda a: fitting(a[0], FIT[a[0]][1][a[1]])),
        Space("differential pressure meters", lambda: list(itertools.product(meters(), (.25, .4, .5, .6, .72), (.05, .15, .4), (.05, 1.0, 8.0), (.001, .02, .2))), lambda a: meter(*a)),
        Space("small dispatchers", lambda: ["K_separator_Watkins", "psd_spacing"], small),
        conform_space("conformance", modules=("friction", "drag", "packed_bed", "two_phase", "two_phase_voidage"), only={"friction.friction_factor_methods", "friction.friction_factor_curved_methods", "friction.friction_factor", "friction.friction_factor_curved", "friction.helical_Re_crit", "drag.drag_sphere_methods", "drag.drag_sphere", "packed_bed.dP_packed_bed_methods", "packed_bed.dP_packed_bed", "two_phase.two_phase_dP_methods", "two_phase.two_phase_dP", "two_phase_voidage.liquid_gas_voidage_methods", "two_phase_voidage.liquid_gas_voidage", "two_phase_voidage.gas_liquid_viscosity_methods", "two_phase_voidage.gas_liquid_viscosity"}, cap=400 if q else 4000, tier=tier),
    ]
