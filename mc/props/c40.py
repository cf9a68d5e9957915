"""C40: open-channel flow, saltation, separators, mixing, filters, jet pumps and vacuum leakage."""
import bisect
import itertools
import math
import random

import fluids
import fluids.filters as fi
import fluids.jet_pump as jp
import fluids.mixing as mx
import fluids.open_flow as of
import fluids.saltation as sa
import fluids.separator as se

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space

RULE = ("every formula over a lattice of its arguments and options with every switch point hit from both sides, against the published form; weir formulas for the same weir against each other; "
        "jet pump: every pair of unknowns x operating points built from the model's own equations; non-trivial when a value is returned")
ASSUMPTIONS = ["positive dimensions, flows and densities", "jet pump answers are judged by the residuals of the two model equations: several roots may exist, and no answer is promised for every state"]
g = 9.80665
lb, ft, psi, inHg, torr, hour = .45359237, .3048, 6894.757293168361, 3386.388640341, 101325 / 760., 3600.0


def near(x):
    return (x * (1 - 1e-9), x * (1 + 1e-9))


def lin(x, xs, ys):
    """piecewise linear, constant outside"""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = bisect.bisect_right(xs, x) - 1
    return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])


# ------------------------------------------------------------------ weirs and channels
def vnotch(h, a):
    C = lin(a, [20, 40, 60, 80, 100], [.59, .58, .575, .575, .58])
    k = lin(a, [20, 40, 60, 80, 100], [.0028, .0017, .0012, .001, .001])
    got = of.Q_weir_V_Shen(h, angle=a)
    expect(got, C * math.tan(math.radians(a) / 2) * math.sqrt(g * (h + k) ** 5), 1e-11, 0, "Q_weir_V_Shen(%r, %r)" % (h, a))
    if a == 90:
        expect(of.Q_weir_V_Shen(h), got, 1e-13, 0, "default angle")
    need(of.Q_weir_V_Shen(h * 1.01, angle=a) > got, "flow over a weir falls as the water rises")
    return got


def weirs(h1, h2, b):
    sg = math.sqrt(g)
    c = 2 * math.sqrt(2) / 3
    R = {
        "Q_weir_rectangular_full_Ackers": .564 * (1 + .15 * h1 / h2) * b * math.sqrt(g * (h1 + .001) ** 3),
        "Q_weir_rectangular_full_SIA": c * (.615 + .000615 / (h1 + .0016)) * b * sg * h1 + .5 * (h1 / (h1 + h2)) ** 2 * b * sg * h1 ** 1.5,
        "Q_weir_rectangular_full_Rehbock": c * (.602 + .0832 * h1 / h2) * b * math.sqrt(g * (h1 + .00125) ** 3),
        "Q_weir_rectangular_full_Kindsvater_Carter": c * (.602 + .075 * h1 / h2) * (b - .001) * math.sqrt(g * (h1 + .001) ** 3),
        "Q_weir_rectangular_Kindsvater_Carter": .554 * (1 - .0035 * h1 / h2) * (b + .0025) * math.sqrt(g * (h1 + .0001) ** 3),
    }
    for n, want in R.items():
        f = getattr(of, n)
        got = f(h1=h1, h2=h2, b=b)
        expect(got, want, 1e-11, 0, "%s(%r, %r, %r)" % (n, h1, h2, b))
        expect(f(h1, h2, b), got, 1e-14, 0, "positional order")
        if b > .1:
            need(f(h1=h1 * 1.01, h2=h2, b=b) > got and f(h1=h1, h2=h2, b=b * 1.01) > got, n + ": flow does not grow with depth and width")
    for r in (.1, .5, .9, 1.0):
        want = .544 * (1 + .064 * r ** 2 + (.00626 - .00519 * r ** 2) / (h1 + .0016)) * (1 + .5 * r ** 4 * (h1 / (h1 + h2)) ** 2) * b * sg * (h1 + h2) ** 1.5
        expect(of.Q_weir_rectangular_SIA(h1=h1, h2=h2, b=b, b1=b / r), want, 1e-11, 0, "Q_weir_rectangular_SIA(%r, %r, %r, b1=%r)" % (h1, h2, b, b / r))
        expect(of.Q_weir_rectangular_SIA(h1, h2, b, b / r), want, 1e-11, 0, "positional order")
    return list(R.values())


def weir_agree(n, h1, h2, b):
    """Discharge coefficients: flow over 2/3 sqrt(2 g) b h^1.5 (or 8/15 sqrt(2 g) tan(angle/2) h^2.5) is 0.57 to 0.75 for every thin-plate weir."""
    base = 2 / 3. * math.sqrt(2 * g) * b * h1 ** 1.5
    if n == "Q_weir_V_Shen":
        q = of.Q_weir_V_Shen(h1, 90) / (8 / 15. * math.sqrt(2 * g) * h1 ** 2.5)
    elif n == "Q_weir_rectangular_SIA":
        q = of.Q_weir_rectangular_SIA(h1, h2, b, 2 * b) / base
    else:
        q = getattr(of, n)(h1, h2, b) / base
    if not .55 < q < .75:
        raise Violation("%s(h1=%r, h2=%r, b=%r): discharge coefficient %r" % (n, h1, h2, b, q), key=n)
    return q


WEIRS = ("Q_weir_rectangular_full_Ackers", "Q_weir_rectangular_full_SIA", "Q_weir_rectangular_full_Rehbock", "Q_weir_rectangular_full_Kindsvater_Carter", "Q_weir_rectangular_Kindsvater_Carter", "Q_weir_rectangular_SIA", "Q_weir_V_Shen")


def channel(Rh, S, n):
    V = of.V_Manning(Rh, S, n)
    expect(V, Rh ** (2 / 3.) * math.sqrt(S) / n, 1e-12, 0, "V_Manning(%r, %r, %r)" % (Rh, S, n))
    C = of.n_Manning_to_C_Chezy(n, Rh)
    expect(of.V_Chezy(Rh, S, C), V, 1e-12, 0, "V_Chezy with the converted coefficient")
    expect(of.V_Chezy(Rh, S, 50.), 50 * math.sqrt(Rh * S), 1e-12, 0, "V_Chezy")
    expect(of.C_Chezy_to_n_Manning(C, Rh), n, 1e-12, 0, "coefficients convert back")
    return V


def manning_tables(_):
    n = 0
    for d in (of.n_natural, of.n_excavated_dredged, of.n_lined_built, of.n_closed_conduit):
        for k, v in d.items():
            for w, t in (v.items() if isinstance(v, dict) else [(k, v)]):
                if isinstance(t, dict):
                    rows = list(t.values())
                else:
                    rows = [t]
                for r in rows:
                    lo, mid, hi = r
                    need(.005 < lo <= mid <= hi <= .5, "roughness range %r of %s, %s" % (r, k, w))
                    n += 1
    return n


# ------------------------------------------------------------------ saltation
def salt(mp, rhop, dp, rhog, D, Vt):
    A = math.pi / 4 * D * D
    lnFr = lambda V: math.log(V / math.sqrt(g * D))
    ld = lambda V: math.log(mp / (rhog * V * A))          # solids loading at saltation
    a = dict(mp=mp, rhop=rhop, dp=dp, rhog=rhog, D=D)
    outs = []

    def zero(name, V, res):
        need(V > 0 and math.isfinite(V), "%s(%r, Vterminal=%r) = %r" % (name, a, Vt, V))
        need(abs(res) < 1e-9 * (1 + abs(ld(V)) + 10 * abs(lnFr(V))), "%s(%r, Vterminal=%r) = %r leaves %r in its equation" % (name, a, Vt, V, res))
        outs.append(V)
    al, be = 1440 * dp + 1.96, 1100 * dp + 2.5
    V = sa.Rizk(mp=mp, dp=dp, rhog=rhog, D=D)
    zero("Rizk", V, ld(V) + al * math.log(10) - be * lnFr(V))
    expect(sa.Rizk(mp, dp, rhog, D), V, 1e-14, 0, "Rizk positionally")
    Frp = Vt / math.sqrt(g * dp)
    l10 = math.log(10)
    V = sa.Matsumoto_1974(Vterminal=Vt, **a)
    zero("Matsumoto_1974", V, ld(V) - (math.log(.448) + .5 * math.log(rhop / rhog) - 1.75 * (math.log(Frp) - l10) + 3 * (lnFr(V) - l10)))
    V = sa.Matsumoto_1975(Vterminal=Vt, **a)
    zero("Matsumoto_1975", V, ld(V) - (math.log(1.11) + .55 * math.log(rhop / rhog) - 2.3 * (math.log(Frp) - l10) + 3 * (lnFr(V) - l10)))
    V = sa.Matsumoto_1977(Vterminal=Vt, **a)
    lim = 1.39 * D * (rhop / rhog) ** -.74
    if abs(dp / lim - 1) > 1e-12:
        if dp > lim:
            zero("Matsumoto_1977", V, ld(V) - (math.log(.373) + 1.06 * math.log(rhop / rhog) - 3.7 * (math.log(Frp) - l10) + 3.61 * (lnFr(V) - l10)))
        else:
            zero("Matsumoto_1977", V, ld(V) - (math.log(5560) + 1.43 * math.log(dp / D) + 4 * (lnFr(V) - l10)))
    V = sa.Schade(**a)
    zero("Schade", V, lnFr(V) - (.11 * ld(V) + .025 * math.log(D / dp) + .34 * math.log(rhop / rhog)))
    V = sa.Weber_saltation(Vterminal=Vt, **a)
    zero("Weber_saltation", V, lnFr(V) - (math.log(7 + 8 / 3. * Vt if Vt <= 3 else 15.) + .25 * ld(V) + .1 * math.log(dp / D)))
    for f, d in ((sa.Matsumoto_1974, 1), (sa.Matsumoto_1975, 1), (sa.Matsumoto_1977, 1), (sa.Weber_saltation, 4)):
        expect(f(mp, rhop, dp, rhog, D), f(Vterminal=d, **a), 1e-14, 0, "%s: default terminal velocity" % f.__name__)
    # more solids need more gas
    for f, k in ((sa.Schade, a), (sa.Weber_saltation, a), (sa.Matsumoto_1974, a), (sa.Matsumoto_1975, a), (sa.Matsumoto_1977, a), (sa.Rizk, {x: y for x, y in a.items() if x != "rhop"})):
        need(f(**dict(k, mp=mp * 1.05)) > f(**k), "%s does not grow with the solids rate" % f.__name__)
    return outs


def geldart(x, D, rhog, mug):
    """x = Gs/D"""
    Gs = x * D
    mp = Gs * math.pi / 4 * D * D
    got = sa.Geldart_Ling(mp, rhog, D, mug)
    c = (1.5, .465, -.01) if mp / (math.pi / 4 * D * D) / D <= 47000 else (8.7, .302, .153)
    if abs(x / 47000 - 1) < 1e-13:
        return TRIVIAL
    expect(got, c[0] * Gs ** c[1] * D ** c[2] * mug ** .055 / rhog ** .42, 1e-11, 0, "Geldart_Ling(%r, %r, %r, %r)" % (mp, rhog, D, mug))
    return got


# ------------------------------------------------------------------ separators
def watkins(X, rl, rg):
    """X: the abscissa ml/mg sqrt(rhog/rhol)"""
    r = X / math.sqrt(rg / rl)
    x = 1 / (1 + r)
    y = math.log(X)
    p = {"blackwell": [-1.877478097, -.81145804597, -.1870744085, -.0145228667, -.00101148518], "branan": [-1.942936, -.814894, -.17939, -.012379, .000386235, .00025955]}
    out = {}
    for m, c in p.items():
        got = se.K_separator_Watkins(x, rl, rg, method=m)
        expect(got, math.exp(sum(k * y ** i for i, k in enumerate(c))) * ft, 1e-9, 0, "K_separator_Watkins(%r, %r, %r, method=%r)" % (x, rl, rg, m))
        out[m] = got
    s = se.K_separator_Watkins(x, rl, rg)
    expect(se.K_separator_Watkins(x, rl, rg, method="spline"), s, 1e-13, 0, "the spline is the default")
    if .01 <= X <= 3:
        need(abs(s / out["blackwell"] - 1) < .12, "K_separator_Watkins: graph %r, Blackwell's fit %r at X=%r" % (s, out["blackwell"], X))
    for m in ("spline", "blackwell", "branan"):
        a = se.K_separator_Watkins(x, rl, rg, method=m)
        expect(se.K_separator_Watkins(x, rl, rg, horizontal=True, method=m), 1.25 * a, 1e-12, 0, "horizontal separators")
        expect(se.K_separator_Watkins(x, rl, rg, horizontal=False, method=m), a, 1e-13, 0, "vertical separators")
    ok, e = attempt(se.K_separator_Watkins, x, rl, rg, method="other")
    need(not ok and e == "ValueError", "unknown method: %r" % e)
    return s, out


def york(p):
    """p in psi"""
    got = se.K_separator_demister_York(p * psi)
    if p < 15:
        q = max(p, 1)
        want = .1821 + .0029 * q + .046 * math.log(q)
    elif p < 40:
        want = .35
    else:
        want = .43 - .023 * math.log(min(p, 5500))
    if min(abs(p / b - 1) for b in (15, 40)) < 1e-12:
        return TRIVIAL
    expect(got, want * ft, 1e-9, 0, "K_separator_demister_York(%r psi)" % p)
    expect(se.K_separator_demister_York(p * psi, horizontal=True), want * ft * 1.25, 1e-9, 0, "horizontal")
    need(.05 < got < .12, "K %r" % got)
    return got


def souders(D, Cd, rl, rg, gg):
    K = se.K_Souders_Brown_theoretical(D, Cd) if gg is None else se.K_Souders_Brown_theoretical(D, Cd, g=gg)
    G = g if gg is None else gg
    v = se.v_Souders_Brown(K, rl, rg)
    # the drop's weight less buoyancy is its drag
    W = math.pi / 6 * D ** 3 * (rl - rg) * G
    F = Cd * math.pi / 4 * D * D * rg * v * v / 2
    expect(F, W, 1e-10, 0, "drag on a drop of %r m at the Souders-Brown velocity %r" % (D, v))
    expect(se.v_Souders_Brown(2 * K, rl, rg), 2 * v, 1e-12, 0, "proportional to K")
    return v


# ------------------------------------------------------------------ mixing
def agit(N, P, T, H, mu, rho, D, hom):
    a = dict(N=N, P=P, T=T, H=H, mu=mu, rho=rho)
    d = D if D else T / 2
    Np = P * g / (rho * N ** 3 * d ** 5)
    Re = rho * N * d * d / mu
    rc = Np ** (1 / 3.) * Re
    if abs(rc / 6370 - 1) < 1e-9:
        return TRIVIAL
    Fo = 5.2 / rc if rc >= 6370 else (183 / rc) ** 2
    t95 = Fo * rho * T ** 1.5 * H ** .5 / mu
    want = t95 * math.log(1 - hom) / math.log(.05)
    kw = dict(a)
    if D is not None:
        kw["D"] = D
    expect(mx.agitator_time_homogeneous(homogeneity=hom, **kw), want, 1e-9, 0, "agitator_time_homogeneous(%r, homogeneity=%r)" % (kw, hom))
    expect(mx.agitator_time_homogeneous(**kw), t95, 1e-9, 0, "default homogeneity")
    expect(mx.adjust_homogeneity(hom) * math.log(.05), math.log1p(-hom), 1e-12, 0, "adjust_homogeneity(%r)" % hom)
    return want


def grenville(Np, N, T, D, mu, rho):
    """Turbulent mixing time of an impeller of known power number: N t (D/T)^2 (T/H)^0.5 Np^(1/3) = 5.2 (Grenville)."""
    P = Np * rho * N ** 3 * D ** 5
    t = mx.agitator_time_homogeneous(N=N, P=P, T=T, H=T, mu=mu, rho=rho, D=D)
    q = N * t * (D / T) ** 2 * Np ** (1 / 3.)
    if Np ** (1 / 3.) * rho * N * D * D / mu < 6370:
        return TRIVIAL
    if abs(q / 5.2 - 1) > 1e-6:
        raise Violation("agitator_time_homogeneous: N t (D/T)^2 Np^(1/3) = %r for a power number of %r" % (q, Np), key="power number")
    return q


def ribbon(D, c, h, nb, pitch, w, N):
    T = D * (1 + 2 * c)
    K = mx.Kp_helical_ribbon_Rieger(D=D, h=h * D, nb=nb, pitch=pitch * D, width=w * D, T=T)
    expect(K, 82.8 * h * c ** -.38 * pitch ** -.35 * w ** .2 * nb ** .78, 1e-10, 0, "Kp_helical_ribbon_Rieger")
    t = mx.time_helical_ribbon_Grenville(K, N)
    expect(t, 896e3 / K ** 1.69 / N, 1e-11, 0, "time_helical_ribbon_Grenville")
    return K, t


def tee(Q1, Q2, D, D2, n, L):
    kw = dict(Q1=Q1, Q2=Q2, D=D, D2=D2, n=n)
    d2 = D2 if D2 is not None else (Q2 / Q1) ** (2 / 3.) * D
    v = (Q2 / d2 ** 2) / (Q1 / D ** 2)
    B = (n * d2 / D * v) ** 2
    E0, B0, p = {1: (1.33, .7, 1), 2: (1.44, .8, 1.5), 3: (1.75, .8, 1.8), 4: (1.97, 2., 2)}[n]
    if abs(B / B0 - 1) < 1e-9:
        return TRIVIAL
    E = E0 + (.95 * math.log(B / B0) ** p if B > B0 else 0)
    want = math.sqrt(.32 * B ** -.86 * L ** -E)
    got = mx.size_tee(pipe_diameters=L, **kw)
    expect(got, want, 1e-9, 0, "size_tee(%r, pipe_diameters=%r)" % (kw, L))
    if L == 5:
        expect(mx.size_tee(**kw), got, 1e-13, 0, "default length")
    if n == 1:
        expect(mx.size_tee(Q1, Q2, D, D2, pipe_diameters=L), got, 1e-13, 0, "default number of streams")
    need(mx.size_tee(pipe_diameters=L * 2, **kw) < got, "a longer pipe mixes less")
    ok, e = attempt(mx.size_tee, Q1, Q2, D, D2, n=n + 4, pipe_diameters=L)
    need(not ok and e == "ValueError", "%d side streams: %r" % (n + 4, e))
    return got


def motionless(Ki, Q1, Q2, L, K, fd):
    c = Q2 / (Q1 + Q2)
    got = mx.COV_motionless_mixer(Ki, Q1, Q2, L)
    expect(got, math.sqrt(Q1 / Q2) * Ki ** L, 1e-10, 0, "COV_motionless_mixer(%r, %r, %r, %r)" % (Ki, Q1, Q2, L))
    expect(mx.COV_motionless_mixer(Ki, Q1, Q2, 0.0), math.sqrt((1 - c) / c), 1e-11, 0, "unmixed")
    expect(mx.K_motionless_mixer(K, L, .3, fd), K * L / .3 * fd, 1e-12, 0, "K_motionless_mixer")
    return got


# ------------------------------------------------------------------ filters
THETA = [0, 10, 20, 30, 40, 50, 60, 70, 80, 85]
GAMMA = [1, .97, .88, .75, .59, .45, .3, .23, .15, .09]


def screens(alpha, Re, ang):
    beta = lin(Re, [20, 30, 40, 60, 80, 100, 200, 400], [1.3, 1.1, .95, .83, .75, .7, .6, .52])
    f = 1.0 if ang is None else math.cos(math.radians(ang)) ** 2 if ang <= 45 else lin(ang, THETA, GAMMA)
    got = fi.round_edge_screen(alpha, Re, angle=ang)
    expect(got, beta * (1 / alpha ** 2 - 1) * f, 1e-10, 1e-13, "round_edge_screen(%r, %r, %r)" % (alpha, Re, ang))
    if ang == 0:
        expect(fi.round_edge_screen(alpha, Re), got, 1e-13, 0, "default angle")
    return got


def meshes(alpha, ang):
    out = []
    for s, (a, b) in {"round bar screen": (.95, .2), "diamond pattern wire": (.67, 1.3), "knotted net": (.7, 4.9), "knotless net": (.72, 2.1)}.items():
        u = 1 - alpha
        f = 1.0 if ang is None else math.cos(math.radians(ang)) ** 2 if ang < 45 else lin(ang, THETA, GAMMA)
        got = fi.round_edge_open_mesh(alpha, subtype=s, angle=ang)
        expect(got, (a * u + b * u * u) * f, 1e-10, 1e-14, "round_edge_open_mesh(%r, %r, %r)" % (alpha, s, ang))
        if ang == 0:
            expect(fi.round_edge_open_mesh(alpha, subtype=s), got, 1e-13, 0, "default angle")
            if s.startswith("diamond"):
                expect(fi.round_edge_open_mesh(alpha), got, 1e-13, 0, "default subtype")
        out.append(got)
    ok, e = attempt(fi.round_edge_open_mesh, alpha, subtype="wire")
    need(not ok and e == "ValueError", "unknown subtype: %r" % e)
    return out


def grills(alpha, l, Dh, fd):
    base = (.5 * (1 - alpha) + 1 - alpha ** 2) / alpha ** 2
    fric = 0.0
    if None not in (l, Dh, fd) and l > 50 * Dh:
        fric = fd * l / Dh / alpha ** 2
    got = fi.square_edge_grill(alpha, l=l, Dh=Dh, fd=fd)
    expect(got, base + fric, 1e-10, 1e-13, "square_edge_grill(%r, %r, %r, %r)" % (alpha, l, Dh, fd))
    r = fi.round_edge_grill(alpha, l=l, Dh=Dh, fd=fd)
    expect(r - fi.round_edge_grill(alpha), fric, 1e-9, 1e-10, "round_edge_grill: friction part")
    if l is None and .3 <= alpha <= .7:
        tab = {.3: 2.0, .4: 1.0, .5: .6, .6: .4, .7: .2}
        if alpha in tab:
            expect(r, tab[alpha], 1e-6, 0, "round_edge_grill(%r)" % alpha)
        lo = lin(alpha, sorted(tab), [tab[k] for k in sorted(tab)])
        need(abs(r - lo) < .15, "round_edge_grill(%r) = %r far from the table" % (alpha, r))
    return got, r


# ------------------------------------------------------------------ vacuum leakage
def leak(V, Pv):
    """Pv: depth of vacuum below atmospheric, torr"""
    P = 101325.0 - Pv * torr
    v = V / ft ** 3
    out = []
    if min(abs(Pv / b - 1) for b in (10, 100, 1, 3, 20, 90)) > 1e-7:
        w = (.026 * Pv ** .34 if Pv < 10 else .032 * Pv ** .26 if Pv < 100 else .106) * v ** .6
        got = jp.vacuum_air_leakage_Ryans_Croll(V, P)
        expect(got, w * lb / hour, 1e-7, 0, "vacuum_air_leakage_Ryans_Croll(%r, %r)" % (V, P))
        out.append(got)
        c = [(.6667235169997174, -3.71246576520232), (.664489357445796, -3.0147277548691274), (.6656780453394583, -2.34007321331419), (.663080000739313, -1.9278288516732665), (.6658471905826482, -1.6641585778506027)]
        k = c[bisect.bisect_left([1, 3, 20, 90], Pv)]
        got = jp.vacuum_air_leakage_HEI2633(V, P)
        expect(got, math.exp(k[1] + k[0] * math.log(max(v, 10))) * lb / hour, 1e-7, 0, "vacuum_air_leakage_HEI2633(%r, %r)" % (V, P))
        out.append(got)
    L = math.log(Pv)
    got = jp.vacuum_air_leakage_Seider(V, P)
    expect(got, (5 + (.0289 + .03088 * L - .0005733 * L * L) * v ** .66) * lb / hour, 1e-7, 0, "vacuum_air_leakage_Seider(%r, %r)" % (V, P))
    out.append(got)
    # a different atmosphere: only the difference counts
    for f in (jp.vacuum_air_leakage_Ryans_Croll, jp.vacuum_air_leakage_Seider, jp.vacuum_air_leakage_HEI2633):
        if min(abs(Pv / b - 1) for b in (10, 100, 1, 3, 20, 90)) > 1e-7:
            expect(f(V, P + 5e4, P_atm=151325.0), f(V, P), 1e-6, 0, "%s: depth of vacuum" % f.__name__)
    return out


def coker(d):
    """d: vacuum, inches of mercury"""
    P = 101325.0 - d * inHg
    if min(abs(d / b - 1) for b in (3, 5, 8)) < 1e-7:
        return TRIVIAL
    i = bisect.bisect_left([3, 5, 8], d)
    for cons, t in ((True, (20, 25, 30, 40)), (False, (10, 20, 25, 30))):
        expect(jp.vacuum_air_leakage_Coker_Worthington(P, conservative=cons), t[i] * lb / hour, 1e-9, 0, "vacuum_air_leakage_Coker_Worthington(%r, conservative=%r)" % (P, cons))
        expect(jp.vacuum_air_leakage_Coker_Worthington(P + 1e4, P_atm=111325.0, conservative=cons), t[i] * lb / hour, 1e-9, 0, "other atmosphere")
    expect(jp.vacuum_air_leakage_Coker_Worthington(P), (20, 25, 30, 40)[i] * lb / hour, 1e-9, 0, "default")
    return i


# ------------------------------------------------------------------ jet pump
def state(rhop, rhos, K, dn, R, a, M, Qp, P2, ret):
    Kp, Ks, Km, Kd = K
    dm = dn / math.sqrt(R)
    dd = dm / math.sqrt(a)
    C = rhos / rhop
    An = math.pi / 4 * dn * dn
    v = Qp / An
    P1 = P2 + rhop / 2 * v * v * (1 + Kp - C * (1 + Ks) * (M * R / (1 - R)) ** 2)
    # momentum and energy, in units of the nozzle velocity head
    s = M * R / (1 - R)
    mom = 2 * R + 2 * C * M * M * R * R / (1 - R) - R * R * (1 + C * M) * (1 + M) * (1 + Km + Kd + a * a)
    num = mom - C * s * s * (1 + Ks)
    den = 1 + Kp - mom + (C * s * s * (1 - Ks) if ret else 0.0)
    N = num / den
    P5 = (N * P1 + P2) / (1 + N)
    return dict(d_nozzle=dn, d_mixing=dm, d_diffuser=dd, Qp=Qp, Qs=M * Qp, P1=P1, P2=P2, P5=P5), N


def model_res(st, rhop, rhos, K, ret):
    """(energy residual over P1-P2, N residual) of a full state"""
    R = (st["d_nozzle"] / st["d_mixing"]) ** 2
    a = (st["d_mixing"] / st["d_diffuser"]) ** 2
    M = st["Qs"] / st["Qp"]
    t, N = state(rhop, rhos, K, st["d_nozzle"], R, a, M, st["Qp"], st["P2"], ret)
    e = (st["P1"] - t["P1"]) / (t["P1"] - t["P2"])
    return e, (st["P5"] - st["P2"]) / (st["P1"] - st["P5"]) - N, N


VARS = ("d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5")


def jet_states():
    for rhop, rhos in ((998., 1098.), (998., 900.), (1000., 1000.)):
        for K in ((0., .1, .15, .1), (.05, .2, .1, .15)):
            for R in (.15, .3, .5, .62):
                for a in (1e-4, .2):
                    for M in (.2, .6, 1.2):
                        for ret in (True, False):
                            yield rhop, rhos, K, .0238, R, a, M, .01, 133600., ret


def ancillary(p):
    rhop, rhos, K, dn, R, a, M, Qp, P2, ret = p
    st, N = state(*p)
    Kp, Ks, Km, Kd = K
    if st["P1"] <= st["P2"]:
        return TRIVIAL
    vs = ("d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2")
    base = dict(rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks)
    n = 0
    for v in vs:
        kw = {k: st[k] for k in vs if k != v}
        ok, got = attempt(jp.liquid_jet_pump_ancillary, **base, **kw)
        need(ok, "liquid_jet_pump_ancillary for %s at %r raised %s" % (v, st, got))
        full = dict(st, **{v: got})
        need(full["d_nozzle"] < full["d_mixing"], "liquid_jet_pump_ancillary for %s at %r gave %r: the nozzle is wider than the mixing chamber" % (v, st, got))
        e = model_res(full, rhop, rhos, K, ret)[0]
        need(abs(e) < 1e-6, "liquid_jet_pump_ancillary for %s at %r gave %r, which leaves %r in the energy balance" % (v, st, got, e))
        expect(got, st[v], 1e-5, 0, "liquid_jet_pump_ancillary for %s at %r" % (v, st))
        n += 1
    for given in ([], list(vs), list(vs[:4]), list(vs[2:])):
        ok, e = attempt(jp.liquid_jet_pump_ancillary, **base, **{k: st[k] for k in given})
        need(not ok and e == "ValueError", "liquid_jet_pump_ancillary given %s: %r" % (given, e))
    return n


def jet_pair(u, v):
    """one pair of unknowns over all the states: every answer solves the equations, and answers are found"""
    solved = tried = 0
    for p in jet_states():
        rhop, rhos, K, dn, R, a, M, Qp, P2, ret = p
        Kp, Ks, Km, Kd = K
        st, N = state(*p)
        if not (st["P1"] > st["P5"] > st["P2"] and N > .02):
            continue
        tried += 1
        random.seed(tried)
        kw = {k: st[k] for k in VARS if k not in (u, v)}
        ok, r = attempt(jp.liquid_jet_pump, rhop=rhop, rhos=rhos, Kp=Kp, Ks=Ks, Km=Km, Kd=Kd, d_diffuser=st["d_diffuser"], nozzle_retracted=ret, max_variations=8, **kw)
        if not ok:
            need(r in ("ValueError", "ZeroDivisionError", "UnconvergedError"), "liquid_jet_pump without %s, %s at %r raised %s" % (u, v, st, r))
            continue
        solved += 1
        what = "liquid_jet_pump without %s, %s at %r: %r" % (u, v, st, r)
        for k in kw:
            expect(r[k], st[k], 1e-12, 0, what + ": %s was given" % k)
        expect(r["d_diffuser"], st["d_diffuser"], 1e-12, 0, what)
        if any(isinstance(r[k], float) and not math.isfinite(r[k]) for k in VARS):
            continue                        # "no solution": the square root of a negative number
        e, n, Nm = model_res(r, rhop, rhos, K, ret)
        need(abs(e) < 2e-4 and abs(n) < 2e-4, what + " leaves (%r, %r) in the equations" % (e, n))
        expect(r["N"], (r["P5"] - r["P2"]) / (r["P1"] - r["P5"]), 1e-6, 1e-9, what + ": N")
        expect(r["M"], r["Qs"] / r["Qp"], 1e-6, 0, what + ": M")
        expect(r["R"], (r["d_nozzle"] / r["d_mixing"]) ** 2, 1e-6, 0, what + ": R")
        expect(r["alpha"], (r["d_mixing"] / r["d_diffuser"]) ** 2, 1e-6, 0, what + ": alpha")
        expect(r["efficiency"], r["M"] * r["N"], 1e-6, 1e-9, what + ": efficiency")
    need(tried > 20, "no operating points")
    need(solved >= .5 * tried, "liquid_jet_pump without %s, %s: %d of %d operating points solved" % (u, v, solved, tried))
    return solved, tried


def jet_subsets(given):
    st, N = state(998., 1098., (0., .1, .15, .1), .0238, .3, 1e-4, .6, .01, 133600., True)
    ok, r = attempt(jp.liquid_jet_pump, rhop=998., rhos=1098., d_diffuser=st["d_diffuser"], **{k: st[k] for k in given})
    if len(given) == 5:
        return TRIVIAL
    need(not ok and r == "ValueError", "liquid_jet_pump given %s: %r" % (given, r))
    return len(given)


def spaces(tier):
    T = tier == "thorough"
    hs = [.02, .05, .1, .3, .6, 1.2]
    angs = [10, 20, 30, 40, 45, 50, 60, 75, 80, 90, 95, 100, 110]
    sb = [x for b in (15, 40, 1, 5500) for x in near(b)]
    salts = list(itertools.product((.01, 1.0, 20.), (700., 1580., 2600.), (5e-5, 3e-4, 1e-3, 4e-3), (1.2, 5., 20.), (.02, .1026, .5), (.5, 2.9999, 3.0, 3.0001, 3.24, 8.)))
    screenA = [None, 0, 10, 30, 44.9999, 45, 45.0001, 50, 57, 60, 70, 80, 84, 85, 88]
    M = ("open_flow", "saltation", "separator", "mixing", "filters", "jet_pump")
    S = [
        Space("V-notch", lambda: [(h, a) for h in hs for a in angs], lambda c: vnotch(*c)),
        Space("rectangular weirs", lambda: list(itertools.product(hs, (.1, .5, 1.0, 3.0), (.05, .5, 1.0, 4.0))), lambda c: weirs(*c)),
        Space("weir discharge coefficients", lambda: list(itertools.product(WEIRS, (.05, .1, .2, .4), (1.0, 2.0), (1.0, 2.0))), lambda c: weir_agree(*c)),
        Space("channels", lambda: list(itertools.product((.01, .2859, 1., 5.), (1e-5, 1e-3, .02), (.01, .013, .03, .1))), lambda c: channel(*c)),
        Space("channel tables", lambda: [0], manning_tables),
        Space("saltation", lambda: salts, lambda c: salt(*c)),
        Space("Geldart-Ling", lambda: list(itertools.product((1e2, 1e4, 46999.9, 47000.1, 5e4, 1e6), (.02, .1, .5), (1.2, 20.), (1.8e-5, 1e-4))), lambda c: geldart(*c)),
        Space("Watkins", lambda: list(itertools.product((.007, .01, .02, .05, .1, .3, .7, 1., 1.5, 2., 3., 4.), (600., 985.4), (1.3, 20.))), lambda c: watkins(*c)),
        Space("York", lambda: [.1, .5, 1.0001, 3., 10., 14.9] + [15., 20., 39.] + [40.5, 100., 1000., 5499., 6000., 1e5] + sb, york),
        Space("Souders-Brown", lambda: list(itertools.product((1e-5, 1.5e-4, 1e-3), (.44, .613, 5.), (500., 985.4), (1.3, 60.), (None, 1.62))), lambda c: souders(*c)),
        Space("agitators", lambda: list(itertools.product((.2, .6667, 3.), (10., 957., 1e5), (.3, 1.83, 5.), (.5, 1.83, 8.), (1e-3, .018, 1.0, 50.), (800., 1020.), (None, .61), (.5, .9, .95, .995))), lambda c: agit(*c)),
        Space("agitator constant", lambda: list(itertools.product((.3, 1.27, 5.), (.6667, 3.), (1.0, 1.83), (.3, .6), (1e-3,), (1020.,))), lambda c: grenville(*c)),
        Space("ribbons", lambda: list(itertools.product((.5, 1.9), (.02, .05, .1), (.9, 1.05, 1.2), (1, 2), (.5, 1., 1.5), (.05, .1, .2), (.1, 1.))), lambda c: ribbon(*c)),
        Space("tees", lambda: list(itertools.product((1., 11.7), (.05, .3, 1., 2.74), (.3, .762), (None, .05, .1, .2, .5), (1, 2, 3, 4), (1., 5, 20.))), lambda c: tee(*c)),
        Space("motionless mixers", lambda: list(itertools.product((.1, .33, .87), (1., 11.7), (.1, 2.74), (1., 4.74, 10.), (4.5, 150.), (.01, .05))), lambda c: motionless(*c)),
        Space("screens", lambda: list(itertools.product((.2, .5, .9, 1.0), (5., 20., 25., 40., 50., 70., 90., 100., 150., 300., 400., 1e4), screenA)), lambda c: screens(*c)),
        Space("meshes", lambda: list(itertools.product((.85, .9, .96, .999, 1.0), screenA)), lambda c: meshes(*c)),
        Space("grills", lambda: list(itertools.product((.3, .35, .4, .45, .5, .6, .65, .7), (None, .1, .4999, .5001, 1.), (None, .01), (None, .0185))), lambda c: grills(*c)),
        Space("vacuum leakage", lambda: list(itertools.product((.01, .2, .3, 10., 200.), (.3, .9, 1.1, 2., 2.9, 3.1, 9.99, 10.01, 19., 21., 89., 91., 99.9, 100.1, 400., 750.))), lambda c: leak(*c)),
        Space("rough leakage", lambda: [.5, 2.9999, 3.0001, 4., 4.9999, 5.0001, 7., 7.9999, 8.0001, 20., 29.], coker),
        Space("jet pump energy balance", lambda: list(jet_states()), ancillary),
        Space("jet pump", lambda: list(itertools.combinations(VARS, 2)), lambda c: jet_pair(*c), limit=240),
        Space("jet pump, given subsets", lambda: [tuple(c) for n in range(8) for c in itertools.combinations(VARS, n)], jet_subsets, limit=60),
        conform_space("conformance", modules=M, tier=tier),
    ]
    return S
