"""C38: sphere drag and settling."""
import math

from ..core import Space, Violation, need, expect, attempt, TRIVIAL
from ..conform import conform_space
from ..grid import inv_space
import fluids.drag as d
import rfluids.drag as rd
from fluids.constants import g

RULE = ("every correlation over a Reynolds lattice from 1e-7 to 1e7 with both sides of every regime limit, every settling case of a (diameter, densities, viscosity, method) lattice, "
        "every motion case with initial velocity and time; non-trivial when a velocity or coefficient is returned")
ASSUMPTIONS = ["terminal velocities are demanded up to a Reynolds number of 3e5 (the drag crisis) inside the correlation's range; above it, and where the reviewed solver is known to give up (it raises), no answer is demanded, but a wrong one is a violation",
               "odeint's default absolute accuracy (5e-8 m/s) is granted",
               "falling spheres (particle denser than fluid), as documented",
               "the reference trajectory is integrated independently (classical Runge-Kutta of order four with step doubling) on the reference model's drag curve"]
M = list(rd.drag_sphere_correlations)


def table():
    a, b = d.drag_sphere_correlations, rd.drag_sphere_correlations
    need(set(a) == set(b), "correlations differ")
    for k in b:
        need(tuple(a[k][1:]) == tuple(b[k][1:]), "range of %s is %r, published %r" % (k, a[k][1:], b[k][1:]))
    return len(a)


def listing(Re, check):
    got = d.drag_sphere_methods(Re, check) if check is not None else d.drag_sphere_methods(Re)
    want = [k for k, v in rd.drag_sphere_correlations.items() if check is False or ((v[1] is None or Re > v[1]) and (v[2] is None or Re < v[2]))]
    need(sorted(got) == sorted(want), "drag_sphere_methods(%r, %r) = %r, expected %r" % (Re, check, got, want))
    return len(got)


def cd(name, Re):
    f = getattr(d, name)
    rf = getattr(rd, name)
    ok, got = attempt(f, Re)
    ok2, want = attempt(rf, Re)
    need(ok == ok2, "%s(%r): %r, published formula %r" % (name, Re, got, want))
    if not ok:
        return TRIVIAL
    if isinstance(want, complex):
        return TRIVIAL
    expect(got, want, 1e-9, 1e-300, "%s(%r)" % (name, Re))
    expect(d.drag_sphere(Re, name), want, 1e-9, 1e-300, "drag_sphere(%r, %r)" % (Re, name))
    lo, hi = rd.drag_sphere_correlations[name][1:]
    if Re > (lo or 0) and Re < min(hi, 3e5) and Re > 1e-3:
        need(0 < got < 1e6, "%s(%r) = %r" % (name, Re, got))
        ref = rd.drag_sphere(Re)
        need(0.4 < got / ref < (8 if name == "Engelund_Hansen" else 2.5), "%s(%r) = %r, far from the standard drag curve %r" % (name, Re, got, ref))
    return got


def default(Re):
    got = d.drag_sphere(Re)
    want = rd.drag_sphere(Re)
    expect(got, want, 1e-9, 0, "drag_sphere(%r)" % Re)
    if Re < 0.01:
        expect(got, 24 / Re, 1e-12, 0, "creeping flow")
    need(got > 0.05, "drag coefficient %r" % got)
    # continuous everywhere: a relative step of 1e-6 in Re changes the coefficient by at most 1e-5 or the jump documented at the switch
    up = d.drag_sphere(Re * (1 + 1e-7))
    need(abs(up / got - 1) < 1e-5, "drag curve jumps from %r to %r at Re=%r" % (got, up, Re))
    for bad in ("nothing", "stokes", ""):
        ok, r = attempt(d.drag_sphere, Re, bad)
        need(not ok and r == "ValueError", "method %r gave %r" % (bad, r))
    return got


def terminal(D, rhop, rho, mu, m):
    if rhop <= rho:
        return TRIVIAL
    what = "v_terminal(D=%r, rhop=%r, rho=%r, mu=%r, Method=%r)" % (D, rhop, rho, mu, m)
    vs = g * D * D * (rhop - rho) / (18 * mu)
    Res = rho * vs * D / mu
    ok, v = attempt(d.v_terminal, D, rhop, rho, mu, m)
    if Res < 0.01 or m == "Stokes":
        need(ok, what + " raised %r" % v)
        expect(v, vs, 1e-12, 0, what)
        return v
    W = 4 / 3.0 * g * D * (rhop - rho) / rho
    if not ok:
        if not attempt(rd.v_terminal, D, rhop, rho, mu, m)[0]:
            return TRIVIAL            # the solver is known to give up here (it says so)
        lo, hi = (None, None) if m is None else rd.drag_sphere_correlations[m][1:]
        a, b = 1e-4 * vs, vs * 2
        fb = lambda V: V * V * rd.drag_sphere(rho * V * D / mu, m) - W
        for k in range(60):
            V = a * (b / a) ** (k / 59.0)
            Re = rho * V * D / mu
            if max(0.02, 1.5 * (lo or 0)) < Re < min(3e5, 0.7 * (hi or 1e9)):
                Vn = a * (b / a) ** ((k + 1) / 59.0)
                if fb(V) <= 0 <= fb(Vn):
                    raise Violation(what + " raised %r although the balance is met near Re=%.4g" % (v, Re))
        return TRIVIAL
    need(isinstance(v, float) and v > 0, what + " = %r" % (v,))
    Re = rho * v * D / mu
    expect(v * v * rd.drag_sphere(Re, m), W, 2e-6, 0, what + ": drag against weight")
    if m is None:
        need(v <= vs * 1.0000001, what + " exceeds Stokes")
        expect(d.v_terminal(D=D, rhop=rhop, rho=rho, mu=mu), v, 1e-12, 0, "default method")
    return v


def rk(f, V, t, n):
    h = t / n
    x = 0.0
    for _ in range(n):
        k1 = f(V)
        k2 = f(V + h / 2 * k1)
        k3 = f(V + h / 2 * k2)
        k4 = f(V + h * k3)
        x += h * V + h * h / 6 * (k1 + k2 + k3)
        V += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
    return V, x


def motion(D, rhop, rho, mu, V0, tf, m):
    """tf in units of the relaxation time"""
    if rhop <= rho:
        return TRIVIAL
    vt = rd.v_terminal(D, rhop, rho, mu, m)
    V0 = V0 * vt
    tau = vt / (g * (rhop - rho) / rhop)
    t = tf * tau
    what = "integrate_drag_sphere(D=%r, rhop=%r, rho=%r, mu=%r, t=%r, V=%r, Method=%r" % (D, rhop, rho, mu, t, V0, m)
    V = d.integrate_drag_sphere(D=D, rhop=rhop, rho=rho, mu=mu, t=t, V=V0, Method=m)
    V2, x = d.integrate_drag_sphere(D=D, rhop=rhop, rho=rho, mu=mu, t=t, V=V0, Method=m, distance=True)
    expect(V2, V, 1e-5, 1e-9 * vt + 5e-8, what + "): with and without distance")
    c = rho * D / mu
    G = g * (rhop - rho) / rhop
    lam = (m == "Stokes") or (m is None and c * V0 < 0.01 and c * vt < 0.01)

    def f(U):
        if lam:
            return G - 18 * mu / (D * D * rhop) * U
        return G - (0.75 * rho / (D * rhop) * U * U * rd.drag_sphere(c * U, m) if U else 0.0)
    n = 400
    if tf > 30:
        Vr, xr = rk(f, V0, 30 * tau, 3000)
        xr += Vr * (t - 30 * tau)
    else:
        n = max(400, int(tf * 100))
        Vr, xr = rk(f, V0, t, n)
        Vr2, xr2 = rk(f, V0, t, 2 * n)
        if abs(Vr2 - Vr) > 1e-6 * vt:
            Vr, xr = rk(f, V0, t, 16 * n)
            Vr2, xr2 = rk(f, V0, t, 32 * n)
            if abs(Vr2 - Vr) > 1e-5 * vt:
                return TRIVIAL
        Vr, xr = Vr2, xr2
    expect(V, Vr, 2e-5, 2e-6 * vt + 5e-8, what + ")")
    expect(x, xr, 2e-4, 2e-5 * vt * t + 5e-8 * t + 1e-3 * abs(V0 - vt) * t * (0.2 if tf <= 30 else 1), what + ", distance=True)")
    if tf >= 40 and (lam or c * vt >= 0.01):      # below Re = 0.01 v_terminal is Stokes's whatever the method
        expect(V, vt, 3e-5, 5e-8, what + "): long-time velocity against the terminal velocity")
    if not lam and c * vt < 0.01:
        return V, x
    lo, hi = min(V0, vt), max(V0, vt)
    need(lo * (1 - 1e-5) - 5e-8 <= V <= hi * (1 + 1e-5) + 5e-8, what + ") = %r leaves the interval from the initial to the terminal velocity" % V)
    return V, x


def timeto(D, rhop, rho, mu, V0, tol):
    vt = g * D * D * (rhop - rho) / (18 * mu)
    V0 = V0 * vt
    t = d.time_v_terminal_Stokes(D, rhop, rho, mu, V0, tol) if tol else d.time_v_terminal_Stokes(D, rhop, rho, mu, V0)
    tau = D * D * rhop / (18 * mu)
    need(t > 0, "time %r" % t)
    # tol is the relative closeness actually used; it grows only where it cannot be represented
    left = (V0 - vt) * math.exp(-t / tau) / vt
    used = tol or 1e-14
    need(abs(left) <= max(used, 1e-15) * 70 and t > 0.5 * tau * math.log(abs(V0 / vt - 1) / max(used, 1e-15)) - 3 * tau, "time_v_terminal_Stokes(D=%r, rhop=%r, rho=%r, mu=%r, V0=%r, tol=%r) = %r: velocity is %r of the terminal velocity away" % (D, rhop, rho, mu, V0, tol, t, left))
    if used >= 1e-10:
        expect(t, tau * math.log(abs(1 - V0 / vt) / used), 1e-3, 0, "time to come within %r of the terminal velocity" % used)
        V = d.integrate_drag_sphere(D=D, rhop=rhop, rho=rho, mu=mu, t=t, V=V0, Method="Stokes")
        expect(V, vt * (1 + (used if V0 > vt else -used)), used * 1e-2 + 1e-12, 0, "velocity after that time")
    return t


def spaces(tier):
    q = tier == "quick"
    res = sorted(set(m * 10.0 ** e for e in range(-7, 8) for m in ((1, 2, 5) if q else (1, 1.3, 1.7, 2, 3, 4, 5, 6.5, 8))))
    edges = [0.01, 0.1, 0.3, 1, 10, 20, 100, 260, 1000, 1500, 5000, 10000, 12000, 44000, 50000, 118300, 150000, 200000, 212963.26847812787, 338000, 400000, 1e6]
    res = sorted(set(res + [e * (1 + s) for e in edges for s in (-1e-9, 0, 1e-9, -0.01, 0.01)]))
    Ds = (1e-6, 1e-5, 7e-5, 1e-4, 5e-4, 1e-3, 1e-2, 0.1) if q else (1e-7, 1e-6, 3e-6, 1e-5, 3e-5, 7e-5, 1e-4, 2e-4, 5e-4, 1e-3, 3e-3, 1e-2, 3e-2, 0.1, 1.0)
    props = [(rp, r, mu) for rp in (1.5, 10.0, 1100.0, 2600.0, 8000.0, 2e4) for r in (1.2, 1000.0) for mu in (1.8e-5, 1e-4, 1e-3, 1.0)]
    return [
        Space("ranges", lambda: [0], lambda c: table()),
        Space("listing", lambda: [(r, c) for r in res for c in (True, False, None)], lambda c: listing(*c)),
        Space("correlations", lambda: [(m, r) for m in M for r in res], lambda c: cd(*c)),
        Space("default curve", lambda: [r for r in res if r <= 1e6], default),
        Space("terminal velocity", lambda: [(D, a, b, mu, m) for m in [None] + M for D in Ds for a, b, mu in props], lambda c: terminal(*c)),
        Space("motion", lambda: [(D, a, b, mu, V0, tf, m) for m in [None, "Stokes", "Rouse", "Clift_Gauvin", "Morsi_Alexander"] for D in (1e-6, 5e-5, 5e-4, 3e-3) for a, b, mu in ((2600., 1.2, 1.8e-5), (2600., 1000., 1e-3), (1100., 1000., 1.0))
                                 for V0 in (0.0, 0.3, 2.5) for tf in ((0.05, 1.0, 5.0, 60.0, 2e3) if q else (1e-3, 0.05, .3, 1.0, 2.0, 5.0, 20.0, 60.0, 500.0, 2e3, 1e4))], lambda c: motion(*c), limit=120),
        Space("time to terminal velocity", lambda: [(D, a, b, mu, V0, tol) for D in (1e-7, 1e-6, 5e-5, 1e-2) for a, b, mu in props if a > b for V0 in (0.0, 0.5, 0.99, 1.5, 100.0) for tol in (None, 1e-14, 1e-10, 1e-6, 1e-3)], lambda c: timeto(*c)),
        conform_space("conformance", modules=["drag"], tier=tier),
    ]
