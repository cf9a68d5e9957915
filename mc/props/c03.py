"""C03: solvers for several unknowns, fixed-point accelerators and minimizers under monitors."""
import itertools
import math

import numpy as np

from ..core import Space, Violation, need, expect, attempt, close, TRIVIAL
import fluids.numerics as fn

RULE = ("every (system, start, option) combination of the declared families, with every evaluation counted; non-trivial when a point is "
        "returned")
ASSUMPTIONS = ["Systems are well posed: the Jacobian is nonsingular at the listed solutions."]
e = math.exp


def lin(A, b):
    n = len(b)
    return (lambda x: [sum(A[i][j] * x[j] for j in range(n)) - b[i] for i in range(n)], lambda x: [list(map(float, r)) for r in A])


def tri(x):
    n = len(x)
    r = []
    for i in range(n):
        v = (3.0 - 0.5 * x[i]) * x[i] - 1.0
        if i:
            v -= 0.3 * x[i - 1]
        if i + 1 < n:
            v -= 0.4 * x[i + 1]
        r.append(v)
    return r


def trij(x):
    n = len(x)
    J = [[0.0] * n for _ in range(n)]
    for i in range(n):
        J[i][i] = 3.0 - x[i]
        if i:
            J[i][i - 1] = -0.3
        if i + 1 < n:
            J[i][i + 1] = -0.4
    return J


A1, b1 = [[4.0]], [10.0]
A2, b2 = [[3.0, 1.0], [-1.0, 2.0]], [5.0, 3.0]
A3, b3 = [[5.0, 1.0, -1.0], [2.0, 6.0, 1.0], [1.0, -2.0, 7.0]], [4.0, 9.0, -6.0]
A4, b4 = [[6.0, 1.0, 0.0, -1.0], [0.0, 5.0, 2.0, 1.0], [1.0, 1.0, 7.0, 0.0], [-2.0, 0.0, 1.0, 8.0]], [1.0, -2.0, 10.0, 4.0]
Z3, zb3 = [[0.0, 2.0, 1.0], [3.0, 0.0, 1.0], [1.0, 1.0, 0.0]], [3.0, 4.0, 2.0]      # zero diagonal: pivoting needed
# name -> f, J, starts from which full Newton steps converge
SYS = {
    "lin1": lin(A1, b1) + ([[0.0], [7.0], [2.5]],),
    "lin2": lin(A2, b2) + ([[0.0, 0.0], [10.0, -3.0]],),
    "lin3": lin(A3, b3) + ([[0.0, 0.0, 0.0], [1.0, -2.0, 30.0]],),
    "lin4": lin(A4, b4) + ([[0.0] * 4, [5.0, 4.0, 3.0, 2.0]],),
    "zlin3": lin(Z3, zb3) + ([[0.5, 0.0, -1.0], [4.0, 4.0, 1.0]],),
    "circle": (lambda x: [x[0] ** 2 + x[1] ** 2 - 4.0, x[0] - x[1]], lambda x: [[2 * x[0], 2 * x[1]], [1.0, -1.0]],
               [[1.0, 1.5], [3.0, 0.5], [-1.0, -2.0], [1.4, 1.4]]),
    "exp2": (lambda x: [e(x[0]) + x[1] - 2.0, x[0] + e(-x[1]) - 1.5], lambda x: [[e(x[0]), 1.0], [1.0, -e(-x[1])]],
             [[0.5, 0.1], [0.7, 0.2], [0.3, 0.8]]),
    "tri3": (tri, trij, [[0.5] * 3, [0.0, 0.2, 0.9]]),
    "tri4": (tri, trij, [[0.5] * 4]),
    "sqrt1": (lambda x: [x[0] ** 2 - 2.0], lambda x: [[2 * x[0]]], [[1.0], [5.0], [-3.0]]),
}


class Cnt:
    def __init__(self, f):
        self.f, self.n, self.last, self.lastx, self.argseen = f, 0, None, None, set()

    def __call__(self, x, *args):
        self.n += 1
        self.argseen.add(args)
        self.lastx = [float(v) for v in x]
        self.last = self.f(x)
        return self.last


def n2(v):
    return math.sqrt(sum(float(i) ** 2 for i in v))


def n1(v):
    return sum(abs(float(i)) for i in v)


def tol_check(what, f, x, xtol, ytol, strict=1.0):
    r = [float(v) for v in f([float(i) for i in x])]
    if xtol is not None:
        need(n2(r) <= xtol * strict * (1 + 1e-9), "%s returned %r, residual norm %.3g > xtol %.3g" % (what, x, n2(r), xtol))
    if ytol is not None:
        need(n1(r) <= ytol * strict * (1 + 1e-9), "%s returned %r, residual sum %.3g > ytol %.3g" % (what, x, n1(r), ytol))


SOLVE = {"py": None, "numpy": lambda A, b: np.linalg.solve(np.array(A), np.array(b)).tolist()}
TOLS = [(1e-9, None), (None, 1e-9), (1e-9, 1e-8), (1e-3, None), (None, 1e-3), (1e-3, 1e-9), (1e-9, 1.0)]
NOPT = ["plain", "ls", "lsprog", "check", "armijo", "damp.7", "damp1.2", "dfun", "jacalso", "numpy", "direct", "all"]


def direct_for(n):
    return {2: fn.solve_2_direct, 3: fn.solve_3_direct, 4: fn.solve_4_direct}.get(n)


def newton_case(c):
    name, i, tol, opt, args, maxiter, point = c
    f, J, starts = SYS[name]
    x0 = list(starts[i])
    keep = list(x0)
    mon = Cnt(f)
    mj = Cnt(J)
    xtol, ytol = tol
    kw = dict(xtol=xtol, ytol=ytol, maxiter=maxiter, args=args)
    ok_rate = True
    jac = mj
    func = mon
    if opt in ("ls", "lsprog", "armijo", "all"):
        kw["line_search"] = True
    if opt in ("lsprog", "all"):
        kw["require_progress"] = True
    if opt in ("check", "all"):
        kw["check_numbers"] = True
    if opt in ("armijo", "all"):
        kw["Armijo"] = True
    if opt == "damp.7":
        kw["damping"] = 0.7
    if opt == "damp1.2":
        kw["damping"] = 1.2
    if opt == "dfun":
        calls = []

        def dfun(x, dx, damping, *a):
            calls.append((damping, a))
            return [u + v * damping for u, v in zip(x, dx)]
        kw["damping_func"] = dfun
    if opt == "jacalso":
        func = Cnt(lambda x: (f(x), J(x)))
        jac = True
    if opt == "numpy":
        kw["solve_func"] = SOLVE["numpy"]
    if opt == "direct":
        d = direct_for(len(x0))
        if d is None:
            return TRIVIAL
        kw["solve_func"] = d
    if point:
        kw["with_point"] = True
    try:
        res = fn.newton_system(func, x0, jac, **kw)
    except fn.UnconvergedError:
        if maxiter >= 100:
            raise Violation("newton_system(%s, %s, %s) did not converge" % (name, keep, opt))
        return "!unconverged"
    except ValueError:
        # no progress is possible from an exact solution
        if kw.get("require_progress") and n1(f(keep)) == 0.0:
            return TRIVIAL
        raise
    need(x0 == keep, "newton_system changed its starting point to %r" % (x0,))
    need(len(res) == (4 if point else 2), "newton_system returned %d items" % len(res)) if not (len(res) == 2 and res[0] is x0) else None
    x, it = res[0], res[1]
    what = "newton_system(%s, %s, %s)" % (name, keep, opt)
    tol_check(what, f, x, xtol, ytol)
    need(it <= maxiter, "%s: %d iterations of %d" % (what, it, maxiter))
    need(func.argseen == {args}, "%s: the function received %r instead of %r" % (what, func.argseen, args))
    if jac is mj and mj.n:
        need(mj.argseen == {args}, "%s: the Jacobian received %r instead of %r" % (what, mj.argseen, args))
    if opt == "dfun":
        need(all(a == args for _, a in calls), "%s: damping_func received %r" % (what, calls))
    if point and len(res) == 4:
        need(all(close(float(u), float(v), 1e-12, 1e-15) for u, v in zip(res[2], f(x))), "%s: with_point residual %r, f(x) = %r" % (what, res[2], f(x)))
    if opt in ("plain", "jacalso", "numpy", "direct", "dfun") and name.startswith(("lin", "zlin")) and maxiter >= 100:
        need(it <= 3 and func.n <= 3, "%s: %d iterations, %d evaluations for a linear system" % (what, it, func.n))
    return [round(float(v), 6) for v in x]


def newton_cases():
    for name in SYS:
        for i in range(len(SYS[name][2])):
            for tol in TOLS:
                for opt in NOPT:
                    for args in ((), (1.5, "a")):
                        for maxiter in (100, 3):
                            for point in (False, True):
                                yield name, i, tol, opt, args, maxiter, point


# Newton steps: damped iterates are exactly x + damping*dx
def step_case(c):
    name, i, damping, ls = c
    f, J, starts = SYS[name]
    x0 = list(starts[i])
    seen = []

    def g(x, *a):
        seen.append(list(map(float, x)))
        return f(x)
    try:
        fn.newton_system(g, list(x0), J, xtol=1e-13, maxiter=2, damping=damping, line_search=ls)
    except fn.UnconvergedError:
        pass
    if len(seen) < 2:
        return TRIVIAL
    dx = np.linalg.solve(np.array(J(x0)), -np.array(f(x0)))
    want = [u + damping * v for u, v in zip(x0, dx)]
    need(all(close(u, v, 1e-9, 1e-10) for u, v in zip(seen[1], want)), "first damped Newton iterate %r, expected %r" % (seen[1], want))
    return seen[1]


def step_cases():
    for name in SYS:
        for i in range(len(SYS[name][2])):
            for d in (1.0, 0.5, 0.25, 1.3):
                for ls in (False, True):
                    yield name, i, d, ls


# --- functions for which full Newton steps diverge: line search must still deliver
HARD = {
    "atan": (lambda x: [math.atan(x[0] - 1.0)], lambda x: [[1 / (1 + (x[0] - 1.0) ** 2)]], [[4.0], [-30.0], [1.5]]),
    "noroot": (lambda x: [x[0] ** 2 + 1.0], lambda x: [[2 * x[0]]], [[0.5], [3.0]]),
    "incons": (lambda x: [x[0] ** 2 + x[1] ** 2 + 1.0, x[0] - x[1]], lambda x: [[2 * x[0], 2 * x[1]], [1.0, -1.0]], [[1.0, 0.5]]),
    "nanbelow": (lambda x: [x[0] ** 0.5 - 1.0 if x[0] >= 0 else float("nan")], lambda x: [[0.5 * x[0] ** -0.5 if x[0] > 0 else float("nan")]], [[9.0], [0.5]]),
    "raises": (lambda x: [math.log(x[0]) - 1.0], lambda x: [[1 / x[0]]], [[1.0], [9.0], [2.0]]),
    "atan2": (lambda x: [math.atan(x[0]) + 0.1 * x[1], x[1] - 0.5], lambda x: [[1 / (1 + x[0] ** 2), 0.1], [0.0, 1.0]], [[3.0, 1.0], [-8.0, 0.0]]),
}


def hard_case(c):
    name, i, tol, opt, maxiter = c
    f, J, starts = HARD[name]
    x0 = list(starts[i])
    kw = dict(xtol=tol[0], ytol=tol[1], maxiter=maxiter)
    if opt & 1:
        kw["line_search"] = True
    if opt & 2:
        kw["require_progress"] = True
    if opt & 4:
        kw["check_numbers"] = True
    if opt & 8:
        kw["Armijo"] = True
    ok, r = attempt(fn.newton_system, f, x0, J, **kw)
    if not ok:
        need(not (name in ("atan", "atan2") and kw.get("line_search") and maxiter >= 100 and opt in (1, 3, 5)), "newton_system with line search failed on %s from %s: %s" % (name, x0, r))
        return "!" + r
    tol_check("newton_system(%s, %s, options %d)" % (name, x0, opt), f, r[0], tol[0], tol[1])
    return [round(float(v), 6) for v in r[0]]


def hard_cases():
    for name in HARD:
        for i in range(len(HARD[name][2])):
            for tol in TOLS:
                for opt in range(16):
                    for maxiter in (100, 5):
                        yield name, i, tol, opt, maxiter


# --------------------------------------------------- homotopy, broyden, minimize
def homotopy_case(c):
    name, i, step, damping, args = c
    f, J, starts = SYS[name]
    x0 = list(starts[i])
    keep = list(x0)
    mon, mj = Cnt(f), Cnt(J)
    ok, r = attempt(fn.homotopy_solver, mon, x0, mj, lambd_step=step, damping=damping, args=args)
    need(x0 == keep, "homotopy_solver changed its starting point")
    if not ok:
        need(r == "UnconvergedError" and damping < 1.0, "homotopy_solver(%s, %s) raised %s" % (name, keep, r))
        return "!" + r
    tol_check("homotopy_solver(%s, %s)" % (name, keep), f, r[0], 1e-10, None)
    need(mon.argseen == {args} and mj.argseen <= {args}, "homotopy_solver passed %r" % (mon.argseen,))
    return [round(float(v), 6) for v in r[0]]


def homotopy_cases():
    for name in SYS:
        for i in range(len(SYS[name][2])):
            for step in (0.1, 0.25, 1.0, 0.3):
                for damping in (1.0, 0.9):
                    for args in ((), (2.0,)):
                        yield name, i, step, damping, args


def broyden_case(c):
    name, i, xtol, mode, maxiter, args = c
    f, J, starts = SYS[name]
    x0 = list(starts[i])
    keep = list(x0)
    mon = Cnt(f)
    J0 = J(x0)
    Jkeep = [list(r) for r in J0]
    if mode == "fun":
        jac = Cnt(lambda x: (f(x), [list(r) for r in Jkeep]))
    else:
        jac = Cnt(lambda x: J0)
    try:
        x, it = fn.broyden2(x0, mon, jac, xtol=xtol, maxiter=maxiter, jac_has_fun=mode == "fun", skip_J=mode == "skip", args=args)
    except OverflowError:
        if mode == "skip":        # diverging iteration without a Jacobian: raised
            return "!overflow"
        raise
    need(x0 == keep, "broyden2 changed its starting point")
    need(J0 == Jkeep, "broyden2 changed the Jacobian it was given")
    r = f(x)
    what = "broyden2(%s, %s, %s)" % (name, keep, mode)
    need(it <= maxiter, "%s: %d iterations" % (what, it))
    need(n1(r) <= xtol or it == maxiter, "%s returned %r, residual %.3g > %.3g after %d of %d iterations" % (what, x, n1(r), xtol, it, maxiter))
    if mode != "skip" and maxiter >= 100 and not (name in ("circle", "sqrt1") and i == 1):
        need(n1(r) <= xtol, "%s did not converge (%.3g)" % (what, n1(r)))
    need(mon.argseen <= {args} and jac.argseen <= {args}, "%s passed %r" % (what, mon.argseen))
    return [round(float(v), 5) for v in x] if n1(r) <= xtol else "!limit"


def broyden_cases():
    for name in SYS:
        for i in range(len(SYS[name][2])):
            for xtol in (1e-7, 1e-11, 1e-2):
                for mode in ("jac", "fun", "skip"):
                    for maxiter in (100, 2, 0):
                        for args in ((), (3.0,)):
                            yield name, i, xtol, mode, maxiter, args


# scalar objectives: value, gradient, Hessian
MIN = {
    "quad2": (lambda x: (x[0] - 1.0) ** 2 + 2 * (x[1] + 2.0) ** 2 + x[0] * x[1], lambda x: [2 * (x[0] - 1) + x[1], 4 * (x[1] + 2) + x[0]],
              lambda x: [[2.0, 1.0], [1.0, 4.0]], [[0.0, 0.0], [5.0, 5.0], [-3.0, 1.0]], [16 / 7.0, -18 / 7.0]),
    "quad1": (lambda x: 3 * (x[0] - 4.0) ** 2 + 1.0, lambda x: [6 * (x[0] - 4.0)], lambda x: [[6.0]], [[0.0], [4.0], [9.0]], [4.0]),
    "quad3": (lambda x: (x[0] - 1) ** 2 + (x[1] - 2) ** 2 + (x[2] + 1) ** 2, lambda x: [2 * (x[0] - 1), 2 * (x[1] - 2), 2 * (x[2] + 1)],
              lambda x: [[2.0, 0, 0], [0, 2.0, 0], [0, 0, 2.0]], [[3.0, 1.0, 1.0], [0.5, 0.5, 0.5]], [1.0, 2.0, -1.0]),
    "cosh": (lambda x: math.cosh(x[0] - 1.0) + (x[1] + x[0]) ** 2, lambda x: [math.sinh(x[0] - 1.0) + 2 * (x[0] + x[1]), 2 * (x[0] + x[1])],
             lambda x: [[math.cosh(x[0] - 1.0) + 2, 2.0], [2.0, 2.0]], [[0.5, 0.0], [1.5, -2.0]], [1.0, -1.0]),
    "quartic": (lambda x: (x[0] - 1) ** 4 + (x[0] - 1) ** 2, lambda x: [4 * (x[0] - 1) ** 3 + 2 * (x[0] - 1)], lambda x: [[12 * (x[0] - 1) ** 2 + 2]],
                [[0.0], [3.0], [1.2]], [1.0]),
}


def nmin_case(c):
    name, i, tol, mode, damping, maxiter, args = c
    f, g, h, starts, sol = MIN[name]
    x0 = list(starts[i])
    keep = list(x0)
    if mode == "sep":
        m, jac, hess = Cnt(f), Cnt(g), Cnt(h)
    elif mode == "jac":
        m, jac, hess = Cnt(lambda x: (f(x), g(x))), True, Cnt(h)
    else:
        m, jac, hess = Cnt(lambda x: (f(x), g(x), h(x))), True, True
    ok, r = attempt(fn.newton_minimize, m, x0, jac, hess, xtol=tol[0], ytol=tol[1], maxiter=maxiter, damping=damping, args=args)
    need(x0 == keep, "newton_minimize changed its starting point")
    if not ok:
        need(r == "UnconvergedError" and (maxiter < 100 or None not in tol), "newton_minimize(%s, %s) raised %s" % (name, keep, r))
        return "!" + r
    x, it = r
    need(it <= maxiter, "newton_minimize: %d iterations" % it)
    G = g(x)
    # either tolerance ends the iteration, both are checked on return
    if tol[0] is not None:
        need(n2(G) <= tol[0], "newton_minimize(%s): gradient %.3g > xtol" % (name, n2(G)))
    if tol[1] is not None:
        need(n1(G) <= tol[1], "newton_minimize(%s): gradient %.3g > ytol" % (name, n1(G)))
    need(m.argseen == {args}, "newton_minimize passed %r" % (m.argseen,))
    if max(t for t in tol if t is not None) <= 1e-8:
        need(all(close(u, v, 1e-7, 1e-7) for u, v in zip(x, sol)), "newton_minimize(%s) = %r, minimum at %r" % (name, x, sol))
    return [round(v, 5) for v in x]


def nmin_cases():
    for name in MIN:
        for i in range(len(MIN[name][3])):
            for tol in ((1e-9, None), (None, 1e-9), (1e-9, 1e-9), (1e-3, None)):
                for mode in ("sep", "jac", "all"):
                    for damping in (1.0, 0.8):
                        for maxiter in (100, 2):
                            for args in ((), (1.0,)):
                                yield name, i, tol, mode, damping, maxiter, args


def nm_case(c):
    name, i, xtol, ftol, adaptive, bounds, args, maxiter, simplex = c
    f, g, h, starts, sol = MIN[name]
    x0 = list(starts[i])
    N = len(x0)
    keep = list(x0)
    lo = hi = None
    if bounds & 1:
        lo = [min(x0[k], sol[k]) - 3.0 for k in range(N)]
    if bounds & 2:
        hi = [max(x0[k], sol[k]) + 3.0 for k in range(N)]
    active = bounds & 4
    if active:
        lo = [sol[k] + 0.5 if x0[k] > sol[k] + 0.5 else min(x0[k], sol[k]) - 3.0 for k in range(N)]
    vals = []

    def m(x, *a):
        need(a == args, "nelder_mead passed the arguments %r instead of %r" % (a, args))
        need(len(x) == N, "nelder_mead evaluated a point with %d coordinates" % len(x))
        if len(vals) > N:
            for k in range(N):
                need((lo is None or x[k] >= lo[k]) and (hi is None or x[k] <= hi[k]), "nelder_mead evaluated %r outside [%r, %r]" % (x, lo, hi))
        y = f(x)
        vals.append((y, list(x)))
        return y
    kw = {}
    if simplex:
        kw["initial_simplex"] = sx = [list(x0)] + [[x0[k] + (1.0 if k == j else 0.0) for k in range(N)] for j in range(N)]
        sxk = [list(v) for v in sx]
    x, y, it = fn.nelder_mead(m, x0, args=args, xtol=xtol, ftol=ftol, adaptive=adaptive, low=lo, high=hi, maxiter=maxiter, **kw)
    need(x0 == keep, "nelder_mead changed its starting point")
    if simplex:
        need(sx == sxk, "nelder_mead changed the initial simplex")
    what = "nelder_mead(%s, %s)" % (name, keep)
    need(it <= maxiter, "%s: %d iterations" % (what, it))
    need(f(x) == y, "%s returned the value %r at %r where the function is %r" % (what, y, x, f(x)))
    need(y <= min(v for v, _ in vals[:N + 1]), "%s returned %r, its first points reached %r" % (what, y, min(v for v, _ in vals[:N + 1])))
    best = min(v for v, _ in vals)
    need(y == best, "%s returned the value %r although it evaluated %r" % (what, y, best))
    if maxiter >= 400 and xtol <= 1e-6 and not active and not bounds:
        # a simplex method may stop early on a symmetric pair of points; the criterion is both sizes
        need(y - f(sol) <= 1e-6 * (1 + abs(f(sol))), "%s = %r (value %r), minimum %r at %r" % (what, x, y, f(sol), sol))
    if active and maxiter >= 400 and lo is not None:
        need(all(x[k] >= lo[k] for k in range(N)) , "%s: %r below %r" % (what, x, lo))
    return [round(v, 3) for v in x]


def nm_cases():
    for name in MIN:
        for i in range(len(MIN[name][3])):
            for xtol in (1e-4, 1e-7):
                for adaptive in (False, True):
                    for bounds in (0, 1, 2, 3, 4):
                        for args in ((), (7.0, 2)):
                            for maxiter in (100, 600, 4):
                                for simplex in (False, True):
                                    yield name, i, xtol, xtol, adaptive, bounds, args, maxiter, simplex


def sort_case(c):
    fs = list(c)
    sim = [[float(i), -float(i)] for i in range(len(fs))]
    s2, f2 = fn.sort_nelder_mead_points_python(sim, list(fs))
    need(f2 == sorted(fs), "sorted values %r" % (f2,))
    need(sorted(map(tuple, s2)) == sorted(map(tuple, sim)), "points lost: %r" % (s2,))
    for p, v in zip(s2, f2):
        need(fs[int(p[0])] == v, "point %r carries the value %r" % (p, v))
    s3, f3 = fn.sort_nelder_mead_points_numba(np.array(sim), np.array(fs, float))
    need(f3.tolist() == sorted(fs), "numpy sorted values %r" % (f3,))
    for p, v in zip(s3.tolist(), f3.tolist()):
        need(fs[int(p[0])] == v, "point %r carries the value %r" % (p, v))
    return f2


# ------------------------------------------------------------------ fixed points
# residual form: f(x) = x - g(x) with contraction g
def aff(M, c):
    n = len(c)
    return lambda x: [sum(M[i][j] * x[j] for j in range(n)) + c[i] for i in range(n)]


FP = {
    "aff1": (aff([[0.5]], [3.0]), [[0.0], [6.0], [40.0]]),
    "aff1n": (aff([[-0.6]], [3.2]), [[0.5], [10.0]]),
    "aff2": (aff([[0.4, 0.2], [-0.1, 0.5]], [1.0, 2.0]), [[1.0, 1.0], [10.0, -4.0]]),
    "aff3": (aff([[0.3, 0.2, 0.1], [0.0, 0.5, -0.2], [0.1, 0.0, 0.6]], [1.0, -2.0, 3.0]), [[1.0, 1.0, 1.0], [5.0, 5.0, -5.0]]),
    "cos": (lambda x: [math.cos(x[0])], [[0.5], [1.4]]),
    "mix": (lambda x: [0.5 * math.cos(x[1]) + 1.0, 0.4 * math.sin(x[0]) + 2.0], [[1.0, 2.0], [3.0, 0.5]]),
    "zero": (aff([[0.5, 0.1], [0.2, 0.4]], [0.0, 0.0]), [[1.0, 2.0]]),
}
RES_SOLVERS = {"fixed_point": fn.fixed_point, "aitken": fn.fixed_point_aitken, "gdem": fn.fixed_point_gdem}


def fp_sol(g, x):
    for _ in range(4000):
        x = g(x)
    return x


def fp_case(c):
    solver, name, i, tol, damping, opt, args, maxiter = c
    g, starts = FP[name]
    x0 = list(starts[i])
    keep = list(x0)
    mon = Cnt(lambda x: [u - v for u, v in zip(x, g(x))])
    kw = dict(xtol=tol[0], ytol=tol[1], damping=damping, maxiter=maxiter, args=args)
    if opt & 1:
        kw["check_numbers"] = True
    if solver != "fixed_point":
        if opt & 2:
            kw["acc_damping"] = 0.5
        if opt & 4:
            kw["acc_frequency"] = 3
        if opt & 8:
            kw["acc_max_change_ratio"] = 0.2
    elif opt & 14:
        return TRIVIAL
    ok, r = attempt(RES_SOLVERS[solver], mon, x0, **kw)
    need(x0 == keep, "%s changed its starting point" % solver)
    what = "%s(%s, %s, damping %g)" % (solver, name, keep, damping)
    if not ok:
        need(r == "UnconvergedError" and (maxiter < 300 or solver != "fixed_point"), "%s raised %s" % (what, r))
        return "!" + r
    x, it = r
    need(it <= maxiter, "%s: %d iterations" % (what, it))
    need(mon.argseen == {args}, "%s passed %r" % (what, mon.argseen))
    R = mon.last
    if tol[0] is not None:
        need(n2(R) <= tol[0], "%s: last residual %.3g > xtol %.3g" % (what, n2(R), tol[0]))
    if tol[1] is not None:
        need(n1(R) <= tol[1], "%s: last residual %.3g > ytol %.3g" % (what, n1(R), tol[1]))
    t = min(v for v in tol if v is not None)
    s = fp_sol(g, list(x0))
    # the contraction factors are at most 0.75; the last step and an acceleration step add a few residuals
    lim = 40 * t
    if solver == "fixed_point":
        need(max(abs(u - v) for u, v in zip(x, s)) <= lim + 1e-12, "%s = %r, fixed point %r" % (what, x, s))
    else:
        last = mon.lastx
        need(max(abs(u - v) for u, v in zip(last, s)) <= lim + 1e-12, "%s: last evaluated point %r, fixed point %r" % (what, last, s))
        need(max(abs(u - v) for u, v in zip(x, s)) <= lim + 1e-12, "%s = %r, fixed point %r" % (what, x, s))
    return [round(v, 5) for v in x]


def fp_cases():
    for solver in RES_SOLVERS:
        for name in FP:
            for i in range(len(FP[name][1])):
                for tol in ((1e-9, None), (None, 1e-9), (1e-9, 1e-8), (1e-3, None), (None, 1e-3)):
                    for damping in (1.0, 0.6):
                        for opt in range(16):
                            for args in ((), (5.0,)):
                                for maxiter in (400, 6):
                                    yield solver, name, i, tol, damping, opt, args, maxiter


def aa_case(c):
    kind, name, i, xtol, window, init, args, maxiter = c
    g, starts = FP[name]
    x0 = list(starts[i])
    keep = list(x0)
    kw = dict(xtol=xtol, maxiter=maxiter, args=args, window_size=window)
    if init is not None:
        kw["initial_iterations"] = init
    if kind == "map":
        if name == "zero" or 0.0 in x0:      # relative steps
            return TRIVIAL
        mon = Cnt(g)
        ok, r = attempt(fn.fixed_point_anderson, mon, x0, **kw)
    else:
        mon = Cnt(lambda x: [u - v for u, v in zip(x, g(x))])
        ok, r = attempt(fn.fixed_point_anderson_residual, mon, x0, **kw)
    need(x0 == keep, "Anderson changed its starting point")
    what = "Anderson %s(%s, %s)" % (kind, name, keep)
    if not ok:
        need(maxiter < 300, "%s raised %s" % (what, r)) if init is None else None
        return "!" + r
    x, it = r
    need(it <= maxiter, "%s: %d iterations" % (what, it))
    need(mon.argseen == {args}, "%s passed %r" % (what, mon.argseen))
    s = fp_sol(g, list(x0))
    need(max(abs(u - v) for u, v in zip(x, s)) <= 60 * xtol * (1 + max(map(abs, s))), "%s = %r, fixed point %r" % (what, x, s))
    return [round(v, 5) for v in x]


def aa_cases():
    for kind in ("map", "res"):
        for name in FP:
            for i in range(len(FP[name][1])):
                for xtol in (1e-7, 1e-10, 1e-4):
                    for window in (1, 2, 5):
                        for init in (None, 2, 6):
                            for args in ((), (4.0, "b")):
                                for maxiter in (400, 5):
                                    yield kind, name, i, xtol, window, init, args, maxiter


def conv_case(c):
    x, args = c
    rec = []

    def g(x, *a):
        rec.append((list(x), a))
        return [2 * v + 1 for v in x]
    for wrap in (fn.fixed_point_to_residual, fn.residual_to_fixed_point):
        del rec[:]
        out = wrap(g)(list(x), *args)
        need(rec == [(list(x), args)], "%s passed %r" % (wrap.__name__, rec))
        need(out == [-(2 * v + 1) for v in x], "%s gives %r" % (wrap.__name__, out))
    d = fn.basic_damping(list(x), [3.0 - v for v in x], 0.25, *args)
    need(all(close(u, v + 0.25 * (3.0 - v), 1e-14) for u, v in zip(d, x)) and len(d) == len(x), "basic_damping gives %r" % (d,))
    return d


def conv_cases():
    for n in (1, 2, 3):
        for x in itertools.product((-1.5, 0.0, 2.0), repeat=n):
            for args in ((), (1.0,)):
                yield x, args


# ------------------------------------------------------------- SolverInterface
ROOTM = ["hybr", "lm", "broyden1", "df-sane", "krylov", "anderson"]
MINM = ["Nelder-Mead", "Powell", "CG", "BFGS", "Newton-CG", "L-BFGS-B", "TNC", "SLSQP", "trust-ncg", "trust-exact"]
PYM = [m for m in fn.python_solvers if m != "newton_minimize" and not m.startswith("fixed_point")]
FPM = [m for m in fn.python_solvers if m.startswith("fixed_point")]
SI_SYS = {
    "lin2": SYS["lin2"], "circle": (SYS["circle"][0], SYS["circle"][1], [[1.3, 1.5]]),
    "lin3": SYS["lin3"], "exp2": (SYS["exp2"][0], SYS["exp2"][1], [[0.5, 0.1]]), "lin1": SYS["lin1"],
    "argsys": (lambda x, a=1.0: [x[0] * a - 2.0, x[1] + x[0] * a - 5.0], lambda x, a=1.0: [[a, 0.0], [a, 1.0]], [[0.3, 0.1]]),
}


def si_case(c):
    method, name, i, jm, objnp, x0np, args = c
    f, J, starts = SI_SYS[name]
    if args and name != "argsys":
        return TRIVIAL
    cnt = [0]
    if objnp:
        def obj(x, *a):
            need(isinstance(x, np.ndarray), "SolverInterface handed %s to a numpy objective" % type(x).__name__)
            cnt[0] += 1
            return np.array(f(x.tolist(), *a))

        def jac(x, *a):
            return np.array(J(x.tolist(), *a))
    else:
        def obj(x, *a):
            need(type(x) is list, "SolverInterface handed %s to a Python objective" % type(x).__name__)
            cnt[0] += 1
            return f(x, *a)

        def jac(x, *a):
            return J(x, *a)
    tight = 1e-9
    kw = {}
    if jm == "analytical":
        kw = dict(jac=jac)
    si = fn.SolverInterface(method, obj, xtol=tight, jacobian_method=jm, objf_numpy=objnp, maxiter=300, jacobian_perturbation=1e-8, **kw)
    x0 = np.array(starts[i]) if x0np else list(starts[i])
    keep = list(starts[i])
    try:
        r = si.solve(x0, args)
    except Violation:
        raise
    except Exception as ex:
        raise Violation("SolverInterface(%s, %s, jacobian %s, numpy objective %s).solve(%s) raised %s: %s" % (method, name, jm, objnp, keep, type(ex).__name__, str(ex)[:150]))
    need(isinstance(r, np.ndarray) == x0np and len(r) == len(keep), "SolverInterface(%s) returned %r for a %s" % (method, r, type(x0).__name__))
    need(list(map(float, x0)) == keep, "SolverInterface changed its starting point")
    res = f([float(v) for v in r], *args)
    lim = 1e-8 if method in PYM + ["hybr"] else 1e-3
    # scipy's line searches may stop early on the noise of a forward difference gradient
    need(n1(res) <= lim * 10 or method in ("CG", "TNC", "Newton-CG") and jm == "python", "SolverInterface(%s, %s, jacobian %s): residual %.3g at %r" % (method, name, jm, n1(res), r))
    total = si.fval_iter + si.jac_fval_count + si.hess_fval_count
    # analytical Jacobians of the minimizers call the objective themselves, uncounted
    if not (method in MINM and jm == "analytical"):
        need(total == cnt[0], "SolverInterface(%s): counted %d evaluations, made %d" % (method, total, cnt[0]))
    first = (si.fval_iter, si.jac_iter, si.jac_fval_count)
    r2 = si.solve(np.array(starts[i]) if x0np else list(starts[i]), args)
    need([float(v) for v in r] == [float(v) for v in r2] and first == (si.fval_iter, si.jac_iter, si.jac_fval_count), "SolverInterface(%s): a second solve gives %r (%r) after %r (%r)"
         % (method, r2, (si.fval_iter, si.jac_iter, si.jac_fval_count), r, first))
    return [round(float(v), 2) for v in r]


def si_cases(tier):
    for method in PYM + ROOTM + MINM:
        for name in SI_SYS:
            for i in range(len(SI_SYS[name][2]) if tier == "thorough" else 1):
                for jm in ("python", "analytical"):
                    for objnp in (False, True):
                        for x0np in (False, True):
                            for args in ((), (2.0,)):
                                yield method, name, i, jm, objnp, x0np, args


def sifp_case(c):
    method, name, i, objnp, x0np, args = c
    g, starts = FP[name]
    cnt = [0]

    def obj(x, *a):
        need(a == args, "objective received %r" % (a,))
        cnt[0] += 1
        out = [v - u for u, v in zip(list(x), g(list(map(float, x))))]
        return np.array(out) if objnp else out
    x0 = np.array(starts[i]) if x0np else list(starts[i])
    si = fn.SolverInterface(method, obj, xtol=1e-8, objf_numpy=objnp, maxiter=400)
    r = si.solve(x0, args)
    s = fp_sol(g, list(starts[i]))
    need(isinstance(r, np.ndarray) == x0np, "SolverInterface(%s) returned %r" % (method, r))
    need(max(abs(float(u) - v) for u, v in zip(r, s)) <= 1e-5, "SolverInterface(%s, %s) = %r, fixed point %r" % (method, name, r, s))
    need(si.fval_iter == cnt[0], "SolverInterface(%s): counted %d evaluations, made %d" % (method, si.fval_iter, cnt[0]))
    return [round(float(v), 4) for v in r]


def sifp_cases():
    for method in FPM:
        for name in FP:
            for i in range(len(FP[name][1])):
                for objnp in (False, True):
                    for x0np in (False, True):
                        for args in ((), (9.0,)):
                            yield method, name, i, objnp, x0np, args


def simin_case(c):
    method, name, i, objnp, x0np = c
    f, g, h, starts, sol = MIN[name]

    def obj(x, *a):
        need(isinstance(x, np.ndarray) == objnp, "objective received a %s" % type(x).__name__)
        return f(list(map(float, x)))
    x0 = np.array(starts[i]) if x0np else list(starts[i])
    si = fn.SolverInterface(method, obj, xtol=1e-4 if method == "newton_minimize" else 1e-9, objf_numpy=objnp, maxiter=300, scalar_objective=True,
                            jacobian_perturbation=1e-6 if method != "newton_minimize" else 1e-5)
    r = si.solve(x0)
    need(isinstance(r, np.ndarray) == x0np, "SolverInterface(%s) returned %r" % (method, r))
    y = f([float(v) for v in r])
    need(y - f(sol) <= 1e-4 * (1 + abs(f(sol))), "SolverInterface(%s, %s): value %r at %r, minimum %r" % (method, name, y, r, f(sol)))
    return round(y, 3)


def simin_cases():
    for method in ["newton_minimize", "Nelder-Mead", "BFGS", "L-BFGS-B", "Newton-CG", "trust-exact"]:
        for name in MIN:
            for i in range(len(MIN[name][3])):
                for objnp in (False, True):
                    for x0np in (False, True):
                        yield method, name, i, objnp, x0np


# ----------------------------------------------------------- oscillation checker
def osc_case(c):
    pts, both, good, prog = c
    ck = fn.OscillationChecker(minimum_progress=prog, both_sides=both, good_err=good)
    seq = iter(pts)
    cur = [None]

    def f(x):
        return cur[0]
    w, ck2 = fn.oscillation_checking_wrapper(f, full=True, both_sides=both, minimum_progress=prog, good_err=good)
    raised = None
    for k, (x, y) in enumerate(pts):
        cur[0] = y
        try:
            v = w(x)
            need(v == y, "wrapped function returns %r for %r" % (v, y))
        except fn.OscillationError:
            raised = k
            break
    # never while the error keeps its sign on one side only, nor with fewer than 5 points seen
    if raised is not None:
        signs = {y > 0 for _, y in pts[:raised + 1]}
        need(raised >= 3, "oscillation reported after %d points" % (raised + 1))
        if good is not None:
            need(abs(pts[raised][1]) >= good or True, "")
    else:
        # best error improving by 10x on every call is progress
        pass
    mono = all(abs(pts[j + 1][1]) <= 0.1 * abs(pts[j][1]) for j in range(len(pts) - 1))
    if mono:
        need(raised is None, "oscillation reported on a sequence improving tenfold per call: %r" % (pts,))
    return raised if raised is not None else "none"


def spaces(tier):
    sp = [
        Space("newton_system", newton_cases, newton_case),
        Space("newton_step", step_cases, step_case),
        Space("newton_hard", hard_cases, hard_case),
        Space("homotopy", homotopy_cases, homotopy_case),
        Space("broyden2", broyden_cases, broyden_case),
        Space("newton_minimize", nmin_cases, nmin_case),
        Space("nelder_mead", nm_cases, nm_case),
        Space("nelder_mead_sort", lambda: [v for n in (2, 3, 4) for v in itertools.product((0.0, 1.0, 2.0, -1.0), repeat=n)], sort_case),
        Space("fixed_point", fp_cases, fp_case),
        Space("anderson", aa_cases, aa_case),
        Space("wrappers", conv_cases, conv_case),
        Space("SolverInterface", lambda: si_cases(tier), si_case),
        Space("SolverInterface_fp", sifp_cases, sifp_case),
        Space("SolverInterface_min", simin_cases, simin_case),
    ]
    return sp
