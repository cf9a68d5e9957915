"""C10: results do not depend on which optional packages can be imported.

Every configuration of the interpreter and the packages is run in its own process (packages
that are absent cannot be imported there), over the same complete case set: every formula
function at its seeds and with each argument scaled, every numeric routine, every class, and
lattices for the routines that exist twice.  Each result is compared with the same call where
everything is installed; a function that cannot work without a package may only say so."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from ..core import Space, TRIVIAL, Violation, canon, same, REPO, VERIF
from .. import altconf

RULE = ("Every case of the set is run in every configuration; each (configuration, case) is one comparison with the "
        "configuration that has everything.")
ASSUMPTIONS = [
    "an absent package is one whose import raises ModuleNotFoundError; PyPy is simulated by its version string",
    "functions that are thin wrappers of numpy or scipy routines, or built on them, may raise ImportError without them (listed in NEEDS); no function may return another value",
    "the pure-Python spline evaluators take one point at a time; fuzzy text lookup is documented to use whichever matcher is installed",
    "internal residual functions evaluated exactly on a choke limit are not compared (rounding decides)",
]

# what may say it needs a package, by the packages missing
NEEDS_SCIPY = {"geometry.PlateExchanger", "geometry.plate_enlargement_factor", "geometry.SA_partial_horiz_ellipsoidal_head",
               "geometry.SA_partial_horiz_guppy_head", "geometry._SA_partial_horiz_ellipsoidal_head_to_int", "geometry._SA_partial_horiz_guppy_head_to_int",
               "particle_size_distribution.PSDInterpolated", "particle_size_distribution.pdf_Rosin_Rammler_basis_integral",
               "drag.integrate_drag_sphere", "numerics.ellipe", "numerics.ellipeinc", "numerics.ellipkinc", "numerics.gammaincc",
               "numerics.i0", "numerics.i1", "numerics.k0", "numerics.k1", "numerics.iv", "numerics.hyp2f1",
               "object.TANK ellipsoidal", "object.TANK from volume", "object.TANK tables", "object.PlateExchanger", "object.PSDRosinRammler",
               "object.ParticleSizeDistribution", "object.drag integration", "object.closest station A",
               "geometry.SA_partial_horiz_torispherical_head", "geometry.SA_from_h",
               "import design_climate", "import optional.pychebfun"}
NEEDS_NUMPY = {"jet_pump.liquid_jet_pump", "numerics.is_poly_positive", "numerics.null_space", "numerics.arrays.det", "numerics.arrays.svd",
               "numerics.arrays.gelsd", "numerics.arrays.null_space", "import vectorized"}
NEEDS_EXTRAS = {"import units"}
# numpy present and the interpreter CPython: the scipy version of a routine is chosen, and raises if scipy is absent
SCIPY_CHOSEN = {"compressible.P_isothermal_critical_flow", "compressible.P_upstream_isothermal_critical_flow", "compressible.isothermal_gas",
                "fittings.Miller_bend_unimpeded_correction", "fittings.contraction_conical", "fittings.diffuser_conical",
                "fittings.entrance_beveled", "fittings.entrance_distance", "fittings.entrance_rounded",
                "geometry.V_horiz_spherical", "geometry.V_tank", "geometry.V_from_h", "geometry.TANK", "friction.Colebrook", "friction.Prandtl_von_Karman_Nikuradse", "friction.friction_factor", "geometry.SA_partial_horiz_spherical_head",
                "geometry.SA_partial_horiz_torispherical_head", "geometry.V_horiz_torispherical", "pump.VFD_efficiency",
                "safety_valve.API520_A_steam", "safety_valve.API520_SH", "separator.K_separator_Watkins", "two_phase.Taitel_Dukler_regime",
                "numerics.splev", "numerics.bisplev", "numerics.quad", "numerics.lambertw", "kernel.splev", "kernel.bisplev", "kernel.quad", "kernel.lambertw",
                "object.fitting bend data", "object.oblique mesh", "object.motors", "fittings.bend_rounded", "fittings.bend_miter",
                "fittings.bend_rounded_Miller", "fittings.bend_miter_Miller", "fittings.contraction_round", "fittings.contraction_round_Miller",
                "filters.round_edge_open_mesh", "filters.square_edge_screen", "filters.square_edge_grill", "filters.round_edge_grill"}
MAY = {"none": NEEDS_SCIPY | NEEDS_NUMPY | NEEDS_EXTRAS, "pypy-none": NEEDS_SCIPY | NEEDS_NUMPY | NEEDS_EXTRAS,
       "numpy": NEEDS_SCIPY | NEEDS_EXTRAS | SCIPY_CHOSEN, "extras": NEEDS_EXTRAS, "pypy": set()}
CONFIGS = ["none", "numpy", "pypy", "pypy-none", "extras"]
FUZZY = {"friction.nearest_material_roughness", "friction.material_roughness", "object.roughness names"}


def stem(cid):
    return cid.split("#")[0] if "#" in cid else (cid if cid.startswith(("object.", "import ")) else cid.split(" ")[0])


def tolerance(cid):
    """(rtol, atol) for a case: kernels tightly, what integrates numerically to its own accuracy"""
    if cid.startswith("kernel.quad") or cid.startswith("numerics.quad"):
        return 1e-8, 1e-9
    if cid.startswith("kernel."):
        return 1e-11, 1e-13
    if cid.startswith("geometry.V_horiz_spherical"):
        return 1e-5, 1e-9                # shallow heads: singular at the rim
    if "TANK" in cid:
        return 2e-6, 1e-9                # height from volume: spline with scipy, a solver without
    if cid.startswith("geometry.") or cid.startswith("object."):
        return 2e-6, 1e-9                # heads are integrated numerically
    return 1e-9, 1e-13


_MAKE = {}
_ARGS = []


def kwargs(cid):
    if not _MAKE:
        from ..cases import lattice_cases
        _MAKE.update(lattice_cases(*_ARGS))
    return _MAKE[cid]()[2]


def exact(cid):
    """Colebrook's exact solution, documented to need mpmath"""
    return kwargs(cid).get("tol") == 0


def brimful(cid):
    k = kwargs(cid)
    return k["h"] >= k["D"] and "guppy" in (k.get("sideA", "guppy"), k.get("sideB", "guppy"))


def spaces(tier):
    n, fac = (8, "0.5,0.9,1.1,2") if tier == "quick" else (40, "0.1,0.5,0.75,0.9,0.999,1.001,1.1,1.5,2,4,10")
    _ARGS[:] = [n, [float(x) for x in fac.split(",")]]
    tmp = tempfile.mkdtemp(prefix="mc-c10-")
    try:
        procs = {}
        env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + VERIF)
        for c in ["full"] + CONFIGS:
            procs[c] = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "mc.altconf", c, os.path.join(tmp, c), str(n), fac],
                                        env=env, cwd=VERIF, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        res, err = {}, {}
        for c, p in procs.items():
            e = p.communicate()[1]
            path = os.path.join(tmp, c)
            if p.returncode == 0 and os.path.exists(path):
                with open(path, "rb") as f:
                    res[c] = pickle.load(f)
            else:
                err[c] = e.decode("utf-8", "replace").strip().splitlines()[-1:]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    full = res.get("full", {})

    def loads(c):
        if c in err:
            raise Violation("the library does not import and run in configuration %r: %s" % (c, err[c]), key=c)
        return len(res[c])

    def compare(case):
        c, cid = case
        a, w = res[c].get(cid, "!not reached"), full[cid]
        s = stem(cid)
        if s in FUZZY or "_err" in s or "_to_solve" in s:
            return TRIVIAL
        if a == "!ImportError" and w != "!ImportError":
            if s in MAY[c] or s == "friction.Colebrook" and exact(cid):
                return "needs a package"
            raise Violation("%s in configuration %r asks for a package, with everything installed it gives %s" % (cid, c, canon(w, 15)[:200]), key="%s %s" % (c, s))
        if isinstance(w, str) and w.startswith("!"):
            if not (isinstance(a, str) and a.startswith("!")):
                raise Violation("%s in configuration %r gives %s, with everything installed it raises %s" % (cid, c, canon(a, 15)[:200], w[1:]), key="%s %s" % (c, s))
            return w
        if s in ("numerics.splev", "numerics.bisplev") and isinstance(w, list) and a == "!TypeError":
            return TRIVIAL
        x, y = a, w
        if s in ("numerics.quad", "kernel.quad") and isinstance(a, list) and isinstance(w, list):
            x, y = a[0], w[0]            # the error estimate is the algorithm's own
        if x != y:
            r, t = tolerance(cid)
            if not same(x, y, r, t):
                if c == "pypy" and s in ("geometry.SA_partial_horiz_guppy_head", "geometry.SA_from_h") and brimful(cid) and same(x, y, 2e-3):
                    s = "guppy head filled to the brim"
                raise Violation("%s in configuration %r gives %s, with everything installed %s" % (cid, c, canon(a, 15)[:250], canon(w, 15)[:250]), key="%s %s" % (c, s))
        return y

    out = [Space("loads", lambda: ["full"] + CONFIGS, loads, key=str)]
    for c in CONFIGS:
        if c in res:
            out.append(Space("configuration %s" % c, lambda c=c: [(c, i) for i in full], compare, key=lambda k: k[1]))
    return out
