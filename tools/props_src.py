"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props_src.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level="exploration", note="", state=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                  technique=technique, level=level, note=note, state=state or [], observe=observe or [], na=na))


N = "fluids/numerics/__init__.py "
LAT = "bounded exhaustive enumeration of an input lattice on the real code against "

prop("C01", "Bracketing root finders return a root inside the bracket, or raise",
     "For any function of one variable and any interval whose end values differ in sign, each bracketing solver (bisection, Ridder, Brent variants) returns a point of the closed interval where the sign changes within the requested tolerance, never evaluates the function outside the interval (beyond rounding), and calls it at most as often as its iteration limit allows. For an interval without a sign change it raises instead of returning a number.",
     "inputs histories", "all functions and intervals; explored as every sign/magnitude answer sequence of an adversarial function up to a bounded number of calls plus a family of concrete functions",
     "the tests solve a handful of smooth equations; they cannot cover every sequence of function answers an iteration can see",
     N, [("iteration with bracket maintenance", "fluids/numerics/__init__.py: bisect, ridder, brenth")],
     "exhaustive exploration of the answers of an adversarial function (environment nondeterminism) driving the real solver", "model_checking")
prop("C02", "Open scalar solvers converge as promised or raise",
     "A value returned by the secant, Newton, Halley, one-sided-secant or derivative-bracketed solvers satisfies the convergence criterion the caller asked for (step and residual tolerances, judged at the last points evaluated; an iterate held at a low or high limit may be returned as it stands), lies inside the low/high limits when those are given, and is returned as soon as an exact root is met; failing to converge within the iteration limit raises.",
     "inputs histories", "all functions, starting points, tolerances and limits; explored as families of functions x starts x option combinations and bounded answer sequences",
     "tests check a few convergent runs; limits, residual tolerances and non-convergence combine multiplicatively",
     N, [("convergence tests of the iterations", "fluids/numerics/__init__.py: secant, newton, halley, one_sided_secant")],
     "exhaustive enumeration of (function, start, option) combinations with a monitor on every function evaluation", "exploration")
prop("C03", "System, fixed-point and minimizing solvers deliver what they report",
     "The library's own solvers for several unknowns return a point whose residual meets the requested tolerance, or raise or report failure (Broyden's method by returning its iteration limit); fixed-point accelerators return a fixed point; the one-dimensional minimizers return a point no worse than the points they were given. Switching damping, Jacobian source or linear-algebra backend changes the path, not the solution.",
     "inputs histories", "all well-posed systems up to the bounded dimension, all option combinations",
     "tests check single systems with default options",
     N, [("newton_system, broyden2, fixed_point*, solve_direct wrappers", "fluids/numerics/__init__.py")],
     "exhaustive enumeration of (system, start, option) combinations with residual monitors")
prop("C04", "Small dense linear algebra is exact up to rounding",
     "Determinant, inverse, linear solve, LU-based solves, tridiagonal solve, eigenvalue and norm helpers and the elementwise array helpers agree with exact rational arithmetic on every nonsingular matrix, for any dimension and pivoting pattern; inputs are left unchanged; matrices whose elimination meets an exactly zero pivot column are rejected rather than silently answered.",
     "inputs", "all matrices with entries in a small integer set for dimensions 1-4, plus permuted/scaled families for larger dimensions",
     "tests use a few fixed matrices; pivot patterns and zero patterns are combinatorial",
     "fluids/numerics/arrays.py " + N, [("pivoted elimination", "fluids/numerics/arrays.py")],
     LAT + "exact rational arithmetic")
prop("C05", "Polynomial evaluation, calculus and fitting helpers agree with exact algebra",
     "Evaluating, differentiating, integrating, shifting, converting (power, Chebyshev, logarithmic, stable forms) and combining polynomials gives the values exact rational arithmetic gives, for every degree including zero and one, and helpers that return several derivatives agree with the helpers that return one.",
     "inputs", "all coefficient lists over a small alphabet up to a bounded degree, all evaluation points of a lattice",
     "tests use a few fixed polynomials; degrees, zero coefficients and branch points are combinatorial",
     "fluids/numerics/polynomial_evaluation.py fluids/numerics/polynomial_utils.py", [("Horner/Clenshaw recurrences", "fluids/numerics/polynomial_evaluation.py")],
     LAT + "exact rational arithmetic")
prop("C06", "Polynomial root finders return all the roots",
     "The closed-form quadratic, cubic and quartic root finders return every root with multiplicity (to the accuracy conditioning allows), and the helpers that keep only real roots or decide positivity of a polynomial answer according to its real roots.",
     "inputs", "all polynomials whose coefficients or whose roots come from a small alphabet, including degenerate leading coefficients and multiple roots",
     "tests check a few polynomials; degenerate discriminants are the hard inputs",
     "fluids/numerics/polynomial_roots.py " + N, [("closed-form root formulas", "fluids/numerics/polynomial_roots.py")],
     LAT + "exact construction from roots and back-substitution")
prop("C07", "Double-double arithmetic is accurate to about 30 digits",
     "Every double-double operation (add, subtract, multiply, divide, square root, powers, complex variants, conversions) returns an unevaluated sum of two doubles within a few units of 2^-100 (relative to the operands' magnitudes where they cancel) of the exact result, whatever the signs, cancellation and magnitudes of the operands.",
     "inputs", "all pairs of operands from a lattice of significands x exponents x low-order parts, for every operation",
     "tests sample a few operands; cancellation and exponent gaps are combinatorial",
     "fluids/numerics/doubledouble.py", [("error-free transformations", "fluids/numerics/doubledouble.py")],
     LAT + "exact rational arithmetic")
prop("C08", "Interpolation, search, spacing and sequence helpers meet their definitions",
     "Linear interpolation, spline evaluation, range spacing, sorted search, cumulative sums, normalizations, clamping, sorting, sequence statistics and scipy/numpy stand-ins agree with their definitions (and with numpy/scipy where they stand in for them), at interior points, knots, ends and outside the range.",
     "inputs", "all short sequences over a small alphabet and every query point class (below, at, between, above)",
     "tests use a few sequences; off-by-one at ends and duplicates needs every position",
     N + "fluids/numerics/special.py", [("interp, bisplev, splev, searchsorted-like helpers", "fluids/numerics/__init__.py")],
     LAT + "definitions and numpy/scipy")
prop("C09", "Differentiation and quadrature helpers are exact on their design class",
     "Finite-difference weights and derivative/Jacobian/Hessian helpers are exact (to rounding) on polynomials up to their order, honour one-sided limits, and the quadrature helpers integrate exactly the polynomials their order promises; repeated calls give the same answers.",
     "inputs histories", "all orders, point counts and monomials up to the promised degree, on a lattice of centres and steps",
     "tests check a few derivatives of smooth functions",
     N, [("central_diff_weights, derivative, jacobian, fixed_quad_Gauss_Kronrod", "fluids/numerics/__init__.py")],
     LAT + "exact calculus")
prop("C10", "Results do not depend on optional packages being present",
     "With numpy and scipy unavailable the library still imports and every calculation function returns the same value (to solver or integration tolerance) as with them present; a function built on a missing package says so with ImportError and never returns another value. The same holds on PyPy, where the pure-Python routines are chosen.",
     "configurations inputs", "all package-availability configurations (none, numpy only, both) x a case set covering every public calculation function and method choice",
     "the test suite runs in one configuration only",
     "fluids/numerics/__init__.py fluids/__init__.py", [("pure-Python fallbacks", "fluids/numerics/__init__.py")],
     "exhaustive enumeration of environment configurations on the real code, differential oracle")
prop("C11", "Calls are history independent and leave their arguments alone",
     "Calling any public function in any order, any number of times, gives each call the result it gives in a fresh process, and no call changes a list, array or dictionary the caller passed in.",
     "histories inputs", "all call sequences up to length two (three on the stateful functions) over a case set covering every public function; every mutable argument",
     "tests call each function in one fixed order and do not compare against fresh processes",
     "fluids/__init__.py fluids/numerics/__init__.py fluids/design_climate.py", [("module-level caches and tables", "fluids/*")],
     "exhaustive enumeration of bounded call histories on the real code against fresh-process results", "model_checking")
prop("C12", "Concurrent calls do not disturb each other",
     "When several threads call library functions at once, including the first calls that build shared tables, caches or station lists or that download and cache a file, every interleaving gives every thread the result it gets when it is alone, and leaves files and tables complete.",
     "schedules", "all schedules of 2-3 threads up to the preemption bound over the lazily initialising calls; for every function, a suspension at every source line during which another call of it runs in another thread",
     "tests are single-threaded",
     "fluids/design_climate.py fluids/friction.py fluids/geometry.py fluids/particle_size_distribution.py fluids/units.py", [("lazy initialisation", "fluids/design_climate.py, fluids/particle_size_distribution.py, fluids/geometry.py")],
     "stateless model checking of the real code under a controlled scheduler (line-level scheduling points, bounded preemptions)", "model_checking")
prop("C13", "The unit-aware interface agrees with the SI functions",
     "Calling a function through the unit-aware interface with any compatible units, positionally or by keyword, gives the SI function's value carrying the documented units; incompatible units are rejected; dimensionless, list-valued and object results and methods are covered the same way.",
     "inputs configurations", "every wrapped function x every unit system of the lattice x positional/keyword form",
     "tests cover a few wrapped functions in a few units",
     "fluids/units.py", [("docstring-driven wrapping", "fluids/units.py: wraps_numpydoc")],
     LAT + "the unwrapped SI function and dimensional analysis")
prop("C14", "The vectorized interface equals elementwise scalar calls",
     "For every function of the vectorized module and every broadcastable mixture of scalar and array arguments, element i of the result is the scalar function's result on the i-th arguments; constants, classes and non-numeric names stay usable.",
     "inputs", "every exported function x argument shape patterns (scalar/array per argument) on a case set",
     "tests cover a few functions and shapes",
     "fluids/vectorized.py", [("numpy.vectorize wrapping", "fluids/vectorized.py")],
     LAT + "the scalar functions")
prop("C15", "The numba interface equals the Python functions",
     "Functions exposed through the compiled interfaces (fluids.numba and fluids.numba_vectorized), for the argument kinds numba compiles them for, return what the interpreted functions return, up to floating-point rearrangement; so do the compiled numerics (solvers given compiled callables, quadrature, splines, polynomials, special functions) and the compiled ATMOSPHERE_1976.",
     "inputs configurations", "every compilable function x kinds of arguments (mc/numba.json) x argument lattices; array calls; compiled numerics and solvers",
     "numba tests are excluded from the stable test list or cover single points",
     "fluids/numba.py fluids/numba_vectorized.py", [("source transformation and jit", "fluids/numba.py: transform_complete")],
     LAT + "the interpreted functions")
prop("C16", "Method listings and dispatchers agree",
     "Every method name a *_methods listing returns for some inputs is accepted by the dispatcher for those inputs and gives the result of that method's own function; names outside the listing's universe are rejected; leaving the method out gives the documented default: a listed method's result (for sphere drag, the documented blend between two of them near Re 0.01 to 0.1).",
     "inputs configurations", "every dispatcher x every method name x an input lattice including every applicability boundary",
     "tests check one default and sometimes one named method per dispatcher",
     "fluids/friction.py fluids/two_phase.py fluids/two_phase_voidage.py fluids/drag.py fluids/packed_bed.py fluids/fittings.py fluids/mixing.py fluids/core.py", [("*_methods functions and dispatchers", "fluids/*")],
     LAT + "the method's own function")
prop("C17", "Solving for any one variable inverts the forward relation",
     "Functions that solve for whichever variable is left out (compressible pipe flow, isentropic and polytropic relations, flow meters, tank geometry, differential-pressure fittings, hydrostatic relations) return values that reproduce the other inputs when substituted back, for every choice of the unknown, and reject under- or over-specified calls.",
     "inputs", "every such function x every choice of unknown x an input lattice",
     "tests check one round trip per function",
     "fluids/compressible.py", [("isothermal_gas, Panhandle_A, Weymouth, isentropic_work_compression, ...", "fluids/compressible.py")],
     LAT + "the forward relation (round trip)")
prop("C18", "Correlations are dimensionally consistent",
     "Rescaling all inputs of a dimensionally homogeneous correlation by any change of base units rescales its result by the corresponding factor.",
     "inputs", "every dimensionally homogeneous public function x base-unit rescalings x input lattice",
     "tests fix SI inputs; a mistaken exponent or hidden constant with units shows only under rescaling",
     "fluids/units.py", [("formulas", "fluids/*")],
     LAT + "scaling symmetry (metamorphic oracle)")
prop("C19", "Dimensionless groups and converters equal their definitions",
     "Every dimensionless group and elementary converter returns its defining expression, for any sufficient combination of its optional inputs, and rejects insufficient ones. Converters between temperature scales, resistance coefficients, equivalent lengths, heads and pressures are mutual inverses.",
     "inputs", "all subsets of optional arguments x value lattice including zeros and extreme magnitudes",
     "tests check one or two points per function and rarely every route through the optional arguments",
     "fluids/core.py", [("formulas and optional-argument dispatch", "fluids/core.py")],
     LAT + "defining expressions and inverse identities")
prop("C20", "Darcy friction factors solve their equations",
     "The exact turbulent friction factor solves the Colebrook equation to near machine precision for every Reynolds number and roughness; every named explicit correlation returns its published formula; the dispatcher gives 64/Re in laminar flow, the selected correlation above transition, always positive and continuous inside each regime.",
     "inputs", "Re x relative-roughness lattice over 1e-2..1e9 x 0..0.1, every method",
     "tests check single points per correlation",
     "fluids/friction.py", [("Colebrook, friction_factor, per-author functions", "fluids/friction.py")],
     LAT + "the Colebrook equation in high precision and published formulas")
prop("C21", "Curved-pipe, plate, tube and pressure-drop friction relations are consistent",
     "Curved-pipe friction factors and critical Reynolds numbers follow their published formulas, reduce to straight-pipe values where the formulas say so, and switch regime at the critical Reynolds number; one-phase pressure drops are friction factor times dynamic pressure times length over diameter.",
     "inputs", "Re x coil/tube diameters x roughness lattice, every method and flag",
     "tests check single points",
     "fluids/friction.py", [("helical_*, friction_factor_curved, friction_plate_*, one_phase_dP*", "fluids/friction.py")],
     LAT + "published formulas and limiting cases")
prop("C22", "Fitting loss coefficients follow their published models",
     "Entrance, exit, bend, contraction, expansion, valve and junction loss coefficients equal their published models for every method, are never negative where physically impossible, vanish or reduce as the limiting geometry requires, and converting between loss coefficient, Kv, Cv and equivalent length is consistent.",
     "inputs", "geometry lattices x every method and shape option of each fitting function",
     "tests check a few geometries per method",
     "fluids/fittings.py", [("entrance_*, exit_*, bend_*, contraction_*, diffuser_*, K_*", "fluids/fittings.py")],
     LAT + "published models, limiting cases and interpolation monitors")
prop("C23", "Control valve sizing inverts valve flow and follows the standard",
     "Sizing a control valve for liquid or gas and then computing the flow the sized valve passes reproduces the standard's flow equation in every regime (choked or not, laminar or turbulent, with or without fittings); switching full output on or off does not change the result; trims, noise and cavitation helpers equal their formulas.",
     "inputs", "lattice of pressures x flows x valve data spanning every regime combination, with and without piping",
     "tests check the standard's worked examples only",
     "fluids/control_valve.py", [("size_control_valve_l/g, noise and trim functions", "fluids/control_valve.py")],
     LAT + "IEC 60534 equations (residual check) and full-output consistency")
prop("C25", "Flow meter relations are consistent for every meter type",
     "For every meter type, tapping and correlation, solving for flow, diameter, upstream or downstream pressure from the other values reproduces them through the meter equation, and discharge and expansibility coefficients equal their published formulas with the expansibility tending to one as the pressure drop vanishes.",
     "inputs", "every meter type x taps x diameter ratio x Reynolds number x pressure-ratio lattice x every choice of unknown",
     "tests check worked examples for some meters",
     "fluids/flow_meter.py", [("differential_pressure_meter_solver, C_*, nozzle_expansibility, ...", "fluids/flow_meter.py")],
     LAT + "the meter equation (round trip) and published formulas")
prop("C26", "Relief valve sizing follows API 520",
     "Required areas for gas, steam and liquid relief equal the API 520 equations, choose critical or subcritical flow by the critical pressure ratio, grow with flow, and round to a standard orifice that is the smallest one not below the requirement; correction factors stay within their curves and noise levels equal the documented API 521 and VDI 3732 relations.",
     "inputs", "pressure x temperature x flow lattices including the critical-ratio boundary and table edges, every correction-factor option",
     "tests check the standard's examples",
     "fluids/safety_valve.py", [("API520_* functions", "fluids/safety_valve.py")],
     LAT + "API 520 equations and ordering invariants")
prop("C27", "Partially filled tank volumes and areas are geometrically right",
     "For every head type and fill height the partial volume and wetted area equal the geometric integral of the shape, run monotonically from zero to the full value, and are symmetric where the shape is.",
     "inputs", "all head types x orientation x dimension lattice x fill heights including empty, full and every junction height",
     "tests check a few heights per head type",
     "fluids/geometry.py", [("V_horiz_*, V_vertical_*, SA_partial_*, V_from_h", "fluids/geometry.py")],
     LAT + "independent numerical integration, additivity and monotonicity")
prop("C28", "A tank object answers consistently whatever was asked before",
     "Any sequence of queries to a tank (volume from height, height from volume, areas, tables, numerically or by fitted approximation) gives mutually consistent answers that do not depend on the order of the queries, and height from volume inverts volume from height; a tank solved for an unknown dimension has the requested volume.",
     "histories inputs", "all query sequences up to the depth bound on tanks of every head/orientation combination",
     "tests query fresh tanks in one order",
     "fluids/geometry.py", [("TANK", "fluids/geometry.py")],
     "explicit enumeration of operation histories on the real object against stateless geometry functions", "model_checking")
prop("C29", "Other equipment geometry is self-consistent",
     "Helical coil, plate exchanger, air cooler and simple-solid geometry objects satisfy their defining relations for every admissible combination of given dimensions, and any dimension computed from a set of others reproduces it when fed back.",
     "inputs", "all admissible combinations of specified dimensions x value lattice",
     "tests check a few combinations",
     "fluids/geometry.py", [("HelicalCoil, PlateExchanger, AirCooledExchanger, simple solids", "fluids/geometry.py")],
     LAT + "defining relations and round trips")
prop("C30", "Particle size distributions are coherent",
     "For every distribution, discrete or continuous, the cumulative function is the integral of the density, runs from 0 to 1, the quantile function inverts it, mean diameters equal their defining moment ratios and fractions over a partition add up to one, for every order of the distribution.",
     "inputs histories", "all distributions x parameter lattice x orders 0-3 x query lattice x query order",
     "tests check selected values",
     "fluids/particle_size_distribution.py", [("ParticleSizeDistributionContinuous and subclasses, ParticleSizeDistribution", "fluids/particle_size_distribution.py")],
     "exhaustive enumeration of distributions, queries and query histories on the real objects against independent integration")
prop("C31", "Pipe catalogue lookups return the right row",
     "Looking up a pipe by nominal size, inner or outer diameter returns mutually consistent dimensions of one catalogue row: the nominal size asked for, or the smallest row not smaller than the requested diameter; out-of-range requests are rejected; gauge and thickness conversions invert each other.",
     "inputs", "every schedule x every catalogue row x every query class (at, between, just around, outside), every gauge",
     "tests look up a few pipes",
     "fluids/piping.py", [("nearest_pipe, gauge_from_t, t_from_gauge", "fluids/piping.py")],
     LAT + "catalogue tables and ordering invariants")
prop("C32", "Pump, fan and motor catalogue functions are right at and between ratings",
     "Efficiency correlations, motor rounding, drive and minimum-efficiency lookups return the catalogue value at each tabulated rating; motor sizes round up to the next rating, efficiencies between ratings follow the interpolation the function documents, and all stay within physical limits; plug and voltage data objects are internally consistent.",
     "inputs", "every catalogue entry and every interval between entries, every option",
     "tests look up a few entries",
     "fluids/pump.py", [("motor_round_size, nema_min_P, CSA_motor_efficiency, ...", "fluids/pump.py")],
     LAT + "tables and ordering invariants")
prop("C33", "The standard atmosphere is the 1976 model",
     "Temperature, pressure, density, gravity, sound speed and transport properties equal the 1976 standard at every altitude, continuous across every layer boundary with pressure strictly falling, including temperature offsets, and pressure-integral inversion agrees with the forward model.",
     "inputs", "altitudes at, just around and between every layer boundary x temperature offsets",
     "tests check tabulated altitudes",
     "fluids/atmosphere.py", [("ATMOSPHERE_1976", "fluids/atmosphere.py")],
     LAT + "an independent implementation of the 1976 standard")
prop("C34", "Solar and NRLMSISE helpers are physically consistent",
     "Solar position, sunrise/sunset, irradiance and empirical-atmosphere helpers give consistent results for any place and date: the sun is on the horizon at reported rise and set, angles stay in range, equal instants in different time zones agree, and the empirical atmosphere does not depend on earlier calls.",
     "inputs histories", "lattice of latitudes x longitudes x dates x altitudes x time zones",
     "tests check single dates",
     "fluids/atmosphere.py fluids/optional/spa.py fluids/nrlmsise00", [("solar_position, solar_irradiation, sunrise_sunset, ATMOSPHERE_NRLMSISE00", "fluids/atmosphere.py")],
     LAT + "consistency relations between the functions")
prop("C35", "The climate station store survives faults",
     "get_closest_station returns the station nearest in latitude and longitude degrees whose record extends past the requested date, whatever the search size, and raises only when there is none; the store holds every station with a known position. After any failure (an exception or a killed process at any point, a full disk, a short, empty or garbled response) while station data are loaded or a yearly file is downloaded and cached, a later call with the fault gone returns the complete correct data, and no call ever returns a partial list or a truncated file as complete.",
     "fault_sequences crash_points inputs", "exceptions and process deaths at every executed line and file operation of load and download, every byte count of short writes and short responses, all fault histories over a reduced alphabet to depth 3-4, all query positions of a lattice x dates x search sizes",
     "tests never inject faults",
     "fluids/design_climate.py", [("station list loading, download cache", "fluids/design_climate.py")],
     "exhaustive fault injection at every environment operation of the real code", "fault_enumeration")
prop("C36", "Two-phase pressure drop correlations equal their published models",
     "Each two-phase pressure-drop correlation equals its published model in every flow regime, is linear in length, grows with flow where the model does, and approaches the single-phase pressure drop as the quality approaches its ends where the model promises it.",
     "inputs", "quality x mass flux x property lattices, every correlation and regime branch",
     "tests check one point per correlation",
     "fluids/two_phase.py", [("per-author functions", "fluids/two_phase.py")],
     LAT + "published models and limiting cases")
prop("C37", "Void fraction and two-phase viscosity models equal their formulas",
     "Every void-fraction and two-phase-viscosity model equals its published formula, void fractions stay within [0, 1] where the model guarantees it and increase with quality, and the end points give the single-phase values where promised.",
     "inputs", "quality x density-ratio x viscosity-ratio x mass-flux lattices, every model",
     "tests check one point per model",
     "fluids/two_phase_voidage.py", [("per-author functions", "fluids/two_phase_voidage.py")],
     LAT + "published models and range invariants")
prop("C38", "Sphere drag and settling relations agree",
     "Every drag correlation equals its published formula in its range; the terminal velocity balances drag and weight; the time and distance of a settling particle satisfy the equation of motion and tend to the terminal velocity.",
     "inputs", "Re lattice over every correlation's branches, particle/fluid property lattice",
     "tests check single points",
     "fluids/drag.py", [("drag_sphere, v_terminal, integrate_drag_sphere", "fluids/drag.py")],
     LAT + "published formulas and the force balance")
prop("C39", "Packed bed and tower relations equal their published models",
     "Packed-bed pressure drops, voidage and packed-tower pressure drop, holdup, flooding and demister relations equal their published models and are consistent with each other (a flooding velocity reproduces the flooding condition; wall-effect corrections vanish for large columns).",
     "inputs", "voidage x velocity x property lattices, every correlation",
     "tests check one point per correlation",
     "fluids/packed_bed.py fluids/packed_tower.py", [("per-author functions", "fluids/packed_bed.py, fluids/packed_tower.py")],
     LAT + "published models and round trips")
prop("C40", "Open-channel, saltation, separator, mixing, filter and jet relations hold",
     "Weir and channel flow formulas, saltation velocities, separator and cyclone constants, mixer and screen losses and the jet pump equal their published models; the jet pump solves its equations for every choice of unknowns.",
     "inputs", "input lattices of every function, every choice of unknowns for the jet pump",
     "tests check one point per function",
     "fluids/open_flow.py fluids/saltation.py fluids/separator.py fluids/mixing.py fluids/filters.py fluids/jet_pump.py", [("per-author functions", "fluids/open_flow.py ...")],
     LAT + "published models and equation residuals")
prop("C41", "Chebyshev function objects obey function algebra",
     "A function object built from samples, coefficients or a callable evaluates to the function it represents, and sums, products, derivatives, integrals, roots and restrictions of such objects represent the corresponding operations on the functions.",
     "inputs histories", "all expressions up to the depth bound over a small set of polynomial objects and domains",
     "tests check a few expressions",
     "fluids/optional/pychebfun.py", [("Polyfun/Chebfun", "fluids/optional/pychebfun.py")],
     "explicit enumeration of operation sequences on the real objects against exact polynomial arithmetic", "model_checking")
prop("C42", "The solar position algorithm is the NREL algorithm",
     "Every step of the solar position computation (calendar, nutation, obliquity, topocentric corrections, equation of time, rise/transit/set) equals the NREL SPA definition for any date.",
     "inputs", "dates across the algorithm's range x places, every intermediate quantity",
     "tests check the NREL example",
     "fluids/optional/spa.py", [("solar_position_loop and its parts", "fluids/optional/spa.py")],
     LAT + "an independent transcription of the algorithm")
prop("C43", "Compressible flow relations satisfy the gas dynamics identities",
     "Isentropic, polytropic, critical-flow, stagnation and isothermal-flow relations equal their definitions and satisfy the identities between them (stagnation relations invert, critical values separate the regimes, choked flow caps the isothermal relation, efficiency conversions invert).",
     "inputs", "k x pressure-ratio x temperature lattices including critical points",
     "tests check single points",
     "fluids/compressible.py", [("P_critical_flow, is_critical_flow, stagnation_energy, isothermal_gas, ...", "fluids/compressible.py")],
     LAT + "definitions and identities")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p["state"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks = []
    na = []
    for p in P:
        mod = os.path.join(ROOT, "mc", "props", p["id"].lower() + ".py")
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
            continue
        if not os.path.exists(mod):
            na.append({"property": p["id"], "reason": "the check for this property is not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh %s --thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                       "level_note": p["note"] or ("Every case of the declared finite spaces is executed on the real code in /repo and compared "
                                                   "with its oracle; nothing is claimed between lattice points or beyond the bounds. Trusts the "
                                                   "oracle written in /verif, CPython and IEEE double arithmetic.")})
    man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks are needed in /repo: the checks import the code from /repo's working tree (pure Python)."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(P), "properties", len(checks), "checks")


main()
