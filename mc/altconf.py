"""python -m mc.altconf CONFIG OUT N FACTORS: run the case set in one configuration of the
interpreter and optional packages; pickled {id: result}.  Configurations:
  full            everything that is installed
  none            no third-party package can be imported
  numpy           only numpy can be imported
  pypy            the interpreter calls itself PyPy; numpy and scipy present
  pypy-none       the same without any third-party package
  extras          numpy and scipy only"""
import os
import pickle
import signal
import sys
import time

DEBUG = os.environ.get("MC_DEBUG")

THIRD = {"numpy", "scipy", "pandas", "matplotlib", "numba", "llvmlite", "mpmath", "sympy", "pint", "pytz", "geopy",
         "pvlib", "fuzzywuzzy", "rapidfuzz", "appdirs", "numexpr", "dateutil"}
ALLOW = {"full": THIRD, "none": set(), "numpy": {"numpy"}, "pypy": THIRD, "pypy-none": set(), "extras": {"numpy", "scipy"}}


class Blocker:
    def __init__(self, allow):
        self.block = THIRD - allow

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.block:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        return None


class TooLong(Exception):
    pass


def _alarm(*a):
    raise TooLong()


SUBMODULES = ["atmosphere", "compressible", "constants", "control_valve", "core", "design_climate", "drag", "filters", "fittings",
              "flow_meter", "friction", "geometry", "jet_pump", "mixing", "nrlmsise00", "numba", "numba_vectorized", "numerics",
              "numerics.arrays", "numerics.doubledouble", "numerics.polynomial_evaluation", "numerics.polynomial_roots",
              "numerics.polynomial_utils", "numerics.special", "open_flow", "optional", "optional.irradiance", "optional.pychebfun",
              "optional.spa", "packed_bed", "packed_tower", "particle_size_distribution", "piping", "pump", "safety_valve",
              "saltation", "separator", "two_phase", "two_phase_voidage", "units", "vectorized"]


def main(conf, out, n, factors):
    import warnings
    warnings.simplefilter("ignore")
    sys.meta_path.insert(0, Blocker(ALLOW[conf]))
    if conf.startswith("pypy"):
        sys.version = "%s (0123456789ab, Aug 28 2024, 14:00:00)\n[PyPy 7.3.17 with GCC 13.3.0]" % sys.version.split()[0]
    import importlib
    import fluids  # noqa: F401
    from . import cases, hist
    res = {}
    for m in SUBMODULES:
        if m in ("numba", "numba_vectorized"):
            continue                      # compiled interface: needs numba by definition, slow to import
        try:
            importlib.import_module("fluids." + m)
            res["import " + m] = "ok"
        except Exception as e:
            res["import " + m] = "!" + ("ImportError" if isinstance(e, ImportError) else type(e).__name__)
    signal.signal(signal.SIGALRM, _alarm)
    todo = cases.lattice_cases(n, factors) + cases.numeric_cases() + cases.object_cases() + cases.kernel_cases()
    slow = 0
    for cid, make in todo:
        t0 = time.time()
        signal.setitimer(signal.ITIMER_REAL, 20, 1)
        try:
            try:
                f, a, k = make()
                v = hist.plain(f(*a, **k))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        except TooLong:
            v = "!hangs"
            slow += 1
            if slow > 4:
                break
        except ImportError:
            v = "!ImportError"
        except RecursionError:
            v = "!RecursionError"
        except Exception as e:
            v = "!" + type(e).__name__
        res[cid] = v
        if DEBUG:
            dt = time.time() - t0
            if dt > .3:
                print(conf, cid, round(dt, 2))
    with open(out + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(out + ".tmp", out)


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]), [float(x) for x in sys.argv[4].split(",") if x])
