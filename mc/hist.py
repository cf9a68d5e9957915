"""Process-level state of the library, and runs of calls in forked processes."""
import os
import pickle
import random
import sys
import types
import warnings
from hashlib import blake2b


class ChildFailed(Exception):
    pass


def forked(fn):
    """fn() in a forked copy of this process; its (picklable) result."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    rng = random.getstate()
    pid = os.fork()
    if pid == 0:
        random.setstate(rng)        # a fork reseeds
        code = 0
        try:
            os.close(r)
            try:
                out = pickle.dumps((True, fn()))
            except BaseException as e:      # noqa: BLE001 - reported to the parent
                out = pickle.dumps((False, "%s: %s" % (type(e).__name__, e)))
            with os.fdopen(w, "wb") as f:
                f.write(out)
        except BaseException:               # noqa: BLE001
            code = 1
        os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        buf = f.read()
    os.waitpid(pid, 0)
    if not buf:
        raise ChildFailed("the child process died")
    ok, v = pickle.loads(buf)
    if not ok:
        raise ChildFailed(v)
    return v


def parallel(fn, items, workers=None):
    """[fn(x) for x in items], strided over forked workers (each starts from this process's state)."""
    n = workers or min(os.cpu_count() or 1, 16)
    items = list(items)
    pipes = []
    sys.stdout.flush()
    for k in range(n):
        r, w = os.pipe()
        rng = random.getstate()
        pid = os.fork()
        if pid == 0:
            random.setstate(rng)
            try:
                os.close(r)
                out = pickle.dumps([(i, fn(items[i])) for i in range(k, len(items), n)])
                with os.fdopen(w, "wb") as f:
                    f.write(out)
                os._exit(0)
            except BaseException as e:      # noqa: BLE001
                sys.stderr.write("parallel: %s: %s\n" % (type(e).__name__, e))
                sys.stderr.flush()
                os._exit(1)
        os.close(w)
        pipes.append((pid, r))
    res = [None] * len(items)
    bad = False
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            buf = f.read()
        os.waitpid(pid, 0)
        if not buf:
            bad = True
            continue
        for i, v in pickle.loads(buf):
            res[i] = v
    if bad:
        raise ChildFailed("a worker died")
    return res


# ------------------------------------------------------------------ plain data
def plain(v, depth=6):
    """Nested lists and numbers, comparable across processes."""
    if v is None or type(v) in (bool, int, float, str):
        return v
    for t in (bool, int, float, str):       # enumerations, numpy scalars
        if isinstance(v, t):
            return t(v)
    if isinstance(v, complex):
        return ["complex", v.real, v.imag]
    if depth <= 0:
        return "..."
    if isinstance(v, (list, tuple)):
        return [plain(i, depth - 1) for i in v]
    if isinstance(v, (set, frozenset)):
        return ["set"] + sorted((plain(i, depth - 1) for i in v), key=repr)
    if isinstance(v, dict):
        return {repr(plain(k, depth - 1)): plain(w, depth - 1) for k, w in v.items()}
    t = type(v)
    if t.__module__ == "numpy" or t.__module__.startswith("numpy."):
        return plain(v.tolist(), depth - 1) if hasattr(v, "tolist") else str(v)
    if isinstance(v, types.GeneratorType):
        return "generator"
    if callable(v) and not hasattr(v, "__dict__"):
        return "callable"
    if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, types.MethodType, type)):
        return "callable"
    d = getattr(v, "__dict__", None)
    if isinstance(v, types.ModuleType):
        return v.__name__
    if isinstance(d, dict) and not (t.__module__ or "").startswith("fluids"):
        d = {k: w for k, w in d.items() if type(w) in (int, float, bool) or type(w).__name__ == "ndarray"}
    if isinstance(d, dict):
        return [t.__name__, {k: plain(w, depth - 1) for k, w in d.items()}]
    return t.__name__


# ------------------------------------------------------------------ state
class _Hasher:
    def __init__(self, home):
        self.home = home
        self.seen = {}
        self.keep = []

    def enc(self, v, out, d=0):
        t = type(v)
        if v is None or t is bool or t is int or t is float or t is complex:
            out(b"p")
            out(repr(v).encode())
            return
        if t is str:
            out(b"s")
            out(v.encode("utf-8", "surrogatepass"))
            return
        if t is bytes:
            out(b"b")
            out(v)
            return
        i = id(v)
        if i in self.seen:
            out(b"r%d" % self.seen[i])
            return
        if d > 60:
            out(b"deep")
            return
        if isinstance(v, types.ModuleType):
            out(b"m" + v.__name__.encode())
            return
        self.seen[i] = len(self.seen)
        self.keep.append(v)
        if isinstance(v, (list, tuple)):
            out(b"l%d" % len(v))
            for x in v:
                self.enc(x, out, d + 1)
        elif isinstance(v, dict):
            out(b"d%d" % len(v))
            for k, x in v.items():
                self.enc(k, out, d + 1)
                self.enc(x, out, d + 1)
        elif isinstance(v, (set, frozenset)):
            out(b"t%d" % len(v))
            for x in sorted(v, key=repr):
                self.enc(x, out, d + 1)
        elif isinstance(v, types.FunctionType):
            out(b"f" + v.__module__.encode() + b"." + v.__qualname__.encode() if v.__module__ else b"f")
            out(b"c%d" % hash(v.__code__.co_code))
            if v.__module__ == self.home:
                self.enc(v.__defaults__, out, d + 1)
                self.enc(v.__kwdefaults__, out, d + 1)
                self.enc(v.__dict__, out, d + 1)
                for c in v.__closure__ or ():
                    try:
                        self.enc(c.cell_contents, out, d + 1)
                    except ValueError:
                        out(b"empty")
        elif isinstance(v, type):
            out(b"k" + v.__qualname__.encode())
            if v.__module__ == self.home:
                for k, x in sorted(vars(v).items()):
                    if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__static_attributes__", "__firstlineno__"):
                        out(k.encode())
                        self.enc(x, out, d + 1)
        elif hasattr(v, "cache_info") and callable(v.cache_info):
            out(repr(v.cache_info()).encode())
        elif t.__module__ == "numpy" and hasattr(v, "tobytes"):
            out(repr((str(getattr(v, "dtype", "")), getattr(v, "shape", ()))).encode())
            out(v.tobytes())
        else:
            m = t.__module__ or ""
            out(b"o" + m.encode() + t.__qualname__.encode())
            if m.startswith("fluids") or m.startswith("scipy.interpolate"):
                dd = getattr(v, "__dict__", None)
                if isinstance(dd, dict):
                    self.enc(dd, out, d + 1)
                for s in getattr(t, "__slots__", ()) or ():
                    if isinstance(s, str) and hasattr(v, s):
                        self.enc(getattr(v, s), out, d + 1)


SKIP_NAMES = {"__builtins__", "__loader__", "__spec__", "__cached__", "__warningregistry__"}


def state():
    """{module: digest} of everything the library keeps between calls, plus the interpreter settings a call could change."""
    res = {}
    for name in sorted(m for m in sys.modules if m == "fluids" or m.startswith("fluids.")):
        m = sys.modules[name]
        if m is None:
            continue
        h = blake2b(digest_size=12)
        H = _Hasher(name)
        for k, v in list(vars(m).items()):
            if k in SKIP_NAMES:
                continue
            h.update(k.encode())
            H.enc(v, h.update)
        res[name] = h.hexdigest()
    h = blake2b(digest_size=12)
    h.update(repr(random.getstate()).encode())
    h.update(repr((os.getcwd(), sys.getrecursionlimit(), len(warnings.filters))).encode())
    h.update(repr(sorted(os.environ.items())).encode())
    np = sys.modules.get("numpy")
    if np is not None:
        h.update(repr(np.geterr()).encode())
    mp = sys.modules.get("mpmath")
    if mp is not None:
        h.update(repr(mp.mp.prec).encode())
    res["<interpreter>"] = h.hexdigest()
    return res


def digest(s):
    return blake2b(repr(sorted(s.items())).encode(), digest_size=8).hexdigest()


def changed(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
