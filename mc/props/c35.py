"""C35: the climate station store answers correctly and survives faults.

Nearest-station queries are compared with a brute-force search over an independent parse of
the station file.  Faults are injected into the real loading and download code, every one in
its own process: an exception or a process death at every executed source line of the module
and at every file operation (as seen by the interpreter's audit hook), a disk that fills up or
a process killed after every possible number of bytes (RLIMIT_FSIZE), a connection that fails
or stops after every possible number of bytes; then the calls are made again without the fault,
and, for the download cache, without the network.  Histories of several faults are enumerated
over a reduced alphabet."""
import builtins
import gzip
import io
import itertools
import os
import resource
import signal
import sys
import urllib.error
import urllib.request
from email.message import Message
from urllib.response import addinfourl

from .. import core, hist
from ..core import Outcome, Space, TRIVIAL, Violation, canon, need

LEVEL = "fault_enumeration"
RULE = ("One fault (exception or process death at each executed line and file operation, each byte count of a short write, killed "
        "write or short response) in each forked run of the operation, followed by fault-free and network-free runs; fault "
        "sequences of the stated length over the reduced alphabet; nearest-station queries over the position lattice.")
ASSUMPTIONS = ["the station file itself is intact whenever it can be opened",
               "distance is taken in degrees of latitude and longitude, as the KD-tree of the library does (not along a great circle)",
               "coordinates of exactly (0, 0) mean that the position is unknown",
               "a write reaches the disk in order (no reordering of completed writes by the kernel)"]
SCRATCH = os.path.join(os.environ.get("MC_TMP", "/tmp"), "c35")
BIG = 10 ** 12


# ------------------------------------------------------------------ stations
def parse(path):
    """rows with a known position: (latitude, longitude, end date, (USAF, WBAN))"""
    rows = []
    with open(path) as f:
        for line in f:
            v = line.rstrip("\n").split("\t")
            if v[6] == "" or v[7] == "":
                continue
            lat, lon = float(v[6]), float(v[7])
            if lat == 0 and lon == 0:
                continue
            rows.append((lat, lon, float(v[10]), v[2]))
    return rows


def station_file():
    return os.path.join(core.REPO, "fluids", "data", "isd-history-cleaned.tsv")


def small_file():
    p = os.path.join(SCRATCH, "small.tsv")
    with open(station_file()) as f:
        lines = f.readlines()
    pick = lines[:2] + lines[4000:4003] + lines[-2:]
    with open(p, "w") as f:
        f.writelines(pick)
    return p, pick


def redirect(path):
    """reads of the station list are served from the small file"""
    real = io.open

    def op(file, *a, **k):
        if isinstance(file, (str, os.PathLike)) and os.path.basename(os.fspath(file)) == "isd-history-cleaned.tsv":
            file = path
        return real(file, *a, **k)
    builtins.open = op
    io.open = op


GETTERS = ("get_station_count", "get_stations", "get_latlongs", "get_kd_tree", "get_closest_station")


def getter(d, g):
    if g == "get_closest_station":
        return [repr(d.get_closest_station(la, lo, t)) for la, lo, t in ((50., 10., 0), (-30., 140., 0), (60., -100., 19800101))]
    v = getattr(d, g)()
    if g == "get_station_count":
        return v
    if g == "get_stations":
        return [repr(s) for s in v]
    if g == "get_latlongs":
        return v.tolist()
    return [v.n, v.data.tolist(), [list(map(float, i)) for i in v.query([10., 10.], k=3)]]


# ------------------------------------------------------------------ fault injection
def tracer(n, act, count):
    """act() at the n-th line executed in the climate module"""
    def local(frame, event, arg):
        if event == "line":
            count[0] += 1
            if count[0] == n:
                act()
        return local

    def glob(frame, event, arg):
        return local if frame.f_globals.get("__name__") == "fluids.design_climate" else None
    return glob


FILE_EVENTS = {"open", "os.rename", "os.remove", "os.mkdir", "os.rmdir", "os.truncate", "shutil.copyfile", "shutil.move", "os.link", "os.symlink", "os.chmod",
               "os.listdir", "tempfile.mkstemp", "tempfile.mkdtemp"}


def audit(n, act, count, root):
    """act() just before the n-th file operation on a path under root (or a descriptor)"""
    state = {"on": True}

    def hook(event, args):
        if state["on"] and event in FILE_EVENTS and any(isinstance(a, (str, bytes)) and os.fsdecode(a).startswith(root) for a in args if a is not None):
            count[0] += 1
            if count[0] == n:
                act()
    sys.addaudithook(hook)
    return state


def raiser(exc):
    def act():
        raise exc
    return act


def die():
    os._exit(77)


def limit(n, kill):
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))


def unlimit():
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (hard, hard))


def child(fn):
    """(result or None if the process died) of fn in a fork; the result comes through a pipe, which no size limit applies to"""
    try:
        return hist.forked(fn)
    except hist.ChildFailed as e:
        if "died" in str(e):
            return None
        raise


# ------------------------------------------------------------------ network
class Net:
    """stands in for urllib's opener: serves the records, or fails in the chosen way"""

    def __init__(self, payload, mode="ok", n=0):
        self.payload, self.mode, self.n, self.calls = payload, mode, n, 0

    def open(self, req, data=None, timeout=None):
        self.calls += 1
        if self.mode == "down":
            raise urllib.error.URLError("no route to host")
        if self.mode == "timeout":
            raise TimeoutError("timed out")
        body = io.BytesIO(self.payload)
        if self.mode == "short":
            body = io.BytesIO(self.payload[:self.n])
        if self.mode == "garbled":
            b = bytearray(self.payload)
            b[self.n] ^= 0x55
            body = io.BytesIO(bytes(b))
        if self.mode == "reset":
            class Reset(io.BytesIO):
                def read(self, *a):
                    raise ConnectionResetError("connection reset by peer")
                readline = readinto = read1 = read
            body = Reset(self.payload)
        return addinfourl(body, Message(), "ftp://host/x")


def payload(text):
    return gzip.compress(text.encode(), mtime=0)


def record(i):
    return "712650 99999  199901%02d    %4.1f 24     3.1 24  1022.8 24  1013.0 24    8.4 24   15.0 24   22.9   29.9    23.7     4.1   0.00G 999.9  001000\n" % (i, i + .3)


TEXT = "STN--- WBAN   YEARMODA    TEMP       DEWP      SLP        STP       VISIB      WDSP     MXSPD   GUST    MAX     MIN   PRCP   SNDP   FRSHTT\n" + "".join(record(i) for i in (1, 2, 3))
ID = (712650, None, 1999)


def fetch(root, net, ident=ID):
    import fluids.design_climate as d
    urllib.request.install_opener(net)
    try:
        return d.get_station_year_text(ident[0], ident[1], ident[2], data_dir_override=root)
    except Exception as e:
        return "!" + type(e).__name__


def fresh(name):
    import shutil
    p = os.path.join(SCRATCH, name)
    shutil.rmtree(p, ignore_errors=True)
    os.makedirs(p)
    return p


def after(root, text, label, key):
    """the state the fault left: without the network, then with it, then without it again"""
    pl = payload(text)
    v = child(lambda: fetch(root, Net(pl, "down")))
    need(v is not None and (v == text or v.startswith("!")), "%s; then, with no network, the call returns %s" % (label, canon(v)[:160]), key + " offline")
    v = child(lambda: fetch(root, Net(pl, "ok")))
    need(v == text, "%s; then, with the network back, the call gives %s" % (label, canon(v)[:160]), key + " online")
    v = child(lambda: fetch(root, Net(pl, "down")))
    need(v == text, "%s; then, once it had been downloaded, the call gives %s with no network" % (label, canon(v)[:160]), key + " cached")
    left = []
    for base, _, files in os.walk(root):
        left += [os.path.join(base, f) for f in files]
    return len(left)


def spaces(tier):
    import shutil
    import numpy as np
    import scipy.spatial  # noqa: F401
    import fluids  # noqa: F401
    import fluids.design_climate  # noqa: F401
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    rows = parse(station_file())
    P = np.array([r[:2] for r in rows])
    END = np.array([r[2] for r in rows])
    deep = tier == "thorough"
    small, lines = small_file()

    # ---- queries
    step = 5 if deep else 15
    pos = [(float(a), float(b)) for a in range(-90, 91, step) for b in range(-180, 181, step)]
    pos += [(r[0], r[1]) for r in rows[::(20 if deep else 400)]]                      # on a station
    pos += [(r[0] + .01, r[1] - .013) for r in rows[7::(20 if deep else 400)]]
    pos += [(r[0], r[1]) for r in rows if r[0] == 0 or r[1] == 0][::(1 if deep else 6)]  # on the equator or the meridian of Greenwich
    DATES = (0, 19600101, 20140000, 20150000, 20241201, max(r[2] for r in rows) - 1)
    SIZES = (1, 2, 7, 100, 3000, 10 ** 6)

    def query(p):
        import fluids.design_climate as d
        dist = np.hypot(P[:, 0] - p[0], P[:, 1] - p[1])
        n = 0
        for t in DATES:
            ok = END > t
            best = dist[ok].min()
            for size in SIZES:
                if size == 10 ** 6 and not deep and t not in (0, 20150000):
                    continue
                try:
                    s = d.get_closest_station(p[0], p[1], t, match_max=size)
                except Exception as e:
                    raise Violation("nearest station to %s with data past %s, search size %s: raises %s: %s" % (p, t, size, type(e).__name__, e), key="search size %s" % size)
                got = float(np.hypot(s.LAT - p[0], s.LON - p[1]))
                need(abs(got - best) <= 1e-9 * (1 + best), "nearest station to %s with data past %s, search size %s: %s is %.6g degrees away, the nearest is %.6g" % (
                    p, t, size, s.NAME, got, best), "nearest")
                need(s.END > t, "nearest station to %s with data past %s: %s has data until %s" % (p, t, s.NAME, s.END), "date")
                n += 1
        for size in (1, 100):
            try:
                s = d.get_closest_station(p[0], p[1], 90150000, match_max=size)
            except ValueError:
                n += 1
            except Exception as e:
                raise Violation("no station qualifies, search size %s: raises %s" % (size, type(e).__name__), key="none qualifies")
            else:
                raise Violation("no station has data past the year 9015, yet %s is returned" % s.NAME, key="none qualifies")
        return Outcome(round(best, 9), evals=n)

    def whole(which):
        """every located station of the file is in the store, once, in order, with its own fields"""
        import fluids.design_climate as d
        st = d.get_stations()
        need(len(st) == len(rows) == d.get_station_count() == d.get_latlongs().shape[0] == d.get_kd_tree().n,
             "the store has %d stations, the file %d with a known position" % (len(st), len(rows)), "count")
        for s, r, ll in zip(st, rows, d.get_latlongs().tolist()):
            need((s.LAT, s.LON, s.END, s.NAME or "") == r and tuple(ll) == r[:2], "the record %s is stored as %s" % (r, (s.LAT, s.LON, s.END, s.NAME)), "fields")
        return len(st)

    # ---- faults while the station list is loaded
    def reference():
        redirect(small)
        import fluids.design_climate as d
        return {g: getter(d, g) for g in GETTERS}
    ref = hist.forked(reference)

    def count_lines(first):
        def run():
            import fluids.design_climate as d
            redirect(small)
            c = [0]
            sys.settrace(tracer(-1, None, c))
            getter(d, first)
            sys.settrace(None)
            return c[0]
        return hist.forked(run)
    nlines = {g: count_lines(g) for g in GETTERS}

    def load_fault(case):
        first, kind, i, second = case

        def run():
            import fluids.design_climate as d
            redirect(small)
            c = [0]
            if kind in ("MemoryError", "KeyboardInterrupt"):
                exc = MemoryError("injected") if kind == "MemoryError" else KeyboardInterrupt("injected")
                sys.settrace(tracer(i, raiser(exc), c))
                off = lambda: sys.settrace(None)        # noqa: E731
            else:
                st = audit(i, raiser(OSError(5, "injected")), c, SCRATCH)
                off = lambda: st.update(on=False)       # noqa: E731
            try:
                getter(d, first)
            except BaseException:
                pass
            off()
            order = [second] + [g for g in GETTERS if g != second]
            out = {}
            for g in order:
                try:
                    out[g] = getter(d, g)
                except BaseException as e:
                    out[g] = "!%s: %s" % (type(e).__name__, e)
            return out
        v = child(run)
        for g in GETTERS:
            need(v[g] == ref[g], "%s at step %d of the first %s; afterwards %s gives %s, without the fault %s" % (
                kind, i, first, g, canon(v[g])[:120], canon(ref[g])[:120]), "%s after a failed %s" % (g, first))
        return (first, second)

    def load_cases():
        out = []
        for first in GETTERS:
            total = nlines[first]
            steps = range(1, total + 1) if total <= 1500 else list(range(1, 400)) + list(range(total - 400, total + 1))
            for i in steps:
                seconds = GETTERS if deep else (GETTERS[i % len(GETTERS)], "get_closest_station")
                for kind in ("MemoryError", "KeyboardInterrupt") if deep else (("MemoryError", "KeyboardInterrupt")[i % 2],):
                    out += [(first, kind, i, s) for s in dict.fromkeys(seconds)]
            out += [(first, "small", i, s) for i in (1, 2) for s in GETTERS]
        return out

    # ---- download: one fault
    pl = payload(TEXT)

    def download_lines(mode):
        def run():
            c = [0]
            root = fresh("count")
            sys.settrace(tracer(-1, None, c))
            fetch(root, Net(pl, mode))
            sys.settrace(None)
            return c[0]
        return hist.forked(run)

    def download_ops(mode):
        def run():
            c = [0]
            root = fresh("count")
            audit(-1, None, c, root)
            fetch(root, Net(pl, mode))
            return c[0]
        return hist.forked(run)

    def prepare(root, start):
        """what is there before the faulty call"""
        if start == "nothing":
            return
        if start == "failed before":
            child(lambda: fetch(root, Net(pl, "down")))
        if start == "other year":
            child(lambda: fetch(root, Net(payload("other\n" * 9)), (712650, None, 1998)))
        if start == "other station":
            child(lambda: fetch(root, Net(payload("other\n" * 9)), (700000, "03071", 1999)))
        if start == "cached":
            child(lambda: fetch(root, Net(pl, "ok")))

    def one(case):
        kind, i, mode, start = case
        name = "w%d" % os.getpid()
        root = fresh(name)
        prepare(root, start)
        c = [0]

        def run():
            if kind in ("interrupted line", "killed line"):
                sys.settrace(tracer(i, die if kind == "killed line" else raiser(KeyboardInterrupt("injected")), c))
            elif kind in ("failed operation", "killed operation"):
                audit(i, die if kind == "killed operation" else raiser(OSError(28, "No space left on device")), c, root)
            elif kind in ("disk full", "killed write"):
                limit(i, kind == "killed write")
            net = Net(pl, mode, i)
            try:
                v = fetch(root, net)
            except BaseException as e:
                v = "!" + type(e).__name__
            sys.settrace(None)
            if kind in ("disk full", "killed write"):
                unlimit()
            return v
        v = child(run)
        label = "%s %d (%s, response %s)" % (kind, i, start, mode)
        need(v is None or v == TEXT or v.startswith("!"), "%s: the call returns %s" % (label, canon(v)[:160]), kind + " result")
        n = after(root, TEXT, label, kind)
        shutil.rmtree(root, ignore_errors=True)
        return (kind, v is None or v[:12], n)

    STARTS = ("nothing", "failed before", "cached", "other year") if deep else ("nothing", "failed before")

    def one_cases():
        out = []
        for mode in ("ok", "down"):
            for start in STARTS:
                extra = 6
                for kind in ("interrupted line", "killed line"):
                    out += [(kind, i, mode, start) for i in range(1, download_lines(mode) + extra)]
                for kind in ("failed operation", "killed operation"):
                    out += [(kind, i, mode, start) for i in range(1, download_ops(mode) + 4)]
                for kind in ("disk full", "killed write"):
                    out += [(kind, i, mode, start) for i in range(0, len(TEXT) + 1 if deep or start == "nothing" else 12)] if mode == "ok" else [(kind, i, mode, start) for i in range(0, 10)]
        out += [("response", i, "short", s) for i in range(len(pl)) for s in STARTS]
        out += [("response", i, "garbled", "nothing") for i in range(len(pl))]
        out += [("response", 0, m, s) for m in ("reset", "timeout", "down", "ok") for s in STARTS]
        return out

    # ---- download: fault histories
    ALPHABET = {
        "ok": lambda root: fetch(root, Net(pl, "ok")),
        "no network": lambda root: fetch(root, Net(pl, "down")),
        "short response": lambda root: fetch(root, Net(pl, "short", len(pl) // 2)),
        "reset": lambda root: fetch(root, Net(pl, "reset")),
        "disk full": lambda root: (limit(40, False), fetch(root, Net(pl, "ok")), unlimit())[1],
        "disk full, no network": lambda root: (limit(4, False), fetch(root, Net(pl, "down")), unlimit())[1],
        "killed write": lambda root: (limit(len(TEXT) // 2, True), fetch(root, Net(pl, "ok")))[1],
        "killed marker": lambda root: (limit(4, True), fetch(root, Net(pl, "down")))[1],
        "other station": lambda root: fetch(root, Net(payload(TEXT * 2)), (700000, None, 1999)),
        "read-only directory": None,
    }
    del ALPHABET["read-only directory"]          # the checks run as root

    def history(h):
        root = fresh("h%d" % os.getpid())
        for k, op in enumerate(h):
            v = child(lambda: ALPHABET[op](root))
            want = TEXT * 2 if op == "other station" else TEXT
            need(v is None or v == want or v.startswith("!"), "after %s, the call (%s) returns %s" % (list(h[:k]), op, canon(v)[:160]), "history result")
            if op == "ok":
                need(v == want, "after %s, a call with nothing wrong gives %s" % (list(h[:k]), canon(v)[:160]), "history ok")
        n = after(root, TEXT, "after %s" % list(h), "history")
        v = child(lambda: fetch(root, Net(payload(TEXT * 2), "ok"), (700000, None, 1999)))
        need(v == TEXT * 2, "after %s, another station's call gives %s" % (list(h), canon(v)[:160]), "history other")
        shutil.rmtree(root, ignore_errors=True)
        return n

    depth = 4 if deep else 3
    loads, ones = load_cases(), one_cases()          # once, before the workers start
    return [
        Space("loading faults", lambda: loads, load_fault, key=repr),
        Space("download faults", lambda: ones, one, key=repr),
        Space("station store", lambda: ["file"], whole, key=str),
        Space("nearest station", lambda: pos, query, key=repr),
        Space("fault histories", lambda: [h for n in range(1, depth + 1) for h in itertools.product(ALPHABET, repeat=n)], history, key=repr),
    ]
