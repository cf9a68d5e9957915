"""Writes mc/dims.json: documented units of the public formula functions (read from the docstrings of the
tree at the time, then reviewed) and the changes of base units under which each was found homogeneous.
Run once on a reviewed tree; the checks only read the file."""
import inspect, json, os, re, signal, sys, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.environ.get("MC_REPO", "/repo")]
import fluids
from mc import conform, dims
from mc.core import CaseTimeout

LINE = re.compile(r"^(\w+(?:\s*,\s*\w+)*)\s*:\s*(.*)$")


def sections(doc):
    lines = inspect.cleandoc(doc or "").split("\n")
    out, cur, i = {}, None, 0
    while i < len(lines):
        if i + 1 < len(lines) and re.match(r"^-{3,}\s*$", lines[i + 1]) and lines[i].strip():
            cur = lines[i].strip()
            out[cur] = []
            i += 2
            continue
        if cur:
            out[cur].append(lines[i])
        i += 1
    return out


def fields(lines):
    out = []
    for l in lines:
        m = LINE.match(l)
        if m:
            out.append([m.group(1), m.group(2), ""])
        elif out:
            out[-1][2] += " " + l.strip()
    return [[n, (re.findall(r"\[([A-Za-z0-9().\/*^\- ]*)\]", d) or ["-"])[-1].strip()] for n, t, d in out]


def info(f):
    s = sections(f.__doc__)
    a = fields(s.get("Parameters", [])) + fields(s.get("Other Parameters", []))
    return dict(a), fields(s.get("Returns", []))


GAS = ["P1", "P2", "L", "D", "Q"]
MISSING = {n: GAS for n in ("Fritzsche", "Oliphant", "Panhandle_A", "Panhandle_B", "Spitzglass_high", "Spitzglass_low", "Weymouth", "IGT", "Muller")}
MISSING.update(isothermal_gas=["P1", "P2", "L", "D", "m"], nu_mu_converter=["mu", "nu"], differential_pressure_meter_solver=["D", "P1", "P2", "m", "D2"],
               isentropic_work_compression=["P1", "P2", "W", "eta"], liquid_jet_pump_ancillary=["d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2"])
FIX = {"isentropic_efficiency": [["ans", "-"]], "polytropic_exponent": [["ans", "-"]], "transmission_factor": [["ans", "-"]]}


def main():
    from mc.props import c18
    tab = {}
    for key in conform.seeds():
        mod, name = key.rsplit(".", 1)
        f = getattr(fluids, name, None)
        if not isinstance(f, types.FunctionType) or f.__module__ != "fluids." + mod:
            continue
        A, R = info(f)
        if name == "isothermal_gas_err_P1":
            continue
        e = {"args": {a: A.get(a, "-") for a in inspect.signature(f).parameters}, "returns": R}
        if R and R[0][0] == "results" and len(R) > 1:
            e["returns"] = R[1:]
        if name in MISSING:
            e["returns"], e["missing"] = "missing", MISSING[name]
        elif name in FIX:
            e["returns"] = FIX[name]
        if not e["returns"]:
            print("no result units:", key)
            continue
        for x in list(e["args"].values()) + ([x for _, x in e["returns"]] if e["returns"] != "missing" else []):
            dims.parse(x)
        tab[key] = e
    dims._t = tab
    part = {}
    import multiprocessing as mp
    with mp.get_context("fork").Pool(8) as p:
        for key, gens, notes in p.imap_unordered(one, sorted(tab)):
            tab[key]["gens"] = gens
            part[key] = notes
    for key in sorted(part):
        if part[key]:
            print(key, part[key])
    json.dump(tab, open(os.path.join(HERE, "mc", "dims.json"), "w"), indent=0, sort_keys=True)
    print(len(tab), sum(bool(e["gens"]) for e in tab.values()), sum(len(e["gens"]) for e in tab.values()))


def one(key):
    from mc.props import c18

    def al(*a):
        raise CaseTimeout()
    signal.signal(signal.SIGALRM, al)
    e = dims.table()[key]
    good, notes = [], {}
    if key in ("jet_pump.liquid_jet_pump",):
        return key, good, notes
    lat = c18.lattice(key, 400)
    for gen in dims.GENS:
        bad = ok = 0
        ex = None
        for kw in lat:
            signal.alarm(60)
            try:
                r = c18.check(key, e, gen, kw)
            except CaseTimeout:
                continue
            finally:
                signal.alarm(0)
            if r is None:
                continue
            if r is True:
                ok += 1
            else:
                bad += 1
                ex = ex or (kw, r)
                if bad > 40:
                    break
        if ok and not bad:
            good.append(gen)
        elif bad and ok > 5 * bad:
            notes[gen] = (ok, bad, str(ex)[:300])
    return key, good, notes


if __name__ == "__main__":
    main()
