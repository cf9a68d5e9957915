"""python -m mc.run Cnn : run one property's check (quick or thorough, by VERIF_TIER)."""
from __future__ import annotations

import base64
import importlib
import json
import os
import pickle
import re
import sys
import time

from . import core


def findings(prop):
    p = os.path.join(core.VERIF, "known_findings.json")
    with open(p) as f:
        data = json.load(f)
    return [e for e in data.get("findings", []) if e["property"] == prop]


def matches(entry, key):
    if "key" in entry and entry["key"] == key:
        return True
    return key in entry.get("keys", ())


def main():
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    for a in sys.argv[2:]:
        if a.startswith("--space="):
            only = a.split("=", 1)[1]
    t0 = time.time()
    budget = float(os.environ.get("MC_BUDGET", "600" if tier == "quick" else "10800"))
    sys.path.insert(0, core.REPO)
    import fluids
    assert os.path.realpath(fluids.__file__).startswith(os.path.realpath(core.REPO) + "/"), fluids.__file__
    mod = importlib.import_module("mc.props." + prop.lower())
    spaces = list(mod.spaces(tier))
    names = [s.name for s in spaces]
    assert len(set(names)) == len(names), "duplicate space names"
    if only:
        spaces = [s for s in spaces if re.search(only, s.name)]
    results, bad = core.run_spaces(spaces, t0 + budget, getattr(mod, "WORKERS", None))
    if bad:
        print("HARNESS ERROR: worker(s) died: %s" % bad)
        sys.exit(2)

    known = findings(prop)
    hit = {}
    viols = []
    for s in spaces:
        r = results.get(s.name)
        if r is None:
            continue
        for v in sorted(r["viol"], key=lambda v: v[0]):
            for i, e in enumerate(known):
                if matches(e, v[1]):
                    hit.setdefault(i, []).append(v)
                    break
            else:
                viols.append((s, v))
    for i, e in enumerate(known):
        if i in hit:
            print("KNOWN-FINDING: property=%s %s (%d case(s))" % (prop, e["what"], len(hit[i])))

    per = {}
    total = dict(evals=0, trivial=0, states=0, transitions=0, traces=0, xout=0)
    hashes = 0
    samples = []
    cut = False
    for s in spaces:
        r = results.get(s.name)
        if r is None:
            continue
        d = {"cases": r["cases"], "executions": r["evals"], "trivial": r["trivial"], "distinct_outcomes": len(r["hashes"])}
        if s.rule:
            d["rule"] = s.rule
        if r["states"]:
            d.update(states=r["states"], transitions=r["transitions"], traces=r["traces"])
        if r["cut"]:
            d["cut"] = True
            cut = True
        per[s.name] = d
        for k in total:
            total[k] += r[k]
        hashes += len(r["hashes"]) + r["xout"]
        samples += r["samples"][:1]
    level = getattr(mod, "LEVEL", "exploration")
    cov = {"exhaustive": not cut, "rule": mod.RULE, "samples": samples[:12], "spaces": per,
           "evaluations": total["evals"], "distinct_nontrivial": hashes,
           "trivial_cases": total["trivial"]}
    if level == "model_checking":
        cov["states"] = total["states"]
        cov["transitions"] = total["transitions"]
        cov["traces_validated_against_impl"] = total["traces"]
    if not cov["samples"]:
        cov["samples"] = [{"note": "no case completed"}]
    if hasattr(mod, "extra_coverage"):
        cov.update(mod.extra_coverage(results))
    evd = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed,
           "level": level, "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
           "wall_s": round(time.time() - t0, 3), "violations": len(viols)}
    if not only:
        os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(core.VERIF, "evidence", prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(evd, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
    vac = [s.name for s in spaces if s.name in results and results[s.name]["cases"] and not results[s.name]["hashes"]
           and not results[s.name]["nviol"]]
    print("%s tier=%s spaces=%d executions=%d distinct=%d trivial=%d states=%d transitions=%d %s %.1fs" % (
        prop, tier, len(spaces), total["evals"], hashes, total["trivial"], total["states"], total["transitions"],
        "CUT" if cut else "exhaustive", time.time() - t0))
    if os.environ.get("MC_VERBOSE"):
        for n, d in per.items():
            print("   ", n, {k: v for k, v in d.items() if k != "rule"})
    if vac:
        print("HARNESS ERROR: vacuous space(s): %s" % vac)
        sys.exit(2)
    if viols:
        rd = os.path.join(core.VERIF, "replays")
        os.makedirs(rd, exist_ok=True)
        shown = 0
        maxshow = int(os.environ.get("MC_SHOW", "8"))
        n = 0
        for s, (i, k, msg, case) in viols:
            if shown >= maxshow:
                break
            shown += 1
            path = os.path.join(rd, "%s-%d.json" % (prop, shown))
            with open(path, "w") as f:
                json.dump({"property": prop, "tier": tier, "space": s.name, "index": i, "key": k, "message": msg,
                           "case": core.canon(case, 17),
                           "pickle": base64.b64encode(pickle.dumps(case)).decode() if case is not None else None}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("    [%s] %s" % (k[:300], msg[:600]))
        if len(viols) > shown:
            print("    ... and %d more violating cases" % (len(viols) - shown))
        if os.environ.get("MC_KEYS"):
            with open(os.environ["MC_KEYS"], "w") as f:
                for s, v in viols:
                    f.write(json.dumps([v[1], v[2]]) + "\n")
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
