"""python -m mc.replay FILE : run one recorded violating case again, without the explorer."""
import base64
import importlib
import json
import os
import pickle
import sys

from . import core


def main():
    with open(sys.argv[1]) as f:
        d = json.load(f)
    sys.path.insert(0, core.REPO)
    mod = importlib.import_module("mc.props." + d["property"].lower())
    space = [s for s in mod.spaces(d["tier"]) if s.name == d["space"]][0]
    case = None
    if d["pickle"]:
        case = pickle.loads(base64.b64decode(d["pickle"]))
    else:
        for i, c in enumerate(space.cases()):
            if i == d["index"]:
                case = c
                break
    print("space:", space.name, "\ncase:", core.canon(case, 17)[:2000])
    try:
        print("outcome:", core.canon(space.fn(case)))
    except core.Violation as v:
        print("VIOLATION:", v.msg)
        sys.exit(1)


if __name__ == "__main__":
    main()
