"""Plant and confirm bugs.  seed.py build SPEC.py ... writes seeded/<id>/; seed.py confirm ID ... runs
build, stable tests, demo and the property's check against a scratch copy bound over /repo in a private mount namespace."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(ROOT, "seeded")
DEMO = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nPYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def seed(id, prop, edits, demo, needs, breaks):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    files = {}
    for fn, old, new in edits:
        t = files.get(fn) or open("/repo/" + fn).read()
        if t.count(old) != 1:
            raise SystemExit("%s: %d matches of %r in %s" % (id, t.count(old), old[:60], fn))
        files[fn] = t.replace(old, new)
    out = ""
    for fn, t in files.items():
        a = open("/repo/" + fn).read().splitlines(True)
        out += "diff --git a/%s b/%s\n" % (fn, fn) + "".join(difflib.unified_diff(a, t.splitlines(True), "a/" + fn, "b/" + fn))
    open(os.path.join(d, "patch.diff"), "w").write(out)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip())
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


INNER = r'''
set -u
mount --bind %(copy)s /repo || exit 9
cd /repo
D=%(dir)s
timeout 300 bash $D/demo.sh > %(out)s/demo0 2>&1; echo "demo0 $?"
git apply $D/patch.diff || { echo "apply FAIL"; exit 8; }
timeout 300 bash $D/demo.sh > %(out)s/demo1 2>&1; echo "demo1 $?"
if [ "%(notest)s" != 1 ]; then
bash /opt/vp/build.sh > %(out)s/build 2>&1; echo "build $?"
bash /opt/vp/test.sh %(out)s/t.json > %(out)s/test 2>&1
/opt/venv/bin/python - <<'P'
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); t=json.load(open("%(out)s/t.json"))
p=set(t.get("passed") or [k for k,v in (t.get("results") or t).items() if v in ("passed","pass",True)])
print("failing", len(b-p), sorted(b-p)[:4])
P
fi
cd /verif
for c in %(checks)s; do timeout 900 ./check.sh $c > %(out)s/check.$c 2>&1; echo "check $c $?" $(grep -c "^VIOLATION property=$c" %(out)s/check.$c); done
'''


def confirm(id, notest=False, extra=()):
    d = os.path.join(S, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        copy, out, wd = w + "/repo", w + "/out", w + "/dir"
        os.mkdir(out)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        shutil.copytree(d, wd)
        sh = INNER % dict(copy=copy, dir=wd, out=out, checks=" ".join([prop] + list(extra)), notest=int(notest))
        r = subprocess.run(["unshare", "-rm", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(id, prop, "|", " | ".join(r.stdout.split("\n")), flush=True)
        for f in ("demo0", "demo1", "check." + prop):
            t = open(out + "/" + f).read() if os.path.exists(out + "/" + f) else ""
            print("   ", f, ":", [l[:220] for l in t.strip().split("\n") if l][-3:], flush=True)
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    if sys.argv[1] == "build":
        for p in sys.argv[2:]:
            exec(compile(open(p).read(), p, "exec"), {"seed": seed})
    else:
        a = [x for x in sys.argv[2:] if not x.startswith("-")]
        for i in a:
            confirm(i, "--notest" in sys.argv)
