"""Plants one bug: writes seeded/<id>/ from a patch spec and confirms it.

usage: plant.py SPEC.py     SPEC defines ID, PROP, EDITS [(file, old, new)], DEMO (python), NEEDS, BREAKS
The change is made in a scratch copy of /repo; tests and demo run there; the
check runs against that copy (VF_REPO)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run with cwd = the repository
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1
PYTHONPATH="$PWD" exec %s -W ignore "$(dirname "$0")/demo.py"
''' % PY


def sh(cmd, cwd, timeout=900, env=None):
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=env)
    return r.returncode, r.stdout + r.stderr


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ID = ns["ID"]
    d = os.path.join(ROOT, "seeded", ID)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.py"), "w").write(ns["DEMO"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="plant_")
    wt = os.path.join(tmp, "repo")
    try:
        sh("cp -a /repo %s" % wt, "/")
        rc0, o0 = sh("bash %s/demo.sh" % d, wt, 300)
        for f, a, b in ns["EDITS"]:
            p = os.path.join(wt, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.run("git diff", cwd=wt, shell=True, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        rc1, o1 = sh("bash %s/demo.sh" % d, wt, 300)
        tr = "n/a"
        env = dict(os.environ, MPLBACKEND="Agg", PYTHONPATH=wt, MPLCONFIGDIR="/opt/mplconfig")
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        _, to = sh("%s -m pytest -q --no-header -p no:cacheprovider --continue-on-collection-errors tests 2>&1"
                   " | grep -E '^(FAILED|ERROR)|passed' | grep -v MIMO2x2" % PY, wt, env=env)
        tr = to.strip()
        env = dict(os.environ, VF_REPO=wt)
        props = ns.get("CHECK", [ns["PROP"]])
        for q in props:
            rc, out = sh("%s -W ignore run.py %s" % (PY, q), ROOT, env=env)
            hit = [l for l in out.splitlines() if l.startswith(("VIOLATION", "NO-ANSWER"))]
            print("%s check %s rc=%d %s" % (ID, q, rc, [h[:110] for h in hit[:2]]))
            if rc == 1:
                print("   ", [l for l in out.splitlines() if l.startswith("  scenario")][0][:260])
            if q == ns["PROP"]:
                dp = os.path.join(ROOT, "tools", "detected.json")
                det = json.load(open(dp)) if os.path.exists(dp) else {}
                sc = [l for l in out.splitlines() if l.startswith("  scenario")]
                det[ID] = ("yes (%s)" % sc[0].split(" claim ")[0].strip()) if rc == 1 else "no (exit %d)" % rc
                json.dump(det, open(dp, "w"), indent=1, sort_keys=True)
        print("%s demo clean=%d planted=%d tests: %s" % (ID, rc0, rc1, tr))
        if rc0:
            print(o0[-800:])
        if not rc1:
            print(o1[-800:])
        print("   demo says:", o1.strip().splitlines()[-1][:200] if o1.strip() else "")
    finally:
        shutil.rmtree(tmp)


main()
