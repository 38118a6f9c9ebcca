"""Helper used by hand to write /verif/seeded/<id> and to confirm a planted bug in a scratch copy.
   plant.py write BATCH.py      (BATCH.py defines BUGS: list of dicts id, property, needs, breaks, edits [(file, old, new)], demo)
   plant.py confirm ID...       (demo on a clean copy, demo on the patched copy, the repository's tests on the patched copy)"""
import json, os, re, shutil, subprocess, sys, tempfile, difflib

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
DEMO = '''#!/bin/bash
. /opt/vp/env.sh 2>/dev/null
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
HEAD = '''import os, sys, logging, warnings
warnings.filterwarnings("ignore"); logging.disable(logging.CRITICAL)
sys.path.insert(0, os.getcwd())
'''


def write(batch):
    ns = {}
    exec(open(batch).read(), ns)
    for b in ns["BUGS"]:
        d = os.path.join(SEED, b["id"])
        os.makedirs(d, exist_ok=True)
        diff = ""
        by = {}
        for f, old, new in b["edits"]:
            src = by.get(f) or open(os.path.join(os.environ.get("SRC", "/repo"), f)).read()
            assert src.count(old) == 1, (b["id"], f, src.count(old), old)
            by[f] = src.replace(old, new)
        for f, new in by.items():
            o = open(os.path.join(os.environ.get("SRC", "/repo"), f)).read()
            diff += "".join(difflib.unified_diff(o.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f))
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


def blame(d):
    """The removed lines must be lines of the original repository."""
    mine = subprocess.run("git -C /repo log --format=%H a6ac9bf..HEAD", shell=True, capture_output=True, text=True).stdout.split()
    bad, f = [], None
    for l in open(os.path.join(d, "patch.diff")):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", f], capture_output=True, text=True).stdout.splitlines()
            own = {x.split(") ", 1)[1] if ") " in x else "" for x in bl if x.split()[0] in mine}
            orig = {x.split(") ", 1)[1] if ") " in x else "" for x in bl if x.split()[0] not in mine}
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip():
            if l[1:].rstrip("\n") in own and l[1:].rstrip("\n") not in orig:
                bad.append(l)
    return bad


def confirm(ids, suite=True):
    for i in ids:
        d = os.path.join(SEED, i)
        bad = blame(d)
        tmp = tempfile.mkdtemp(prefix="plant_")
        try:
            demo = os.path.join(tmp, "demo")
            shutil.copytree(d, demo)
            subprocess.run(["cp", "-a", "/repo", tmp + "/repo"], check=True)
            r = os.path.join(tmp, "repo")
            subprocess.run("git checkout -q -- .", shell=True, cwd=r)
            a = subprocess.run(["bash", demo + "/demo.sh"], cwd=r, capture_output=True, text=True)
            ap = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=r, capture_output=True, text=True)
            b = subprocess.run(["bash", demo + "/demo.sh"], cwd=r, capture_output=True, text=True)
            out = f"{i}: clean rc={a.returncode} apply={ap.returncode} patched rc={b.returncode} notorig={bad}"
            if a.returncode:
                out += " CLEAN-ERR " + a.stderr[-300:]
            if b.returncode:
                out += " | " + b.stderr.strip().splitlines()[-1][:160]
            if suite and a.returncode == 0 and b.returncode and not ap.returncode:
                env = dict(os.environ, PYTHONPATH="/opt/vp/plugin")
                t = subprocess.run('. /opt/vp/env.sh; export PYTHONPATH=/opt/vp/plugin; /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider -p vp_seed --hypothesis-seed=0 --timeout=600 -n %s --dist worksteal -m "not slow"' % os.environ.get("NP", "8"),
                                   shell=True, cwd=r, capture_output=True, text=True, executable="/bin/bash", env=env)
                tail = t.stdout.strip().splitlines()
                fails = [l for l in tail if l.startswith("FAILED") or l.startswith("ERROR")]
                out += "\n   suite: " + (tail[-1] if tail else "?") + "".join("\n     " + f[:160] for f in fails[:8])
            print(out, flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "write":
        write(sys.argv[2])
    elif sys.argv[1] == "demo":
        confirm(sys.argv[2:], suite=False)
    else:
        confirm(sys.argv[2:])
