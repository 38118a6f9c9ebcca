"""Development aid: run checks against planted bugs in scratch copies of /repo.  trybugs.py [-p P05] ID...
The registered checks always run against /repo itself."""
import json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
forced = None
if args and args[0] == "-p":
    forced, args = args[1], args[2:]
ids = args or sorted(os.listdir(ROOT + "/seeded"))
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    prop = forced or json.load(open(d + "/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="try_")
    try:
        subprocess.run(["cp", "-a", os.environ.get("SRC", "/repo"), tmp + "/repo"], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=tmp + "/repo", check=True)
        t = time.time()
        # a copy of the harness, so that evidence is not overwritten
        subprocess.run(["cp", "-a", ROOT + "/harness", ROOT + "/spec", ROOT + "/check.sh", ROOT + "/known_findings.txt", tmp], check=True)
        env = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), QADENCE_COPY=tmp + "/repo")
        src = open(tmp + "/check.sh").read().replace("exec ", "export PYTHONPATH=$QADENCE_COPY\nexec ")
        open(tmp + "/check.sh", "w").write(src)
        r = subprocess.run(["bash", tmp + "/check.sh", prop, "quick"], capture_output=True, text=True, env=env)
        lines = [l for l in r.stdout.splitlines() if "KNOWN" not in l]
        if not forced:
            cf = ROOT + "/tools/caught.json"
            c = json.load(open(cf)) if os.path.exists(cf) else {}
            c[i] = f"caught by {prop}" if r.returncode == 1 else f"missed by {prop}"
            json.dump(c, open(cf, "w"), indent=1, sort_keys=True)
        print(f"{i}: {prop} rc={r.returncode} {time.time() - t:.0f}s {'CAUGHT' if r.returncode == 1 else 'MISSED'} | {lines[1].strip()[:200] if r.returncode == 1 else r.stderr[-300:]}", flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
