"""Check driver: spec runs, parallel replay into qadence, evidence, known findings, verdicts."""
from __future__ import annotations

import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known_findings.txt")

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Mismatch(Exception):
    """The real code's observation differs from what the specification allows."""


def known_findings(prop):
    """The listed findings of a property; repaired ones suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                out.append({"key": m[2], "what": m[3]})
    return out


class Report:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = 0
        self.examples = []
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.notes = {}
        self.known = known_findings(prop)

    def add_model(self, stats):
        self.states += int(stats.get("distinct") or stats.get("states") or 0)  # simulation does not count distinct states
        self.transitions += int(stats.get("states") or 0)

    def fail(self, what, case, finding_key=None):
        """Record a mismatch; `finding_key` identifies a listed known finding exactly."""
        if finding_key is not None:
            for k in self.known:
                if k["key"] == finding_key:
                    self.known_hit[finding_key] = k["what"]
                    return
        self.violations.append({"what": what, "case": case})

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        # a listed finding is announced whether or not this run's sampling reached it
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        rc = 0
        if self.violations:
            rc = 1
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            for v in self.violations[:5]:
                blob = json.dumps(v["case"], sort_keys=True, default=str)
                path = os.path.join(rdir, f"{self.prop}-{hashlib.sha1((v['what'] + blob).encode()).hexdigest()[:10]}.json")
                with open(path, "w") as fh:
                    json.dump({"property": self.prop, "what": v["what"], "case": v["case"]}, fh, indent=1, default=str)
                print(f"VIOLATION property={self.prop} replay={path}")
                print("  " + v["what"][:1500])
            if len(self.violations) > 5:
                print(f"  ... and {len(self.violations) - 5} more")
        ev = {
            "property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level,
            "coverage": {"states": self.states, "transitions": self.transitions,
                         "traces_validated_against_impl": self.traces, "comparisons": self.samples,
                         "samples": self.examples, **self.notes},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        print(f"{self.prop} {self.tier}: states={self.states} traces={self.traces} comparisons={self.samples} "
              f"violations={len(self.violations)} wall={ev['wall_s']}s")
        return rc


def brief(case):
    """A behaviour without its bulky expected values, for the evidence file."""
    return {k: v for k, v in case.items() if k not in ("cols", "adj")} if isinstance(case, dict) else case


_FN = None


def _call(arg):
    i, case = arg
    try:
        return i, "ok", _FN(case)
    except Mismatch as e:
        return i, "mismatch", str(e)
    except Exception as e:  # an exception where the specification defines a result
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb][-4:]
        return i, "exception", f"{type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(where))}"


def replay(report: Report, fn, cases, procs=8, chunk=4, key=None):
    """Replay each behaviour with `fn` (returns number of comparisons made or None)."""
    global _FN
    _FN = fn
    cases = list(cases)
    if not cases:
        return
    report.examples.extend(brief(c) for c in cases[:: max(1, len(cases) // 3)][:3])
    work = list(enumerate(cases))
    if procs > 1 and len(cases) > 1:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(procs, len(cases))) as pool:
            results = list(pool.imap_unordered(_call, work, chunksize=chunk))
    else:
        results = [_call(w) for w in work]
    for i, st, val in sorted(results, key=lambda r: r[0]):
        report.traces += 1
        if st == "ok":
            report.samples += int(val or 1)
        else:
            report.fail(f"{st}: {val}", cases[i], key(cases[i], st, val) if key else None)


class Scratch:
    """A scratch directory that is the working directory while in use."""

    def __enter__(self):
        self.old = os.getcwd()
        self.path = tempfile.mkdtemp(prefix="vscratch_")
        os.chdir(self.path)
        return self.path

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)
