"""Run TLC on the modules in /verif/spec inside a scratch directory."""
from __future__ import annotations

import json
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(RuntimeError):
    pass


class Cfg:
    """A model: constants are TLA+ expressions, placed in a generated wrapper module."""

    def __init__(self, consts, spec="Spec", invariants=(), properties=(), constraint=None, view=None):
        self.consts, self.spec = dict(consts), spec
        self.invariants, self.properties = invariants, properties
        self.constraint, self.view = constraint, view

    def wrapper(self, module):
        defs = "\n".join(f"c_{k} == {v}" for k, v in self.consts.items())
        return f"---- MODULE Run ----\nEXTENDS {module}\n{defs}\n====\n"

    def text(self):
        out = [f"SPECIFICATION {self.spec}"]
        if self.consts:
            out.append("CONSTANTS")
            out += [f"  {k} <- c_{k}" for k in self.consts]
        out += [f"INVARIANT {i}" for i in self.invariants]
        out += [f"PROPERTY {p}" for p in self.properties]
        if self.constraint:
            out.append(f"CONSTRAINT {self.constraint}")
        if self.view:
            out.append(f"VIEW {self.view}")
        out.append("CHECK_DEADLOCK FALSE")
        return "\n".join(out) + "\n"


def _one(module, cfg, args, timeout, heap):
    """One TLC process; returns (stdout, wall)."""
    scratch = tempfile.mkdtemp(prefix="vtlc_")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), scratch)
        with open(os.path.join(scratch, "run.cfg"), "w") as fh:
            fh.write(cfg.text())
        with open(os.path.join(scratch, "Run.tla"), "w") as fh:
            fh.write(cfg.wrapper(module))
        cmd = ["java", f"-Xmx{heap}", "-Xss256m", "-XX:+UseSerialGC" if "-workers" in args and args[args.index("-workers") + 1] == "1" else "-XX:+UseParallelGC",
               "-Djava.io.tmpdir=" + scratch, "-cp", JARS, "tlc2.TLC", "-noTE", "-metadir", os.path.join(scratch, "md"),
               "-config", "run.cfg", *args, "Run.tla"]
        t0 = time.time()
        p = subprocess.run(cmd, cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.stdout, time.time() - t0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _emitted(out):
    recs = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            recs.append(json.loads(json.loads(line)[2:]))
    return recs


def _stats(out):
    s = {"states": 0, "distinct": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        s["states"], s["distinct"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"The number of states generated: (\d+)", out)
    if m:
        s["states"] = int(m[-1])
    return s


def _check_output(out, module):
    bad = [l for l in out.splitlines() if l.startswith("Error:") or "is violated" in l or "Fatal" in l]
    if bad:
        i = out.find(bad[0])
        raise TLCError(f"TLC on {module}: " + out[i:i + 3000])
    if "Finished in" not in out:
        raise TLCError(f"TLC on {module} did not finish: " + out[-2000:])


def check(module, cfg, workers=4, timeout=800, heap="4g", args=()):
    """Exhaustive model checking. Raises TLCError when the specification itself fails."""
    out, wall = _one(module, cfg, ["-workers", str(workers), *args], timeout, heap)
    _check_output(out, module)
    return _emitted(out), {**_stats(out), "wall": wall}


def simulate(module, cfgs, num, depth, seeds, timeout=800, heap="1500m", parallel=8):
    """Seeded random behaviours: one single-worker TLC process per (cfg, seed) so runs are reproducible."""
    if isinstance(cfgs, Cfg):
        cfgs = [cfgs]
    jobs = [(c, s) for c in cfgs for s in seeds]

    def go(job):
        cfg, seed = job
        out, wall = _one(module, cfg, ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(seed), "-workers", "1"], timeout, heap)
        _check_output(out, module)
        return _emitted(out), _stats(out)

    t0 = time.time()
    with ThreadPoolExecutor(parallel) as ex:
        res = list(ex.map(go, jobs))
    recs, states = [], 0
    for r, s in res:
        recs.extend(r)
        states += s["states"]
    return recs, {"states": states, "wall": time.time() - t0}
