"""Configurations of the block-building specification shared by the checks."""
from __future__ import annotations

from concurrent.futures import ThreadPoolExecutor

import tlc
from runtime import SEED


def stage(g="AllGates", c="AllComps", f=9, w=3):
    return f"[g |-> {g}, c |-> {c}, f |-> {f}, w |-> {w}]"


def blocks_cfg(NQ, plan, Exprs="AllExprs", Batches="MoreBatches", Sim=True, invariants=(), properties=(), spec="Spec", **more):
    plan = [plan] if isinstance(plan, str) else plan
    c = {"NQ": NQ, "Plan": "<<" + ", ".join(plan) + ">>", "Exprs": Exprs, "Batches": Batches, "Sim": "TRUE" if Sim else "FALSE", **more}
    return tlc.Cfg(c, spec=spec, invariants=invariants, properties=properties)


def seeds(k, salt=0):
    """k seeds derived from VERIF_SEED."""
    return [SEED * 100003 + salt * 1009 + i for i in range(k)]


class Background:
    """TLC work started before the (slow) import of qadence, joined afterwards."""

    def __init__(self, workers=8):
        self.ex = ThreadPoolExecutor(workers)
        self.jobs = []

    def check(self, module, cfg, **kw):
        self.jobs.append(("check", self.ex.submit(tlc.check, module, cfg, **kw)))

    def simulate(self, module, cfg, num, depth, nseeds, salt=0, **kw):
        for s in seeds(nseeds, salt):
            self.jobs.append(("sim", self.ex.submit(tlc.simulate, module, cfg, num, depth, [s], **kw)))

    def join(self, rep):
        """All emitted behaviours, in a deterministic order; counts go to the report."""
        recs, self.counts = [], []
        for kind, j in self.jobs:
            r, st = j.result()
            rep.add_model(st)
            self.counts.append(len(r))
            recs.extend(sorted(r, key=str) if kind == "check" else r)
        self.ex.shutdown()
        return recs
