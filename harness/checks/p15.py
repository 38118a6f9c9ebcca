"""P15: states, density matrices and their functionals."""
from specs import Background, blocks_cfg, stage
from tlc import Cfg

ASSUMPTIONS = ["amplitudes in Z[w8]/sqrt(2)^k; mixtures of two pure states with weights in quarters", "entropies of states of rank at most two and their reductions to one qubit", "density matrices as initial states: programs without evolutions (pyqtorch does not evolve them)"]
INV = ("TraceInv", "HalfInv", "PureInv", "SymInv")


def spec_jobs(tier, salt=150, gates="UnitaryGates"):
    bg = Background()
    q = tier == "quick"
    bg.check("MCState", blocks_cfg(2, [stage("BellGates", '{"chain"}', 2, 0), stage("PauliXZ", "NoComps", 1, 0)], Exprs="OneExpr", Batches="SingleBatch",
                                   Sim=False, invariants=INV, spec="SSpec", AllKeeps="TRUE"), workers=3)
    k, num = (4, 24) if q else (12, 150)
    for n in (2, 3) if q else (1, 2, 3, 4):
        bg.simulate("MCState", blocks_cfg(n, [stage(gates, "UniComps", 7, 3), stage(gates, "UniComps", 6, 2)], Exprs="XAExprs",
                                          spec="SSpec", AllKeeps="FALSE"), num if n < 4 else num // 4, 80, k, salt=salt + n)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    bg.check("MCBasis", Cfg({"MaxN": "4" if tier == "quick" else "6"}, invariants=("LabelInv", "PrepInv")), workers=1)
    import state_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"], c["kind"] = i, "state"
    replay(rep, state_obs.session, cases)


def replay_one(case):
    import state_obs

    state_obs.session(case)
