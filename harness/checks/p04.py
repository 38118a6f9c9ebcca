"""P04: the adjoint of a program is its conjugate transpose."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["off-diagonal projectors are covered by the dense matrix only in the adjoint of the block"]
INV = ("DaggerInv", "InvolutionInv", "ProductInv")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCDagger", blocks_cfg(3, stage("EveryGate", "NoComps", 1, 1), Exprs="TwoExprs" if q else "AllExprs", Batches="FewBatches", Sim=False, invariants=INV), workers=3)
    bg.check("MCDagger", blocks_cfg(2, stage("FewGates", "SmallDag", 3, 0), Exprs="OneExpr", Batches="SingleBatch", Sim=False, invariants=INV), workers=3)
    k, num = (4, 40) if q else (16, 200)
    bg.simulate("MCDagger", blocks_cfg(3, stage("AllGates", "DagComps", 9, 3)), num, 60, k, salt=41)
    bg.simulate("MCDagger", blocks_cfg(3, stage("AllGates", "DagComps", 5, 3)), num, 60, k, salt=42)
    bg.simulate("MCDagger", blocks_cfg(4, stage("AllGates", "DagComps", 7, 3), Batches="OneBatch"), num, 60, k, salt=43)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import observers
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observers.adjoint, cases)


def replay_one(case):
    import observers

    observers.adjoint(case)
