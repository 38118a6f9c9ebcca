"""P05: expectation values are those of the state the program prepares."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["observables are sums and products of I, X, Y, Z, N with real, possibly parametric, coefficients"]
INV = ("RealInv", "NormInv")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    m = dict(Pairs="<<>>", WithCols="TRUE")
    # every gate, then a one-gate observable: exhaustive
    bg.check("MCExpect", blocks_cfg(2, [stage("UnitaryGates", "NoComps", 1, 0), stage("ObsGates", "NoComps", 1, 0)], Exprs="OneExpr", Batches="SingleBatch",
                                    Sim=False, invariants=INV, **m), workers=3)
    k, num = (4, 50) if q else (16, 150)
    bg.simulate("MCExpect", blocks_cfg(3, [stage("UnitaryGates", "UniComps", 7, 3), stage("ObsGates", "ObsComps", 7, 0), stage("ObsGates", "ObsComps", 5, 0)], **m), num, 70, k, salt=51)
    bg.simulate("MCExpect", blocks_cfg(4, [stage("UnitaryGates", "UniComps", 7, 3), stage("ObsGates", "ObsComps", 6, 0)], **m), num, 70, k, salt=52)
    bg.simulate("MCExpect", blocks_cfg(2, [stage("UnitaryGates", "UniComps", 6, 2), stage("ObsGates", "ObsComps", 8, 0), stage("ObsGates", "ObsComps", 2, 0), stage("ObsGates", "NumObsComps", 3, 0)], **m), num, 70, k, salt=53)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import observers
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observers.expectation, cases)


def replay_one(case):
    import observers

    observers.expectation(case)
