"""P17: measurement protocols estimate the right operator."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["observables with numeric coefficients", "an estimate is rejected when a right estimator deviates as far with probability below exp(-28)"]
INV = ("DecompInv", "LinearInv", "PureInv", "DiagInv", "WordInv")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCMeasure", blocks_cfg(2, [stage("FewGates", "NoComps", 1, 0), stage("ObsGates", "NumObsComps", 2, 0)], Exprs="OneExpr", Batches="SingleBatch", Sim=False, MaxDet=0, invariants=INV), workers=3)
    k, num = (3, 40) if q else (12, 120)
    for n, f, salt in ((2, 6, 171), (3, 8, 172)):
        bg.simulate("MCMeasure", blocks_cfg(n, [stage("CliffGates", "UniComps", f, 0), stage("ObsGates", "NumObsComps", 6, 0), stage("DiagGates", "DiagComps", 5, 0)], MaxDet=2), num, 60, k, salt=salt)
    bg.simulate("MCMeasure", blocks_cfg(3, [stage("UnitaryGates", "UniComps", 7, 2), stage("ObsGates", "NumObsComps", 7, 0), stage("ObsGates", "NumObsComps", 3, 0)], MaxDet=2), num, 60, k, salt=173)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import measure_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, measure_obs.measurement, cases)


def replay_one(case):
    import measure_obs

    measure_obs.measurement(case)
