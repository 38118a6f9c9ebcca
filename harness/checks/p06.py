"""P06: sampling draws from the exact distribution of the prepared state."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["a sample is rejected when its probability under the exact distribution is below exp(-28)", "unitary programs"]
INV = ("NormInv", "RevInv")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCSample", blocks_cfg(2, stage("UnitaryGates", "NoComps", 1, 0), Exprs="OneExpr", Batches="FewBatches", Sim=False, invariants=INV), workers=3)
    k, num = (4, 50) if q else (16, 150)
    bg.simulate("MCSample", blocks_cfg(3, stage("UnitaryGates", "UniComps", 9, 3)), num, 60, k, salt=61)
    bg.simulate("MCSample", blocks_cfg(4, stage("UnitaryGates", "UniComps", 8, 3)), num, 60, k, salt=62)
    bg.simulate("MCSample", blocks_cfg(2, stage("HorqGates", "UniComps", 7, 2)), num, 60, k, salt=63)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import sample_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, sample_obs.sampling, cases)


def replay_one(case):
    import sample_obs

    sample_obs.sampling(case)
