"""P02: the JAX back end computes the same states, expectation values and derivatives."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["the gate set of the JAX back end; states and samples one element of a batch at a time, expectation values batched"]
PAIRS = '<< <<"x","y">>, <<"a","b">>, <<"z","w">> >>'


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    m = dict(Pairs=PAIRS, WithCols="TRUE")
    bg.check("MCExpect", blocks_cfg(2, [stage("HorqGates", "NoComps", 1, 0), stage("PauliXZ", "NoComps", 1, 0)], Exprs="OneExpr", Batches="FewBatches",
                                    Sim=False, invariants=("RealInv", "NormInv"), **m), workers=3)
    k, num = (4, 25) if q else (16, 80)
    bg.simulate("MCExpect", blocks_cfg(3, [stage("HorqGates", "UniComps", 7, 3), stage("HorqObs", "ObsComps", 5, 0), stage("HorqObs", "NumObsComps", 4, 0)], Exprs="ParExprs", **m), num, 60, k, salt=21)
    bg.simulate("MCExpect", blocks_cfg(3, [stage("HorqGates", "ModelComps", 6, 3), stage("HorqObs", "NumObsComps", 4, 0)], Exprs="ParExprs", **m), num, 60, k, salt=23)
    bg.simulate("MCExpect", blocks_cfg(4, [stage("HorqGates", "UniComps", 7, 2), stage("HorqObs", "NumObsComps", 5, 0)], Exprs="AllExprs", **m), num, 60, k, salt=22)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import sample_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, sample_obs.jax_backend, cases)


def replay_one(case):
    import sample_obs

    sample_obs.jax_backend(case)
