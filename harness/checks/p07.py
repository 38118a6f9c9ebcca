"""P07: a model evaluates its program at its current parameters."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["a parameter that is fixed becomes an input; one that is freed again starts from its initial value"]
OPS = '{"eval","override","reset","fix","copy"}'


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCModel", blocks_cfg(1, [stage('{"RX"}', "NoComps", 1, 0), stage('{"Z"}', "NoComps", 1, 0)], Exprs="{<<0,0,0,1,0>>, <<0,1,0,0,0>>}", Batches="SingleBatch", Sim=False,
                                   invariants=("TypeInv", "RealInv"), properties=("QuietStep",), MaxOps=2, Ops=OPS), workers=3)
    k, num = (4, 50) if q else (16, 150)
    plan = [stage("ModelGates", "ModelComps", 6, 2), stage("ObsGates", "ObsComps", 5, 0)]
    bg.simulate("MCModel", blocks_cfg(2, plan, Exprs="ParExprs", MaxOps=6, Ops=OPS), num, 60, k, salt=71)
    bg.simulate("MCModel", blocks_cfg(3, plan + [stage("ObsGates", "ObsComps", 3, 0)], Exprs="AllExprs", MaxOps=5, Ops=OPS), num, 60, k, salt=72)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import observers
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observers.model_session, cases)


def replay_one(case):
    import observers

    observers.model_session(case)
