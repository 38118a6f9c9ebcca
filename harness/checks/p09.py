"""P09: stored programs and models are restored unchanged."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["analog blocks are not serializable (documented)", "formats without parameter values restore the initial values"]
OPS = '{"eval","reset","fix","save"}'


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCModel", blocks_cfg(1, [stage('{"RX"}', "NoComps", 1, 0), stage('{"Z"}', "NoComps", 1, 0)], Exprs="{<<0,0,0,1,0>>}", Batches="SingleBatch", Sim=False,
                                   invariants=("TypeInv", "RealInv"), properties=("QuietStep",), MaxOps=2, Ops=OPS), workers=3)
    # every gate and placement, stored and restored: exhaustive
    bg.check("MCCompose", blocks_cfg(3, stage("AllGates", "NoComps", 1, 0), Exprs="TwoExprs", Batches="SingleBatch", Sim=False), workers=3)
    k, num = (4, 40) if q else (16, 150)
    plan = [stage("ModelGates", "ModelComps", 6, 2), stage("ObsGates", "ObsComps", 5, 0)]
    bg.simulate("MCModel", blocks_cfg(2, plan, Exprs="ParExprs", MaxOps=7, Ops=OPS), num, 60, k, salt=91)
    bg.simulate("MCModel", blocks_cfg(3, plan, Exprs="AllExprs", MaxOps=6, Ops=OPS), num, 60, k, salt=92)
    bg.simulate("MCCompose", blocks_cfg(3, stage(f=8)), num, 40, k, salt=93)
    bg.simulate("MCCompose", blocks_cfg(3, stage(f=5)), num, 40, k, salt=94)
    return bg


def observe(c):
    import observers

    return observers.model_session(c) if "log" in c else observers.stored_program(c)


def run(rep, tier):
    bg = spec_jobs(tier)
    import observers  # noqa: F401
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observe, cases)


replay_one = observe
