"""P23: equality and structure of programs."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["digital blocks without noise and tags", "equality of programs of different construction that denote the same operator is left open"]


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCEqual", blocks_cfg(2, stage("FewGates", "BasicComps", 2, 0), Exprs="TwoExprs", Batches="FewBatches", Sim=False,
                                   invariants=("SoundInv", "ShuffleInv"), spec="ESpec", MaxEdits="1"), workers=3)
    k, num = (4, 40) if q else (12, 150)
    for n in (2, 3) if q else (2, 3, 4):
        bg.simulate("MCEqual", blocks_cfg(n, stage("AllGates", "AllComps", 9, 3), Batches="FewBatches", spec="ESpec", MaxEdits="12"), num if n < 4 else num // 3, 60, k, salt=230 + n)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import equal_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, equal_obs.session, cases)


def replay_one(case):
    import equal_obs

    equal_obs.session(case)
