"""P01: a program denotes one linear operator, however it is evaluated."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["off-diagonal projectors are outside the domain (listed in DESIGN.md)",
               "angles are multiples of Pi/2 through linear expressions; the operators are exact in the specification"]

INV = ("UnitaryInv", "OrderInv", "SupportInv")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    # every gate on every placement, exhaustively, and every short session over a small gate set
    bg.check("MCCompose", blocks_cfg(3, stage(f=1, w=0), Exprs="TwoExprs" if q else "FewExprs", Batches="FewBatches", Sim=False, invariants=INV), workers=2)
    bg.check("MCCompose", blocks_cfg(2, stage("FewGates", "BasicComps" if q else "AllComps", 3, 0), Exprs="OneExpr",
                                     Batches="SingleBatch", Sim=False, invariants=INV), workers=3)
    k, num = (4, 60) if q else (16, 200)
    bg.simulate("MCCompose", blocks_cfg(3, stage(f=9)), num, 40, k, salt=1)
    bg.simulate("MCCompose", blocks_cfg(4, stage(f=9)), num, 40, k, salt=2)
    bg.simulate("MCCompose", blocks_cfg(3, stage(f=5)), num, 40, k, salt=3)
    if not q:
        bg.simulate("MCCompose", blocks_cfg(3, stage(f=14)), num, 60, k, salt=4)
        bg.simulate("MCCompose", blocks_cfg(5, stage(f=10), Batches="OneBatch"), 60, 40, 8, salt=5)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import observers
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observers.composition, cases)


def replay_one(case):
    import observers

    observers.composition(case)
