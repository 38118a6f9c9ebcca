"""P08: every differentiation mode computes the derivatives of the same function."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["adjoint: gates on qubits in ascending order, no U gates, no Hamiltonian evolutions, one backward pass per evaluation",
               "gpsr: no U gates, no parametric observables, evolutions with a parametric time only"]
PAIRS = '<< <<"x","y">>, <<"a","b">>, <<"x","x">>, <<"x","a">>, <<"z","w">> >>'
INV = ("RealInv", "ShiftInv")
MODES = ("ad", "gpsr", "adjoint")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    m = dict(Pairs=PAIRS, WithCols="FALSE")
    bg.check("MCExpect", blocks_cfg(2, [stage("ParGates", "NoComps", 1, 0), stage("PauliXZ", "NoComps", 1, 0)], Exprs="FewExprs", Batches="SingleBatch",
                                    Sim=False, invariants=INV, **m), workers=3)
    k, num = (4, 40) if q else (16, 120)
    two = [stage("ObsGates", "NumObsComps", 5, 0), stage("ObsGates", "NumObsComps", 4, 0)]
    bg.simulate("MCExpect", blocks_cfg(3, [stage("GradGates", "UniComps", 6, 3)] + two, Exprs="ParExprs", **m), num, 60, k, salt=81)
    # programs in the domain of the adjoint mode
    bg.simulate("MCExpect", blocks_cfg(3, [stage("AscGates", "UniComps", 7, 0)] + two, Exprs="ParExprs", **m), num, 60, k, salt=82)
    # parametric observables
    bg.simulate("MCExpect", blocks_cfg(2, [stage("ParGates", "UniComps", 5, 2), stage("ObsGates", "ObsComps", 6, 0)], Exprs="ParExprs", **m), num, 60, k, salt=83)
    # parameters in the generators of evolutions
    bg.check("MCExpect", blocks_cfg(2, [stage("{}", "ModelComps", 1, 1), stage("PauliXZ", "NoComps", 1, 0)], Exprs="OneExpr", Batches="SingleBatch", Sim=False, invariants=("RealInv", "EulerInv"), **m), workers=2)
    bg.simulate("MCExpect", blocks_cfg(3, [stage("GradGates", "ModelComps", 6, 3)] + two[:1], Exprs="ParExprs", **m), num, 60, k, salt=85)
    if not q:
        bg.simulate("MCExpect", blocks_cfg(4, [stage("GradGates", "UniComps", 7, 3), two[0]], Exprs="ParExprs", **m), num, 60, 8, salt=84)
    return bg


def observe(c):
    import observers

    n = 0
    for dm in MODES:
        if observers.diffable(c, dm):
            n += observers.gradients(c, dm, second=dm != "adjoint") or 1
    return n + observers.input_derivatives(c)


def run(rep, tier):
    bg = spec_jobs(tier)
    import observers  # noqa: F401
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observe, cases)


replay_one = observe
