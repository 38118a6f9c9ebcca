"""P03: program transformations keep what the program denotes."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["off-diagonal projectors are outside the domain"]
PASSES = '{"flatten","reassign","invert","chainsq","scaleprim","fill","recurse","circflatten","circfill","circinvert"}'
INV = ("FlatInv", "RelabelInv")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    m = dict(MaxPasses=2, Passes=PASSES)
    bg.check("MCPasses", blocks_cfg(2, stage("FewGates", "BasicComps", 3, 0), Exprs="OneExpr", Batches="SingleBatch", Sim=False, invariants=INV, MaxPasses=0, Passes="{}"), workers=3)
    # every pass on every two-step program of a register that is larger than what it uses
    bg.check("MCPasses", blocks_cfg(3, stage('{"H","RX","CNOT","SWAP"}', "BasicComps", 2, 0), Exprs="OneExpr", Batches="{<<V(-2,0,4,2,1,-1)>>}", Sim=False, MaxPasses=1,
                                    Passes='{"invert","circinvert","fill","circfill","circflatten","scaleprim","chainsq","recurse"}'), workers=3)
    k, num = (4, 60) if q else (16, 200)
    bg.simulate("MCPasses", blocks_cfg(3, stage(f=9), **m), num, 60, k, salt=31)
    # single-qubit layers, for the fusion pass
    bg.simulate("MCPasses", blocks_cfg(2, stage("SingleGates", "LayerComps", 10, 0), **m), num, 60, k, salt=32)
    bg.simulate("MCPasses", blocks_cfg(4, stage(f=8), MaxPasses=3, Passes=PASSES, Batches="OneBatch"), num // 2, 60, k, salt=33)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import observers
    from runtime import replay

    replay(rep, observers.passes, [c for c in bg.join(rep) if c["log"]])


def replay_one(case):
    import observers

    observers.passes(case)
