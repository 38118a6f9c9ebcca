"""P20: digital and digital-analog forms of an evolution are that evolution."""
from specs import Background, blocks_cfg, stage
from tlc import Cfg

ASSUMPTIONS = ["for terms that do not commute only the first-order formula is defined exactly; higher orders are held to the bound of the second-order formula"]
ORD = '{"BASIC","ST2","ST4"}'
ANY = "AllExprs \\union {<<0,2,0,0,0>>, EConst(1), EConst(-3)}"


def daqc(sizes, cps, sim, times="{2, -2, 3, 1}", inv=()):
    return Cfg({"Sizes": sizes, "Couplings": cps, "Times": times, "Sim": sim}, invariants=inv)


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    gen = lambda f: stage("PauliGates", '{"kron","add","pscale"}', f, 0)
    inv = ("OrderInv", "ExpandInv")
    bg.check("MCDigital", blocks_cfg(2, [stage('{"X","Z","N"}', '{"kron","add"}', 3, 0), stage('{"H"}', "NoComps", 1, 0)], Exprs="OneExpr", Batches="SingleBatch", Sim=False,
                                     Times="{EConst(1)}", Orders='{"BASIC"}', MaxTerms=3, invariants=inv), workers=3)
    din = ("FlipInv", "SpanInv", "MapInv")
    bg.check("MCDaqc", daqc("{2, 3}", "{0, 1, -2}", "FALSE", "{1}", din), workers=3)
    bg.check("MCDaqc", daqc("{4, 5}", "{2}", "FALSE", "{1}", din), workers=1)
    k, num = (3, 120) if q else (12, 300)
    for n, f, salt in ((2, 5, 201), (3, 6, 202), (3, 9, 203)):
        bg.simulate("MCDigital", blocks_cfg(n, [gen(f), stage('{"H","U","RX","CNOT","SWAP"}', "UniComps", 3, 0)], Times=ANY, Orders=ORD, MaxTerms=5, invariants=inv), num, 60, k, salt=salt)
    bg.simulate("MCDaqc", daqc("{2, 3, 4, 5}", "{0, 0, 1, -1, 2, 3, -2}", "TRUE"), num, 10, k, salt=204)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import digital_obs
    from runtime import replay

    cases = bg.join(rep)
    a, b = bg.counts[0], bg.counts[1]
    s = 30 if tier == "quick" else 4  # a part of the behaviours of the exhaustive runs
    cases = cases[:a:s] + cases[a:a + b:s] + cases[a + b:]
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, digital_obs.session, cases, key=digital_obs.finding)


def replay_one(case):
    import digital_obs

    digital_obs.session(case)
