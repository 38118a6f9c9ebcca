"""P18: noisy programs act as the channels they are given."""
from specs import Background, blocks_cfg, stage

ASSUMPTIONS = ["probabilities of the channels are dyadic", "noise on CSWAP and readout errors given as one number per qubit are left out (pyqtorch defines them differently)",
               "a sample is rejected when its probability under the exact distribution is below exp(-28)"]
INV = ("TraceInv", "HermInv", "PureInv", "ReadInv", "DiagInv")


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCNoise", blocks_cfg(1, [stage("FewGates", "NoComps", 1, 0), stage("PauliXZ", "NoComps", 1, 0)], Exprs="OneExpr", Batches="SingleBatch", Sim=False,
                                   Channels="KindChannels", MaxPer=1, Cfgs="FewCfgs", invariants=INV), workers=3)
    k, num = (3, 60) if q else (12, 150)
    for n, f, salt in ((2, 6, 181), (3, 7, 182)):
        bg.simulate("MCNoise", blocks_cfg(n, [stage("NoiseGates", "UniComps", f, 0), stage("ObsGates", "ObsComps", 2, 0)], Channels="AllChannels", MaxPer=2, Cfgs="AllCfgs"), num, 60, k, salt=salt)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import noise_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, noise_obs.noise_session, cases)


def replay_one(case):
    import noise_obs

    noise_obs.noise_session(case)
