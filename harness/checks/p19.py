"""P19: readout mitigation undoes the device's readout errors."""
from specs import Background
from tlc import Cfg

ASSUMPTIONS = ["readout error rates in eighths", "counts are compared up to the rounding to whole shots"]
INV = ("ReadInv", "NearInv", "BestInv")


def cfg(n, entries, fams, sim, samples, inv=()):
    return Cfg({"Sizes": "{%d}" % n, "Entries": entries, "Fams": fams, "Sim": sim, "MaxSamples": str(samples)}, invariants=inv)


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCMitigate", cfg(1, "-2..3", "1..6", "FALSE", 1, INV), workers=2)
    bg.check("MCMitigate", cfg(2, "-1..1", "{1, 5, 6}", "FALSE", 1, INV), workers=2)
    k, num = (2, 60) if q else (8, 200)
    for n, e in ((1, "-1..4"), (2, "-1..4"), (3, "{-1, 0, 1, 2, 3}")):
        bg.simulate("MCMitigate", cfg(n, e, "1..6", "TRUE", 2), num, 300, k, salt=190 + n)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import noise_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, noise_obs.mitigation_session, cases)


def replay_one(case):
    import noise_obs

    noise_obs.mitigation_session(case)
