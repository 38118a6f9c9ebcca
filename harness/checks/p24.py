"""P24: analog programs evolve under the Hamiltonian of the register and its device."""
from specs import Background
from tlc import Cfg

ASSUMPTIONS = ["the evolutions under the specified Hamiltonians are evaluated numerically (matrix exponential)", "positive durations"]
INV = ("HermInv", "PairInv", "AngleInv", "TimeInv")


def cfg(lats, sps, devs, batches, segs, sim):
    return Cfg({"Lats": lats, "Spacings": sps, "Devs": devs, "Batches": batches, "MaxSegs": str(segs), "Sim": sim}, invariants=INV)


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    sps = "{<<7, 1>>, <<13, 2>>, <<9, 1>>}"
    bg.check("MCAnalog", cfg("FewLats", "{<<7, 1>>}", "FewDevs", "OneBatchA", 1, "FALSE"), workers=3)
    k, num = (3, 120) if q else (12, 300)
    for segs, salt in ((1, 241), (3, 242), (5, 243)):
        bg.simulate("MCAnalog", cfg("AllLats", sps, "AllDevs", "MenuBatches", segs, "TRUE"), num, 30, k, salt=salt)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import analog_obs
    from runtime import replay

    cases = bg.join(rep)
    few = bg.counts[0]  # the behaviours of the exhaustive run
    cases = cases[:few:(14 if tier == "quick" else 1)] + cases[few:]
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, analog_obs.analog, cases)


def replay_one(case):
    import analog_obs

    analog_obs.analog(case)
