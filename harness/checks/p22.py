"""P22: a network built from configurations is the network its configurations describe."""
from specs import Background
from tlc import Cfg

ASSUMPTIONS = ["angles are multiples of a quarter turn; up to four qubits and three features; analog and Rydberg feature maps with qubits far apart"]
INV = ("LayerInv", "SplitInv", "NameInv")


def cfg(sizes, batch, sim="TRUE", inv=INV):
    return Cfg({"Batch": str(batch), "Sizes": sizes, "Sim": sim}, invariants=inv)


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCConfig", cfg("{1,2}" if q else "{1,2,3,4}", 1, "FALSE"), workers=2)
    bg.check("MCConfig", cfg("{1}" if q else "{1,2}", 1, "FALSE", ("RealInv",)), workers=2)
    k = 1 if q else 8
    for sizes, num, salt in (("{1,2}", 180, 221), ("{3}", 120, 222), ("{3}", 120, 223), ("{4}", 50, 224), ("{4}", 50, 225)):
        bg.simulate("MCConfig", cfg(sizes, 2), num, 400, k, salt=salt)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import config_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, config_obs.session, cases)


def replay_one(case):
    import config_obs

    config_obs.session(case)
