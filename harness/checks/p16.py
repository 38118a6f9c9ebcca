"""P16: constructors of ansaetze, feature maps, Hamiltonians and the Fourier transform build what they describe."""
from specs import Background
from tlc import Cfg

ASSUMPTIONS = ["angles of ansaetze and feature maps are multiples of a quarter turn (an eighth for phases); up to four qubits (five for the Fourier transform)"]
INV = ("StartInv", "PairsInv", "CountInv", "CoverInv", "FourierInv", "InverseInv", "HermInv")


def cfg(kinds, sizes, sim="TRUE", inv=()):
    return Cfg({"Kinds": kinds, "Sizes": sizes, "Sim": sim}, invariants=inv)


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCConstruct", cfg('{"ansatz"}', "{2}", "FALSE", INV), workers=2)
    bg.check("MCConstruct", cfg('{"qft"}', "{1,2,3}", "FALSE", INV), workers=2)
    bg.check("MCConstruct", cfg('{"expfm"}', "{1,2}", "FALSE", INV), workers=1)
    bg.check("MCConstruct", cfg('{"big"}', "{6}", "FALSE", ("CountInv",)), workers=1)
    k = 1 if q else 8
    for kinds, sizes, num, salt in (('{"ansatz"}', "{2,3}", 150, 211), ('{"ansatz"}', "{4}", 50, 212), ('{"fm"}', "{1,2,3}", 250, 213), ('{"expfm"}', "{1,2,3}", 50, 214),
                                    ('{"ham"}', "{1,2,3}", 200, 215), ('{"ham"}', "{4}", 50, 216), ('{"ryd"}', "{2,3}", 120, 217), ('{"qft"}', "{1,2,3,4}", 120, 218), ('{"qft"}', "{5}", 15, 219)):
        bg.simulate("MCConstruct", cfg(kinds, sizes), num, 400, k, salt=salt)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import construct_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, construct_obs.session, cases, key=construct_obs.known)


def replay_one(case):
    import construct_obs

    construct_obs.session(case)
