"""P14: registers place and connect their qubits as asked."""
from specs import Background
from tlc import Cfg

ASSUMPTIONS = ["the numbering of the qubits of triangular and honeycomb lattices is left open", "rational spacings"]
INV = ("LatticeInv", "SwapInv", "SpacingInv")


def cfg(size, spacings, nops, sim):
    return Cfg({"MaxSize": str(size), "Spacings": spacings, "MaxOps": str(nops), "Sim": sim}, invariants=INV)


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCRegister", cfg(3 if q else 4, "{<<1, 1>>, <<5, 2>>}", 0, "FALSE"), workers=3)
    k, num = (4, 150) if q else (12, 500)
    bg.simulate("MCRegister", cfg(4, "{<<1, 1>>, <<5, 2>>, <<8, 1>>, <<1, 3>>}", 4, "TRUE"), num, 30, k, salt=141)
    bg.simulate("MCRegister", cfg(5, "{<<2, 1>>, <<1, 2>>, <<1, 1>>}", 2, "TRUE"), num, 30, k, salt=142)
    return bg


def run(rep, tier):
    bg = spec_jobs(tier)
    import register_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, register_obs.session, cases)


def replay_one(case):
    import register_obs

    register_obs.session(case)
