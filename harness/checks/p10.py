"""P10: stored expressions are data, not code."""
from specs import Background
import tlc

ASSUMPTIONS = ["files are loaded with the JSON or dictionary route (torch files are pickles by design)"]


def cfg(fuel, hostile, sim):
    return tlc.Cfg({"Fuel": fuel, "Hostile": "TRUE" if hostile else "FALSE", "Sim": "TRUE" if sim else "FALSE"}, invariants=("TaintInv", "CleanInv", "SizeInv"))


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    bg.check("MCExpr", cfg(2, True, False), workers=2)
    bg.check("MCExpr", cfg(3, False, False), workers=2)
    k, num = (4, 100) if q else (12, 600)
    bg.simulate("MCExpr", cfg(9, False, True), num, 30, k, salt=101)
    bg.simulate("MCExpr", cfg(7, True, True), num, 30, k, salt=102)
    return bg


def observe(c):
    import expr_obs

    return expr_obs.expressions_of(c)


def run(rep, tier):
    bg = spec_jobs(tier)
    import expr_obs  # noqa: F401
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observe, cases)


replay_one = observe
