"""P21: every overlap method computes the overlap of the two prepared states."""
from checks.p15 import INV, spec_jobs as states

ASSUMPTIONS = ["at most one feature parameter per circuit, with distinct names or the same value on both sides", "no T gates (their adjoint cannot be run, finding of P04)", "estimates from shots are compared within six standard deviations"]


def spec_jobs(tier):
    return states(tier, salt=210, gates='(UnitaryGates \\ {"T"})')


def run(rep, tier):
    bg = spec_jobs(tier)
    import state_obs
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"], c["kind"] = i, "overlap"
    replay(rep, state_obs.session, cases)


def replay_one(case):
    import state_obs

    state_obs.session(case)
