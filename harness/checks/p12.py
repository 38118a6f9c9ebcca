"""P12: checkpoints and resuming."""
from checks import p11
from checks.p11 import cfg, observe, space  # noqa: F401
from specs import Background

ASSUMPTIONS = ["single process, gradient-based optimizer", "a crash loses the process, not files already written"]
FAULTS = '{"interrupt","crash"}'


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    one = "{[train |-> <<1,2>>, valid |-> <<2>>, test |-> <<>>]}"
    bg.check("MCTrainer", cfg(space(mi="{0,1,2}", val="{0,1}", ck="{0,1,2}", best="{FALSE,TRUE}", wr="{0}", pr="{0}", cb="{0}", bs="{1}", maxb="{0}", data=one, old="{0,9}"), 2, FAULTS, sim=False), workers=3)
    k, num = (4, 40) if q else (16, 250)
    few = dict(wr="{0}", pr="{0}", cb="{0,1}", mi="{0,1,2,3}")
    bg.simulate("MCTrainer", cfg(space(ck="{0,1,2,3}", old="{0,0,1,9,998}", **few), 3, FAULTS), num, 400, k, salt=121)
    bg.simulate("MCTrainer", cfg(space(val="{1,2}", best="{TRUE}", old="{0,0,0,99}", **few), 3, FAULTS), num, 400, k, salt=122)
    bg.simulate("MCTrainer", cfg(space(ck="{1,2}", old="{0,999}", sched=p11.SCHED, lr0="{1,5}", **few), 3, FAULTS), num, 400, k, salt=123)
    return bg


def run(rep, tier):
    p11.run(rep, tier, spec_jobs)


replay_one = observe
