"""P13: early stopping and learning-rate schedules."""
from checks import p11
from checks.p11 import ES, SCHED, cfg, observe, space  # noqa: F401
from specs import Background

ASSUMPTIONS = ["single process, gradient-based optimizer", "cosine annealing is observed at quarter periods (exact values)"]


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    one = "{[train |-> <<1,2>>, valid |-> <<2>>, test |-> <<>>]}"
    bg.check("MCTrainer", cfg(space(mi="{4}", val="{0,1,2}", ck="{0}", wr="{0}", pr="{0}", cb="{0}", bs="{1}", maxb="{0}", data=one, es=ES, sched=SCHED, lr0="{1,5}"), 1, sim=False), workers=3)
    k, num = (4, 40) if q else (16, 250)
    few = dict(wr="{0}", pr="{0}", cb="{1}", ck="{0,1}", mi="{3,5,7}")
    bg.simulate("MCTrainer", cfg(space(es=ES, **few), 1), num, 400, k, salt=131)
    bg.simulate("MCTrainer", cfg(space(sched=SCHED, lr0="{1,5,9}", **few), 2), num, 400, k, salt=132)
    bg.simulate("MCTrainer", cfg(space(es=ES, sched=SCHED, lr0="{1,5}", **few), 2, '{"interrupt"}'), num, 400, k, salt=133)
    # any history of losses
    hist = "{[on |-> o, pat |-> p, ev |-> e, mode |-> m] : o \\in {\"train_epoch_end\",\"val_epoch_end\"}, p \\in 1..4, e \\in 1..2, m \\in {\"min\",\"max\"}}"
    short = dict(wr="{0}", pr="{0}", cb="{1}", ck="{0}", val="{1,2}", bs="{3}", maxb="{1}", data=one)
    bg.simulate("MCTrainer", cfg(space(es=hist, script="[1..9 -> 0..3]", mi="{8,12}", **short), 1), num, 400, k, salt=134)
    bg.simulate("MCTrainer", cfg(space(es=hist, script="[1..7 -> 0..5]", mi="{9,14}", **short), 1), num, 400, k, salt=135)
    # every history of six losses of three heights
    bg.check("MCTrainer", cfg(space(es=hist.replace("1..4", "1..3").replace("1..2", "{1}"), script="[1..6 -> 0..2]", mi="{5}", **{**short, "val": "{1}", "cb": "{0}"}), 1, sim=False), workers=3)
    return bg


def run(rep, tier):
    p11.run(rep, tier, spec_jobs)


replay_one = observe
