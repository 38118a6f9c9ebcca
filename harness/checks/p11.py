"""P11: the schedule of a training."""
from specs import Background
import tlc

ASSUMPTIONS = ["single process, gradient-based optimizer", "the losses are deterministic"]
DATA = "{[train |-> <<1,2,-1>>, valid |-> <<2>>, test |-> <<3,1>>], [train |-> <<3,-1,-1,-2,2>>, valid |-> <<1,-1,0,2>>, test |-> <<>>], [train |-> <<1>>, valid |-> <<-1,2,2>>, test |-> <<1,1,2,2,3,3>>]}"
NOES = '[on |-> "none", pat |-> 0, ev |-> 1, mode |-> "min"]'
ES = "{" + ", ".join([NOES] + [f'[on |-> "{o}", pat |-> {p}, ev |-> {e}, mode |-> "{m}"]' for o, p, e, m in (
    ("train_epoch_end", 1, 1, "min"), ("train_epoch_end", 2, 1, "max"), ("train_epoch_end", 2, 2, "min"), ("val_epoch_end", 1, 1, "min"), ("val_epoch_end", 2, 1, "min"),
    ("val_epoch_end", 2, 1, "max"))]) + "}"

NOSCHED = '[s |-> "none", n |-> 1]'
SCHED = f'{{{NOSCHED}, [s |-> "step", n |-> 1], [s |-> "step", n |-> 2], [s |-> "cyc", n |-> 2], [s |-> "cyc", n |-> 3], [s |-> "cycb", n |-> 2], [s |-> "cos", n |-> 2]}}'
INVS = ("Bounded", "Periods", "NoFiles", "Numbered")
STEPS = ("WeightStep", "StopStep", "BestStep")


def space(mi="{0,1,2,3,5}", val="{0,1,2,3}", ck="{0,1,2}", best="{FALSE}", wr="{0,1,2}", pr="{0,1,3}", cb="{1,2,3}", es=f"{{{NOES}}}", sched=f"{{{NOSCHED}}}",
          bs="{1,2,3}", maxb="{0,1,2}", old="{0}", data=DATA, lr0="{1}", script="{<<>>}"):
    return (f"[mi |-> {mi}, val |-> {val}, ck |-> {ck}, best |-> {best}, wr |-> {wr}, pr |-> {pr}, cb |-> {cb}, es |-> {es}, sched |-> {sched}, bs |-> {bs}, "
            f"maxb |-> {maxb}, old |-> {old}, data |-> {data}, lr0 |-> {lr0}, script |-> {script}]")


def cfg(sp, runs, faults="{}", sim=True):
    return tlc.Cfg({"Space": sp, "Runs": runs, "Faults": faults, "Sim": "TRUE" if sim else "FALSE"}, invariants=INVS if not sim else (), properties=STEPS if not sim else ())


def spec_jobs(tier):
    bg = Background()
    q = tier == "quick"
    one = "{[train |-> <<1,2,-1>>, valid |-> <<2>>, test |-> <<3,1>>]}"
    bg.check("MCTrainer", cfg(space(mi="{0,1,2}", val="{0,1,2}", ck="{0}", wr="{0,2}", pr="{0,1}", cb="{1,2}", bs="{2}", maxb="{0,1}", data=one), 1, "{\"interrupt\"}", sim=False), workers=3)
    k, num = (4, 40) if q else (16, 250)
    bg.simulate("MCTrainer", cfg(space(), 1), num, 200, k, salt=111)
    bg.simulate("MCTrainer", cfg(space(), 2, '{"interrupt"}'), num, 300, k, salt=112)
    return bg


def observe(c):
    import trainer_obs

    return trainer_obs.observe(c)


def run(rep, tier, jobs=spec_jobs):
    bg = jobs(tier)
    import trainer_obs  # noqa: F401
    from runtime import replay

    cases = bg.join(rep)
    for i, c in enumerate(cases):
        c["i"] = i
    replay(rep, observe, cases)


replay_one = observe
