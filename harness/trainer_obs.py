"""Training sessions: the real trainer driven through the history the specification prescribes."""
from __future__ import annotations

import contextlib
import io
import os
import re
import tempfile
import warnings

warnings.filterwarnings("ignore")
import logging

logging.disable(logging.CRITICAL)
import torch
from qadence import QNN, QuantumCircuit, FeatureParameter, RX, RY, VariationalParameter, Z, chain
from qadence.ml_tools import TrainConfig, Trainer
from qadence.ml_tools.callbacks import (Callback, EarlyStopping, LRSchedulerCosineAnnealing, LRSchedulerCyclic, LRSchedulerStepDecay)
from qadence.ml_tools.callbacks.saveload import load_checkpoint, write_checkpoint
from qadence.ml_tools.callbacks.writer_registry import BaseWriter
from qadence.ml_tools.data import DictDataLoader, to_dataloader

from runtime import Mismatch

torch.set_num_threads(1)
TAB = (3, 1, 4, 0, 2)
STAGES = ("train_start", "train_end", "train_epoch_end", "train_batch_end", "val_epoch_end", "val_batch_end")


class Line(torch.nn.Module):
    def __init__(self, w):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor([float(w)], dtype=torch.float64))

    def forward(self, x):
        return self.w * x


def model(kind, w):
    if kind == "line":
        return Line(w)
    return QNN(QuantumCircuit(1, chain(RX(0, FeatureParameter("x")), RY(0, VariationalParameter("a", value=float(w))))), Z(0), inputs=["x"])


def weights(m):
    return [p for p in m.parameters() if p.requires_grad]


def weight(m):
    (p,) = weights(m)
    return int(round(float(p.detach().sum())))


class Crash(RuntimeError):
    pass


class Session:
    def __init__(self, c):
        self.c, self.cfg = c, c["cfg"]
        i = c.get("i", 0)
        self.kind = "qnn" if i % 3 == 2 else "line"
        self.dict_loader = self.kind == "line" and i % 5 == 1
        self.rec, self.phase, self.fault, self.nb = [], "train", None, 0

    def loss(self, m, batch):
        if self.dict_loader:
            batch = batch["d"]
        s = int(round(float(batch[0].sum())))
        ph = "train" if m.training else self.phase
        if ph == "train" and self.fault:
            e = self.trainer.current_epoch
            self.nb = self.nb + 1 if self.at == e else 1
            self.at = e
            if (self.fault["it"], self.fault["b"]) == (e, self.nb):
                if self.fault["k"] == "crash":
                    raise Crash()
                raise KeyboardInterrupt()
        w = weight(m)
        sc = self.cfg["script"]
        v = sc[self.trainer.current_epoch % len(sc)] if sc else TAB[(w + s) % 5]
        self.rec.append({"k": "loss", "ph": ph, "w": w, "sum": v, "n": 1})
        (p,) = weights(m)
        g = (p * s).sum()
        out = g - g.detach() + float(v)
        return out, {"m": out + 1}

    def optimizer(self, m):
        return torch.optim.SGD(m.parameters(), lr=float(self.cfg["lr0"]), momentum=1.0)

    def note(self, k, st, it, metrics, w):
        ph = ""
        if metrics:
            phs = {key.split("_")[0] for key in metrics}
            if len(phs) != 1 or set(metrics) != {f"{p}_{x}" for p in phs for x in ("m", "loss")}:
                raise Mismatch(f"metrics {sorted(metrics)} at {st}")
            ph = phs.pop()
            if abs(float(metrics[f"{ph}_m"]) - float(metrics[f"{ph}_loss"]) - 1) > 1e-6:
                raise Mismatch("metrics are not those of the same batches")
        self.rec.append({"k": k, "st": st, "it": it, "ph": ph, "mean": float(metrics[f"{ph}_loss"]) if ph else None, "w": w})

    def callbacks(self):
        cfg, out = self.cfg, []

        def make(stage):
            def cb(trainer, config, writer):
                r = trainer.opt_result
                if str(trainer.training_stage) != stage:
                    raise Mismatch(f"callback on {stage} called at {trainer.training_stage}")
                if r.metrics and abs(float(r.loss) - float([v for key, v in r.metrics.items() if key.endswith("_loss")][0])) > 1e-6:
                    raise Mismatch("loss and loss metric differ")
                self.note("cb", stage, r.iteration, r.metrics, weight(trainer.model))
            return Callback(on=stage, called_every=cfg["cb"], callback=cb)

        if cfg["cb"] > 0:
            out += [make(s) for s in STAGES]
        if cfg["sched"] == "step":
            out.append(LRSchedulerStepDecay(on="train_epoch_end", called_every=cfg["step"], gamma=2.0))
        if cfg["sched"] in ("cyc", "cycb"):
            out.append(LRSchedulerCyclic(on="train_epoch_end" if cfg["sched"] == "cyc" else "train_batch_end", called_every=1,
                                         base_lr=1.0, max_lr=1.0 + cfg["step"], step_size=cfg["step"]))
        if cfg["sched"] == "cos":
            out.append(LRSchedulerCosineAnnealing(on="train_epoch_end", called_every=1, t_max=2, min_lr=1.0))
        if cfg["pat"] > 0:
            out.append(EarlyStopping(on=cfg["es"], called_every=cfg["ev"], monitor=("train" if cfg["es"].startswith("train") else "val") + "_loss",
                                     patience=cfg["pat"], mode=cfg["mode"]))
        return out

    def loader(self, data):
        d = to_dataloader(torch.tensor([float(x) for x in data], dtype=torch.float64), batch_size=self.cfg["bs"])
        return DictDataLoader({"d": d}) if self.dict_loader else d

    def new_trainer(self, folder):
        cfg = self.cfg
        m = model(self.kind, self.c["w0"])
        crit = (lambda val, best, eps: float(val) < float(best) - eps) if cfg["best"] else None
        conf = TrainConfig(max_iter=cfg["mi"], val_every=cfg["val"], checkpoint_every=cfg["ck"], checkpoint_best_only=cfg["best"], validation_criterion=crit,
                           write_every=cfg["wr"], print_every=cfg["pr"], log_folder=folder, callbacks=self.callbacks(), verbose=True)
        t = Trainer(m, self.optimizer(m), conf, loss_fn=self.loss, max_batches=cfg["maxb"] or None,
                    train_dataloader=self.loader(cfg["train"]), val_dataloader=self.loader(cfg["valid"]) if cfg["val"] else None,
                    test_dataloader=self.loader(cfg["test"]) if cfg["test"] else None)
        t.callback_manager.writer = self.writer()
        return t

    def writer(self):
        ses = self

        class Rec(BaseWriter):
            def open(self, config, iteration=None):
                self.closed = False
                return self

            def close(self):
                self.closed = True

            def write(self, iteration, metrics):
                ses.note("write", "", iteration, metrics, weight(ses.trainer.model))

            def print_metrics(self, result):
                ses.note("print", "", result.iteration, result.metrics, weight(ses.trainer.model))

            def log_hyperparams(self, hyperparams):
                pass

            def plot(self, *a, **k):
                pass

            def log_model(self, *a, **k):
                pass

        return Rec()

    def opt_state(self, opt):
        st = list(opt.state.values())
        buf = st[0].get("momentum_buffer") if st else None
        return [] if buf is None else [int(round(float(buf.sum())))], opt.param_groups[0]["lr"]

    def run(self):
        log, cnt = self.c["log"], 0
        segs = []
        for e in log:
            if e["k"] == "fit":
                segs.append(("fit", e, []))
            elif e["k"] == "loss" and e["ph"] == "test":
                if segs[-1][0] != "test":
                    segs.append(("test", e, []))
                segs[-1][2].append(e)
            elif e["k"] == "test":
                if segs[-1][0] != "test":
                    segs.append(("test", e, []))
            else:
                segs[-1][2].append(e)
        with tempfile.TemporaryDirectory() as folder:
            from pathlib import Path

            folder = Path(folder)
            if self.cfg["old"]:
                m = model(self.kind, 7)
                o = self.optimizer(m)
                o.zero_grad()
                (weights(m)[0] * 2).sum().backward()
                o.step()  # momentum buffer 2
                with torch.no_grad():
                    weights(m)[0].fill_(7.0)
                write_checkpoint(folder, m, o, self.cfg["old"])
            for what, e, want in segs:
                self.rec = []
                if what == "test":
                    self.phase = "test"
                    with contextlib.redirect_stdout(io.StringIO()):
                        if cnt % 2:
                            self.trainer.test(self.loader(self.cfg["test"]))
                        else:
                            self.trainer.test()
                    cnt += self.compare(want)
                    continue
                self.phase = "val"
                if e["new"]:
                    self.trainer = self.new_trainer(folder)
                done = [x for x in want if x["k"] == "done"]
                fault = [x for x in want if x["k"] in ("interrupt", "crash")]
                self.fault, self.nb, self.at = (fault[0] if fault else None), 0, -1
                with contextlib.redirect_stdout(io.StringIO()):
                    try:
                        out = self.trainer.fit()
                    except Crash:
                        out = None
                if (out is None) != (not done):
                    raise Mismatch(f"fit {'returned' if out else 'failed'} unexpectedly")
                cnt += self.compare([x for x in want if x["k"] not in ("done", "interrupt", "crash")])
                if done:
                    d = done[0]
                    got = (weight(self.trainer.model), *self.opt_state(self.trainer.optimizer))
                    exp = (d["w"], d["buf"], d["lr"])
                    if got[:2] != exp[:2] or abs(got[2] - exp[2]) > 1e-9:
                        raise Mismatch(f"after the training the weight, momentum and learning rate are {got} instead of {exp}")
                    if weight(out[0]) != d["w"]:
                        raise Mismatch("fit returns another model")
                    if self.trainer.current_epoch != d["it"]:
                        raise Mismatch(f"last epoch {self.trainer.current_epoch} instead of {d['it']}")
                    if not self.trainer.callback_manager.writer.closed:
                        raise Mismatch("the writer is not closed after the training")
            cnt += self.folder(folder)
        return cnt

    def compare(self, want):
        got = self.rec
        for j, (g, e) in enumerate(zip(got, want)):
            same = g["k"] == e["k"] and g["ph"] == e["ph"] and g["w"] == e["w"]
            if same and g["k"] == "loss":
                same = g["sum"] == e["sum"]
            elif same:
                same = g["it"] == e["it"] and (g["st"] == e["st"] or g["k"] != "cb") and \
                    (g["mean"] is None if not e["ph"] else abs(g["mean"] - e["sum"] / e["n"]) < 1e-5)
            if not same:
                raise Mismatch(f"event {j} of the training is {g} instead of {e}; before: {got[max(0, j - 2):j]}")
        if len(got) != len(want):
            raise Mismatch(f"{len(got)} events instead of {len(want)}: {'unexpected ' + str(got[len(want):][:2]) if len(got) > len(want) else 'missing ' + str(want[len(got):][:2])}")
        return max(1, len(want))

    def folder(self, folder):
        want = {f["it"]: f for f in self.c["files"]}
        if self.c["best"]:
            want["best"] = self.c["best"][0]
        names = {}
        for f in os.listdir(folder):
            m = re.match(r"(model|opt)_.*_ckpt_(.*)_device_cpu\.pt$", f)
            if m:
                names.setdefault(m[2] if m[2] == "best" else int(m[2]), {})[m[1]] = f
        if set(names) != set(want):
            raise Mismatch(f"checkpoints {sorted(map(str, names))} instead of {sorted(map(str, want))}")
        for it, f in want.items():
            m = model(self.kind, -55)
            o = self.optimizer(m)
            m, o, i = load_checkpoint(folder, m, o, names[it]["model"], names[it]["opt"])
            got = (weight(m), *self.opt_state(o), i)
            exp = (f["w"], f["buf"], f["lr"], it)
            if got[:2] + got[3:] != exp[:2] + exp[3:] or abs(got[2] - exp[2]) > 1e-6:
                raise Mismatch(f"checkpoint {it} holds {got} instead of {exp}")
        return len(want) + 1


def observe(c):
    return Session(c).run()
