"""Stored expressions: values of well-formed ones, rejection of everything else."""
from __future__ import annotations

import contextlib
import copy
import io
import os
import tempfile

from qast import *  # noqa: F403
from runtime import Mismatch

from qadence import FeatureParameter, QuantumCircuit, QuantumModel, RX, X, Z, chain, deserialize, serialize
from qadence.blocks.utils import expressions
from qadence.parameters import evaluate

LEAF = {"bad:open": "open('vp_probe','w')", "bad:setattr": "setattr(eval('torch'),'vp_mark',1)", "bad:mkdir": "sorted(map(eval('os.mkdir'),tuple('d')))",
        "bad:print": "print('vp_probe')", "bad:exit": "exit(0)", "bad:exec": "exec('vp_probe')", "bad:import": "__import__('os').mkdir('vp_probe')",
        "bad:vars": "vars()", "bad:name": "os"}
FORM = {"bad:plus": "{}+1", "bad:attr": "{}.args", "bad:lambda": "(lambda: {})()", "bad:listlit": "[{}]", "bad:semi": "{};1", "bad:cond": "{} if 1 else 0",
        "bad:walrus": "(vp:={})", "bad:star": "Add(*[{}])", "bad:index": "{}[0]", "bad:neg": "not {}", "bad:open2": "Add({},open('vp_probe','w'))"}


def text(n):
    h, kids = n["h"], n["a"]
    if h == "Integer":
        return f"Integer({n['v']})"
    if h == "Float":
        return f"Float('{n['v']}.0', precision=53)"
    if h == "FloatE":
        return f"Float('{n['v'] / 10}e+1', precision=53)" if n["v"] > 0 else f"Float('{n['v'] * 10}.0e-1', precision=53)"
    if h == "Parameter":
        return f"Parameter('{kids[0]}', trainable={'True' if kids[0] == 'a' else 'False'})"
    if h == "Pow":
        return f"Pow({text(kids[0])}, Integer(2))"
    if h in ("Add", "Mul"):
        return f"{h}({', '.join(text(k) for k in kids)})"
    if h in LEAF:
        return LEAF[h]
    if h in FORM:
        return FORM[h].format(text(kids[0]))
    return f"{h[4:]}({text(kids[0])})"


def stored(t, val):
    sym = {k: {"name": k, "trainable": "True" if k == "a" else "False", "value": str(float(v))} for k, v in val.items()}
    b = serialize(chain(RX(0, FeatureParameter("x")), RX(1, 0.5)))
    e = b["blocks"][0]["parameters"]["_name_dict"]["parameter"][1]
    e["expression"], e["symbols"] = t, sym
    return b


def expressions_of(c):
    t = text(c["tree"])
    d = stored(t, c["vals"][0])
    if c.get("i", 0) % 4 == 1:
        q = serialize(QuantumCircuit(2, chain(RX(0, 0.1), RX(1, 0.5))))
        q["block"] = d
        d = q
    marks = hasattr(torch, "vp_mark")
    out, raised = io.StringIO(), None
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            with contextlib.redirect_stdout(out):
                try:
                    obj = deserialize(copy.deepcopy(d))
                except (Exception, SystemExit) as e:
                    raised = e
            left = os.listdir(tmp)
        finally:
            os.chdir(old)
    if left or "vp_probe" in out.getvalue() or hasattr(torch, "vp_mark") != marks or isinstance(raised, SystemExit):
        if hasattr(torch, "vp_mark"):
            del torch.vp_mark
        raise Mismatch(f"loading executes the text {t!r}")
    if c["bad"]:
        if raised is None:
            raise Mismatch(f"the text {t!r} is not an expression but is loaded")
        return 1
    if raised is not None:
        raise Mismatch(f"the expression {t!r} is not loaded: {type(raised).__name__} {raised}")
    blk = getattr(obj, "block", obj)
    expr = blk.blocks[0].parameters.parameter
    vals, want = c["vals"], c["values"]

    def same(got, k, how):
        if abs(complex(got) - want[k]) > 1e-6 * (1 + abs(want[k])):
            raise Mismatch(f"{how} of the expression {t!r} is {got} instead of {want[k]} at {vals[k]}")

    def at(e, k):
        used = {s.name: float(vals[k][s.name]) for s in e.free_symbols} if hasattr(e, "free_symbols") else {}
        return evaluate(e, used)

    same(evaluate(expr), 0, "the value")
    for k in range(len(vals)):
        same(at(expr, k), k, "the value")
    for s in expr.free_symbols:
        if s.trainable != (s.name == "a") or abs(float(s.value) - vals[0][s.name]) > 1e-9:
            raise Mismatch(f"parameter {s.name} loaded with trainable={s.trainable} value={s.value}")
    names = {s.name for s in expr.free_symbols}
    if names:
        for k in range(len(vals)):
            same(evaluate(expr, {n: float(vals[k][n]) for n in names}, as_torch=True).reshape(-1)[0].item(), k, "the differentiable value")
        # as a coefficient of a program, over a batch
        m = QuantumModel(QuantumCircuit(1, chain(expr * X(0))))
        ins = {n: torch.tensor([float(v[n]) for v in vals]) for n in names & {"x", "y"}}
        out = m.run(ins)[:, 1]
        amp = [vals[k] if "a" not in names else {**vals[k], "a": vals[0]["a"]} for k in range(len(vals))]
        for k in range(len(out)):
            if amp[k] == vals[k]:
                same(out[k].item(), k, "the coefficient")
        m.reset_vparams(torch.tensor([float(vals[1]["a"])])) if "a" in names else None
        out = m.run(ins)[:, 1]
        same(out[1 if len(out) > 1 else 0].item(), 1, "the coefficient") if len(out) > 1 or not names & {"x", "y"} and "a" in names else None
    got = complex(evaluate(expr))
    # and again through storing it
    if c.get("i", 0) % 3 == 0:
        e2 = deserialize(serialize(blk)).blocks[0].parameters.parameter
        g2 = complex(evaluate(e2))
        if abs(g2 - got) > 1e-6 * (1 + abs(got)):
            raise Mismatch(f"the expression {t!r} changes its value when stored again")
    return 2
