"""Equality and the structure of programs: the real code against MCEqual."""
from __future__ import annotations

from copy import deepcopy

from qast import *
from runtime import Mismatch

from qadence import QuantumCircuit
from qadence.blocks.utils import parameters, primitive_blocks


def need(cond, what):
    if not cond:
        raise Mismatch(what)


def direct(b):
    """The gates that are reached without passing a factor."""
    if b["t"] == "gate":
        yield b
    elif b["t"] in ("chain", "kron", "add"):
        for k in b["b"]:
            yield from direct(k)


def session(c):
    n, i = c["n"], c.get("i", 0)
    P = Params(c["batch"][0])
    mk = lambda b: build(b, P)
    b = mk(c["block"])
    cnt = 0
    for what, o in (("a second construction", mk(c["block"])), ("a construction with its own parameters", build(c["block"], Params(c["batch"][0]))),
                    ("a deep copy", deepcopy(b)), ("the same program with sums and products in another order", mk(c["shuffled"]))):
        need(b == o and o == b and not (b != o), f"a program is not equal to {what}")
        cnt += 1
    for n2, o in ((n, mk(c["shuffled"])), (n + 1, mk(c["block"]))):
        need((QuantumCircuit(n, b) == QuantumCircuit(n2, o)) == (n == n2), f"circuits on {n} and {n2} qubits compare wrongly")
    for e in c["edits"]:
        o = mk(e["b"])
        r, s = b == o, o == b
        need(r == s, f"equality is not symmetric: {r} and {s}")
        need((b != o) == (not r), "== and != agree")
        if e["same"]:
            need(r, "two constructions that differ in the order of summands or factors only are not equal")
        if e["differs"]:
            need(not r, f"programs that denote different operators are equal: {e['b']}")
            need(not QuantumCircuit(n, b) == QuantumCircuit(n, o), "circuits that denote different operators are equal")
        cnt += 3
    # what the program says about itself
    need(sorted(b.qubit_support) == c["support"], f"qubit_support {b.qubit_support} instead of {c['support']}")
    need(b.n_qubits == max(c["support"]) + 1, f"n_qubits is {b.n_qubits}")
    used = names(c["block"])
    got = {str(p) for p in parameters(b) if not p.is_number}
    need(got == used, f"parameters {got} instead of {used}")
    got = {str(p) for p in QuantumCircuit(n, b).unique_parameters if not p.is_number}
    need(got == used, f"unique_parameters {got} instead of {used}")
    leaves = primitive_blocks(b)
    if not any(g["g"] == "HamEvo" for g in c["leaves"]) and all(x["t"] != "dagger" for x in nodes(c["block"])):
        want = [mk(g) for g in c["leaves"]]
        need(len(leaves) == len(want) and all(x == y for x, y in zip(leaves, want)), f"primitive_blocks gives {leaves} instead of {want}")
        if c["block"]["t"] in ("chain", "kron", "add"):
            for g in map(mk, direct(c["block"])):
                need(g in b, f"{g} is not found in a program that contains it")
    return cnt + 5
