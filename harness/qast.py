"""Translation of specification objects (block syntax, expressions, amplitudes) to qadence objects."""
from __future__ import annotations

import warnings

warnings.filterwarnings("ignore")
import logging

logging.disable(logging.CRITICAL)
import numpy as np
import torch
import qadence as qd
from qadence import operations as ops
from qadence.blocks import add, chain, kron
from qadence.blocks import MatrixBlock
from qadence.parameters import FeatureParameter, VariationalParameter

torch.set_num_threads(1)
U = np.pi / 4
W = np.exp(1j * np.pi / 4)
POW = np.array([1, W, W ** 2, W ** 3])
R2 = np.sqrt(2.0)
ANG = ("x", "y", "a", "b")
FEATURES = ("x", "y", "z")
VARIATIONAL = ("a", "b", "w")


def amp(r, k=0):
    return complex(np.dot(POW, r)) / R2 ** k


def scal(s):
    return amp(s["r"], s["k"])


def vec(v):
    return np.array([np.dot(POW, r) for r in v["a"]], dtype=complex) / R2 ** v["k"]


def matrix(cols):
    return np.stack([vec(c) for c in cols], axis=1)


class Params:
    """One qadence parameter object per name, so that sharing in the syntax is sharing in the code."""

    def __init__(self, val):
        self.val = val
        self.p = {}

    def get(self, name):
        if name not in self.p:
            v = float(self.val[name]) * (U if name in ANG else 1.0)
            self.p[name] = VariationalParameter(name, value=v) if name in VARIATIONAL else FeatureParameter(name, value=v)
        return self.p[name]

    def expr(self, e):
        c0, coefs = e[0], e[1:]
        used = [(c, n) for c, n in zip(coefs, ANG) if c]
        if not used:
            return c0 * U
        if c0 == 0 and len(used) == 1 and used[0][0] == 1:
            return self.get(used[0][1])
        out = c0 * U if c0 else 0
        for c, n in used:
            out = out + c * self.get(n)
        return out

    def scalar(self, s):
        import sympy

        if s["t"] == "num":
            z = amp(s["r"], s["k"])
            return z if abs(z.imag) > 1e-12 else z.real
        if s["t"] == "cos":
            return sympy.cos(self.expr(s["e"]))
        c0, cz, cw = s["c"]
        out = c0
        if cz:
            out = out + cz * self.get("z") if (out or cz != 1) else self.get("z")
        if cw:
            out = out + cw * self.get("w") if (out or cw != 1) else self.get("w")
        return out


def word(w):
    fac = [getattr(ops, p)(q) for p, q in w]
    return fac[0] if len(fac) == 1 else kron(*fac)


def hamiltonian(terms, P):
    bs = []
    for t in terms:
        b, c = word(t["w"]), t["c"] / R2 ** t["h"]
        if t["p"]:
            bs.append((P.get(t["p"]) if c == 1 else c * P.get(t["p"])) * b)
        else:
            bs.append(b if c == 1 else c * b)
    return bs[0] if len(bs) == 1 else add(*bs)


def bits(i, m):
    return format(i, f"0{m}b")


def build(b, P: Params):
    t = b["t"]
    if t == "gate":
        g, c, q = b["g"], tuple(b["c"]), tuple(b["q"])
        e = [P.expr(x) for x in b["e"]]
        if g == "HamEvo":
            return ops.HamEvo(hamiltonian(b["d"], P), e[0])
        if g in ("MCZ", "Toffoli"):
            return getattr(ops, g)(c, q[0])
        if g in ("MCRX", "MCRY", "MCRZ", "MCPHASE"):
            return getattr(ops, g)(c, q[0], e[0])
        if g == "Projector":
            return ops.Projector(ket=bits(b["d"][0], len(q)), bra=bits(b["d"][1], len(q)), qubit_support=q)
        if g == "Matrix":
            return MatrixBlock(torch.tensor(b["d"], dtype=torch.cdouble), q)
        if g in ("SDagger", "TDagger"):
            return getattr(ops, g[0])(q[0]).dagger()
        return getattr(ops, g)(*c, *q, *e)
    kids = [build(k, P) for k in b["b"]]
    if t == "chain":
        return chain(*kids)
    if t == "kron":
        return kron(*kids)
    if t == "add":
        return add(*kids)
    if t == "scale":
        return P.scalar(b["s"]) * kids[0]
    if t == "dagger":
        return kids[0].dagger()
    raise ValueError(t)


def gates(b):
    if b["t"] == "gate":
        yield b
    else:
        for k in b["b"]:
            yield from gates(k)


def nodes(b):
    yield b
    if b["t"] != "gate":
        for k in b["b"]:
            yield from nodes(k)


def names(b):
    """Parameter names occurring in the syntax."""
    out = set()
    for x in nodes(b):
        es = x["e"] if x["t"] == "gate" else []
        if x["t"] == "scale" and x["s"]["t"] == "cos":
            es = [x["s"]["e"]]
        if x["t"] == "scale" and x["s"]["t"] == "par":
            c0, cz, cw = x["s"]["c"]
            if cz:
                out.add("z")
            if cw:
                out.add("w")
        if x["t"] == "gate" and x["g"] == "HamEvo":
            out |= {t["p"] for t in x["d"] if t["p"]}
        for e in es:
            out |= {n for c, n in zip(e[1:], ANG) if c}
    return out


def feature_values(batch, used=None):
    """Values for the feature parameters, one tensor per name over the batch."""
    vals = {}
    for n in FEATURES:
        if used is not None and n not in used:
            continue
        f = U if n in ANG else 1.0
        vals[n] = torch.tensor([v[n] * f for v in batch], dtype=torch.float64)
    return vals


def generic_state(n, seed):
    rng = np.random.default_rng(seed)
    v = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
    return v / np.linalg.norm(v)


def close(a, b, tol=1e-6):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))
