"""Observations of the real code compared with what the specification prescribes."""
from __future__ import annotations

from qast import *
from runtime import Mismatch

from qadence import QuantumCircuit, QuantumModel, Register
from qadence.blocks.block_to_tensor import block_to_tensor
from qadence.types import Endianness


def tnp(t):
    return t.detach().resolve_conj().numpy() if isinstance(t, torch.Tensor) else np.asarray(t)


def expand(got, m):
    """A result with one row stands for the same row for every element of the batch."""
    got = np.asarray(got)
    return np.repeat(got, m, 0) if got.shape[0] == 1 and m > 1 else got


def bitrev(n):
    return [int(format(i, f"0{n}b")[::-1], 2) for i in range(2 ** n)]


def expect_eq(what, got, want, tol=1e-6):
    if not close(got, want, tol):
        g, w = np.asarray(got), np.asarray(want)
        d = f"max deviation {np.abs(g - w).max():.3g}" if g.shape == w.shape else f"shapes {g.shape} and {w.shape}"
        raise Mismatch(f"{what}: differs from the specification ({d})")


def restrict(want, n, m):
    """The operator on the first m of n qubits, when it acts as the identity on the others."""
    s = 2 ** (n - m)
    return want[:, ::s, ::s]


def composition(c):
    n, blk, batch, i = c["n"], c["block"], c["batch"], c.get("i", 0)
    want = np.stack([matrix(m) for m in c["cols"]])
    B = len(batch)
    used = names(blk)
    vals = feature_values(batch, used)
    P = Params(batch[0])
    b = build(blk, P)
    rev = bitrev(n)
    cnt = 0
    # the matrix of the block
    got = expand(tnp(block_to_tensor(b, vals, qubit_support=tuple(range(n)))), B)
    expect_eq("matrix of the block", got, want)
    if i % 3 == 0:
        got = expand(tnp(block_to_tensor(b, vals, qubit_support=tuple(range(n)), endianness=Endianness.LITTLE)), B)
        expect_eq("little-endian matrix of the block", got, want[:, rev][:, :, rev])
        cnt += 1
    if i % 3 == 1:
        sup = sorted(b.qubit_support)
        own = tnp(block_to_tensor(b, vals))
        # restricted to its own support: rows/columns with the other qubits in |0>
        idx = [sum(((j >> (len(sup) - 1 - k)) & 1) << (n - 1 - q) for k, q in enumerate(sup)) for j in range(2 ** len(sup))]
        expect_eq("matrix of the block on its support", expand(own, B), want[:, idx][:, :, idx])
        cnt += 1
    # running it on a generic state
    psi = generic_state(n, i)
    st = torch.tensor(psi)[None]
    wpsi = want @ psi
    out = expand(tnp(qd.run(n, b, values=vals, state=st)), B)
    expect_eq("run on a given state", out, wpsi)
    cnt += 2
    mode = i % 7
    if mode == 0:
        out = tnp(qd.run(QuantumCircuit(n, b), values=vals))
        expect_eq("run of the circuit from |0>", expand(out, B), want[:, :, 0])
    elif mode == 1:
        out = tnp(qd.run(Register(n), b, values=vals, state=st, endianness=Endianness.LITTLE))
        expect_eq("little-endian run", expand(out, B), wpsi[:, rev])
    elif mode == 2:
        m = max(b.qubit_support) + 1
        out = tnp(qd.run(b, values=vals))
        expect_eq("run of the bare block", expand(out, B), restrict(want, n, m)[:, :, 0])
    elif mode == 3:
        model = QuantumModel(QuantumCircuit(n, b))
        expect_eq("model run", expand(tnp(model.run(vals, state=st)), B), wpsi)
        expect_eq("model run, second call", expand(tnp(model(vals)), B), want[:, :, 0])
    elif mode == 4:
        if B > 1 or not vals:
            psis = np.stack([generic_state(n, i + 17 * j) for j in range(max(B, 2))])
            w2 = np.stack([want[j if B > 1 else 0] @ psis[j] for j in range(len(psis))])
            out = tnp(qd.run(QuantumCircuit(Register(n), b), values=vals, state=torch.tensor(psis)))
            expect_eq("run on a batch of states", out, w2)
    elif mode == 5:
        out = qd.run([QuantumCircuit(n, b), QuantumCircuit(n, b)], values=vals, state=st)
        expect_eq("run of a list of circuits", tnp(out), np.concatenate([expand(tnp(qd.run(n, b, values=vals, state=st)), 1)] * 2))
    elif mode == 6:
        out = tnp(qd.run(QuantumCircuit(n, b, ), values=vals, state=st, configuration={"use_single_qubit_composition": True}))
        expect_eq("run with fused single-qubit gates", expand(out, B), wpsi)
    return cnt + 1


# ------------------------------------------------------------------ expectation values
def herm_vals(c):
    return np.array([[scal(v).real for v in row] for row in c["vals"]])


def union_names(c):
    out = names(c["block"])
    for o in c["obs"]:
        out |= names(o)
    return out


def setup(c):
    P = Params(c["batch"][0])
    b = build(c["block"], P)
    obs = [build(o, P) for o in c["obs"]]
    return P, b, obs, feature_values(c["batch"], union_names(c))


def expectation(c):
    n, i = c["n"], c.get("i", 0)
    P, b, obs, vals = setup(c)
    want = herm_vals(c)
    B = len(c["batch"])
    got = expand(tnp(qd.expectation(n, b, obs, values=vals)), B)
    expect_eq("expectation of a list of observables", got, want)
    got = expand(tnp(qd.expectation(QuantumCircuit(n, b), obs[0], values=vals)), B)
    expect_eq("expectation of one observable", got, want[:, :1])
    mode = i % 9
    if mode == 0:
        model = QuantumModel(QuantumCircuit(n, b), obs)
        expect_eq("model expectation", expand(tnp(model.expectation(vals)), B), want)
        wf = [vec(s) for s in c["states"]]
        expect_eq("model run", expand(tnp(model.run(vals)), B), np.stack(wf))
        expect_eq("model expectation, second call", expand(tnp(model.expectation(vals)), B), want)
    elif mode == 1:
        psi = generic_state(n, i)
        out = []
        for j in range(B):
            v = matrix(c["ccols"][j]) @ psi
            out.append([(v.conj() @ matrix(oc[j]) @ v).real for oc in c["ocols"]])
        got = qd.expectation(Register(n), b, obs, values=vals, state=torch.tensor(psi)[None])
        expect_eq("expectation from a given state", expand(tnp(got), B), np.array(out))
    elif mode == 2:
        got = qd.expectation(n, b, obs, values=vals, configuration={"loop_expectation": True})
        expect_eq("expectation looped over the batch", expand(tnp(got), B), want)
    elif mode == 3:
        for dm in ("gpsr", "adjoint"):
            if diffable(c, dm):
                got = qd.expectation(n, b, obs, values=vals, diff_mode=dm)
                expect_eq(f"expectation with diff_mode={dm}", expand(tnp(got), B), want)
    elif mode == 4:
        got = qd.expectation(n, b, obs, values=vals, configuration={"use_single_qubit_composition": True})
        expect_eq("expectation with fused single-qubit gates", expand(tnp(got), B), want)
    elif mode == 5:
        model = QuantumModel(QuantumCircuit(n, b), obs[1:])
        o = model.observable(obs[0], n)
        if not (names(c["obs"][0]) - names(c["block"]) - (names(c["obs"][1]) if len(obs) > 1 else set())) and not has_scale(c["obs"][0]):
            got = model.expectation(vals, observable=[o])
            expect_eq("expectation of an observable given on the fly", expand(tnp(got), B), want[:, :1])
    elif mode == 6:
        model, order = qnn(c, b, obs, i)
        with torch.no_grad():
            for _ in range(2):
                expect_eq("model of a list of inputs", expand(tnp(model(table(vals, order) if order else vals)), B), want)
        expect_eq("model of a list of inputs, called with a dictionary", expand(tnp(model(vals)), B), want)
        if order and B > 1:  # one row after the other, then in reverse
            xs = table(vals, order)
            rows = torch.cat([model(xs[j:j + 1]) for j in range(B)])
            expect_eq("model row by row", tnp(rows), want)
            expect_eq("model of the rows in reverse", tnp(model(xs.flip(0))), want[::-1])
    elif mode in (7, 8):
        separate_values(c, b, obs, vals, want, {"loop_expectation": mode == 8})
    return 4


def qnn(c, b, obs, i, **kw):
    """A QNN with its inputs in some order."""
    from qadence import QNN

    order = sorted(union_names(c) & set(FEATURES), reverse=bool(i % 2))
    if i % 3 == 0:
        order = order[1:] + order[:1]
    return QNN(QuantumCircuit(c["n"], b), obs, inputs=order if len(order) > 1 or i % 5 else None, **kw), order


def table(vals, order):
    return torch.stack([vals[k] for k in order], dim=1)


def separate_values(c, b, obs, vals, want, config):
    """A back end takes the values of the circuit and of the observables separately."""
    from qadence.backends import backend_factory
    from qadence.backends.api import config_factory

    B = len(c["batch"])
    bk = backend_factory("pyqtorch", None, configuration=config_factory("pyqtorch", config))
    conv = bk.convert(QuantumCircuit(c["n"], b), obs)
    emb = conv.embedding_fn(conv.params, vals)
    expect_eq(f"back end expectation {config}", expand(tnp(bk.expectation(conv.circuit, conv.observable, emb)).real, B), want)
    # the observables see the values of the next element of the batch
    rot = {k: torch.roll(v, -1, 0) for k, v in vals.items()}
    emb2 = conv.embedding_fn(conv.params, rot)
    got = tnp(bk.expectation(conv.circuit, conv.observable, {"circuit": emb, "observables": emb2})).real
    out = []
    for j in range(B):
        v = vec(c["states"][j])
        out.append([(v.conj() @ matrix(oc[(j + 1) % B]) @ v).real for oc in c["ocols"]])
    expect_eq(f"expectation with separate values {config}", expand(got, B), np.array(out))


def has_scale(b):
    return any(x["t"] == "scale" for x in nodes(b))


def obs_params(c):
    out = set()
    for o in c["obs"]:
        out |= names(o)
    return out


def diffable(c, dm):
    """Documented domain of the differentiation modes."""
    gs = list(gates(c["block"]))
    if dm == "adjoint":
        # known limitation of pyqtorch's adjoint method: gates on qubits which are not in ascending order
        return not obs_params(c) and all(g["g"] not in ("U", "HamEvo", "Matrix", "Projector", "N") for g in gs) \
            and all(list(g["c"] + g["q"]) == sorted(g["c"] + g["q"]) for g in gs)
    if dm == "gpsr":
        return not obs_params(c) and all(g["g"] not in ("U", "Matrix", "Projector", "N") for g in gs) \
            and all(not t["p"] for g in gs if g["g"] == "HamEvo" for t in g["d"])
    return True


def gradient(c, i, o, j, f):
    """The specified derivative of observable o at batch element i in the parameter f of the pair j."""
    name = c["pairs"][j]["pq".index(f)]
    return scal(c["grads"][i][o][j][f]).real + sum(np.pi / 4 * scal(g["g"][i][o]).real for g in c.get("ggrads", ()) if g["p"] == name)


def gradients(c, dm, second=False):
    n = c["n"]
    P, b, obs, vals = setup(c)
    want = herm_vals(c)
    B = len(c["batch"])
    used = union_names(c)
    for v in vals.values():
        v.requires_grad_(True)
    model = QuantumModel(QuantumCircuit(n, b), obs, diff_mode=dm)
    ev = model.expectation(vals)
    if ev.shape[0] == 1 and B > 1:
        B = 1
    expect_eq(f"{dm}: expectation", tnp(ev), want[:B])
    ins = {k: (v, "f") for k, v in vals.items()}
    for k, p in model._params.items():
        if k in VARIATIONAL:
            ins[k] = (p, "v")
    if set(ins) != used:
        raise Mismatch(f"parameters of the model {sorted(ins)} are not those of the program {sorted(used)}")
    cnt = 0
    grads = {}
    for j, pair in enumerate(c["pairs"]):
        for which in (0, 1):
            grads[pair[which]] = (j, "pq"[which])
    chosen = sorted(used & set(grads))
    for i in range(B if chosen else 0):
        for o in range(len(obs)):
            if dm == "adjoint":  # one backward pass per evaluation
                ev = model.expectation(vals)
            gs = torch.autograd.grad(ev[i, o], [ins[k][0] for k in chosen], retain_graph=dm != "adjoint", allow_unused=True) \
                if ev.requires_grad else [None] * len(chosen)
            for name, g in zip(chosen, gs):
                t, kind = ins[name]
                j, f = grads[name]
                w = gradient(c, i, o, j, f)
                g = np.zeros(tuple(t.shape)) if g is None else tnp(g)
                wv = np.zeros(g.shape)
                wv.reshape(-1)[i if kind == "f" and t.numel() > 1 else 0] = w
                expect_eq(f"{dm}: derivative in {name} of observable {o} at batch element {i}", g, wv, 1e-5)
                cnt += 1
    if second:
        for j, (p, q) in enumerate(c["pairs"]):
            if p not in used or q not in used or {p, q} & {g["p"] for g in c.get("ggrads", ())}:
                continue
            (tp, kp), (tq, kq) = ins[p], ins[q]
            for i in range(B):
                for o in range(len(obs)):
                    w = scal(c["grads"][i][o][j]["pq"]).real
                    g = torch.autograd.grad(ev[i, o], tp, create_graph=True, allow_unused=True)[0]
                    if g is None or not g.requires_grad:
                        got = 0.0
                    else:
                        h = torch.autograd.grad(g.reshape(-1)[i if kp == "f" and tp.numel() > 1 else 0], tq, retain_graph=True, allow_unused=True)[0]
                        got = 0.0 if h is None else float(h.reshape(-1)[i if kq == "f" and tq.numel() > 1 else 0])
                    if abs(got - w) > 1e-5 * (1 + abs(w)):
                        raise Mismatch(f"{dm}: second derivative in {p},{q} of observable {o} at batch element {i}: {got} instead of {w}")
                    cnt += 1
    return cnt


def input_derivatives(c):
    """derivative() of a QNN with respect to its columns, by differentiation and by finite differences."""
    from qadence.ml_tools.models import derivative

    c = {**c, "obs": c["obs"][:1]}
    P, b, obs, vals = setup(c)
    feats = union_names(c) & set(FEATURES)
    if not feats:
        return 0
    B, i, cnt = len(c["batch"]), c.get("i", 0), 0
    for how, tol in (("ad", 1e-5), ("fd", 2e-3)):
        model, order = qnn(c, b, obs, i, input_diff_mode=how)
        x = table(vals, order).requires_grad_(True)
        for j, (p, q) in enumerate(c["pairs"]):
            if p not in feats or q not in feats:
                continue
            for idx, f in (((p,), "p"), ((q,), "q"), ((p, q), "pq")):
                want = np.array([[scal(c["grads"][k][0][j][f]).real] for k in range(B)])
                got = tnp(derivative(model, x, tuple(order.index(k) for k in idx)))
                expect_eq(f"derivative of a QNN in {idx} ({how})", got, want, tol)
                cnt += 1
    return cnt


# ------------------------------------------------------------------ transformations
def shape(b):
    """Structure of a qadence block: composite kinds and leaves in order."""
    from qadence.blocks import AddBlock, ChainBlock, KronBlock, ScaleBlock

    if isinstance(b, ScaleBlock):
        return ["scale", shape(b.block), b.tag]
    for T, n in ((ChainBlock, "chain"), (KronBlock, "kron"), (AddBlock, "add")):
        if type(b) is T:
            return [n, [shape(x) for x in b.blocks], b.tag]
    return [type(b).__name__, list(b.qubit_support), b.tag]


def spec_shape(b):
    if b["t"] == "gate":
        name = "MatrixBlock" if b["g"] == "Matrix" else b["g"]
        return [name, list(b["c"]) + list(b["q"])]
    if b["t"] == "scale":
        return ["scale", spec_shape(b["b"][0])]
    return [b["t"], [spec_shape(k) for k in b["b"]]]


def nested(b, kinds):
    """Kinds of blocks found directly inside a block of the same kind."""
    s = b
    out = set()
    if s[0] == "scale":
        return nested(s[1], kinds)
    if s[0] in ("chain", "kron", "add"):
        for k in s[1]:
            if k[0] == s[0] and k[0] in kinds:
                out.add(k[0])
            out |= nested(k, kinds)
    return out


def leaves(s):
    if s[0] == "scale":
        return leaves(s[1])
    if s[0] in ("chain", "kron", "add"):
        return [x for k in s[1] for x in leaves(k)]
    return [s[:2]]


def scale_above(s):
    """A scale is applied to something that is composed or scaled itself."""
    if s[0] == "scale":
        return s[1][0] in ("chain", "kron", "add", "scale")
    if s[0] in ("chain", "kron", "add"):
        return any(scale_above(k) for k in s[1])
    return False


def tag_all(b, k=0):
    """Give every part of a block its own tag."""
    from qadence.blocks import CompositeBlock, ControlBlock, ScaleBlock

    b.tag = f"t{k}"
    kids = [b.block] if isinstance(b, ScaleBlock) else list(b.blocks) if isinstance(b, CompositeBlock) and not isinstance(b, ControlBlock) else []
    for x in kids:
        k = tag_all(x, k + 1)
    return k


def passes(c):
    from qadence.blocks import AddBlock, ChainBlock, KronBlock
    from qadence.transpile import (apply_fn_to_blocks, blockfn_to_circfn, chain_single_qubit_ops, fill_identities as circ_fill, flatten,
                                   invert_endianness, reassign, scale_primitive_blocks_only, transpile)
    from qadence.transpile.block import fill_identities

    n, batch = c["n"], c["batch"]
    B = len(batch)
    vals = feature_values(batch, names(c["block"]))
    P = Params(batch[0])
    b0 = build(c["block"], P)
    types = {"chain": ChainBlock, "kron": KronBlock, "add": AddBlock}
    tag_all(b0)
    shape0 = shape(b0)

    def one(st):
        p, d = st["p"], st["d"]
        if p == "flatten":
            return lambda b: flatten(b, [types[t] for t in ("chain", "kron", "add") if d[t]])
        if p == "reassign":
            return lambda b: reassign(b, dict(enumerate(d)))
        if p == "invert":
            return lambda b: invert_endianness(b, n, False)
        if p == "chainsq":
            return chain_single_qubit_ops
        if p == "scaleprim":
            return scale_primitive_blocks_only
        if p == "fill":
            return lambda b: fill_identities(b, 0, n - 1)
        if p == "recurse":
            return lambda b: apply_fn_to_blocks(b, lambda leaf: leaf)
        if p == "circflatten":
            return lambda b: flatten(QuantumCircuit(n, b)).block
        if p == "circinvert":
            return lambda b: invert_endianness(QuantumCircuit(n, b)).block
        if p == "circfill":
            return lambda b: circ_fill(QuantumCircuit(n, b)).block
        raise ValueError(p)

    fs = [one(s) for s in c["log"]]
    b, cnt = b0, 0
    for st, f in zip(c["log"], fs):
        before = shape(b)
        a = f(b)
        if shape(b) != before:
            raise Mismatch(f"{st['p']} changed the block it was given")
        s = shape(a)
        if st["p"] == "flatten":
            kinds = {t for t in types if st["d"][t]}
            if nested(s, kinds):
                raise Mismatch(f"flatten left {nested(s, kinds)} nested")
        if st["p"] == "circflatten" and nested(s, set(types)):
            raise Mismatch("flatten of the circuit left nested blocks")
        if st["p"] == "scaleprim" and scale_above(s):
            raise Mismatch("a scale is left on a composed block")
        if st["p"] in ("fill", "circfill") and set(a.qubit_support) != set(range(n)):
            raise Mismatch(f"{st['p']} does not cover all the qubits: {a.qubit_support}")
        b, cnt = a, cnt + 1
    want = np.stack([matrix(m) for m in c["cols"]])
    hist = [s["p"] for s in c["log"]]
    expect_eq(f"matrix after {hist}", expand(tnp(block_to_tensor(b, vals, qubit_support=tuple(range(n)))), B), want)
    psi = generic_state(n, 3)
    expect_eq(f"run after {hist}", expand(tnp(qd.run(n, b, values=vals, state=torch.tensor(psi)[None])), B), want @ psi)
    if all(h in ("flatten", "reassign", "invert", "circinvert") for h in hist) and leaves(shape(b)) != leaves(spec_shape(c["after"])):
        raise Mismatch(f"operations after {hist} are {leaves(shape(b))} instead of {leaves(spec_shape(c['after']))}")
    # the original is as it was
    if shape(b0) != shape0:
        raise Mismatch(f"{hist} changed the original block")
    expect_eq("matrix of the original block afterwards", expand(tnp(block_to_tensor(b0, vals, qubit_support=tuple(range(n)))), B),
              np.stack([matrix(m) for m in c["cols0"]]))
    # all passes composed, and lifted to circuits
    comp = transpile(*reversed(fs))(b0)
    expect_eq(f"matrix after composed {hist}", expand(tnp(block_to_tensor(comp, vals, qubit_support=tuple(range(n)))), B), want)
    lifted = transpile(*[blockfn_to_circfn(f) for f in reversed(fs)])(QuantumCircuit(Register.line(n), b0))
    if lifted.register != Register.line(n):
        raise Mismatch(f"{hist} on a circuit lost its register")
    expect_eq(f"run after lifted {hist}", expand(tnp(qd.run(lifted, values=vals, state=torch.tensor(psi)[None])), B), want @ psi)
    for h in hist:
        if h == "circflatten" and flatten(QuantumCircuit(Register.line(n), b0)).register != Register.line(n):
            raise Mismatch("flatten of a circuit lost its register")
        if h == "circfill" and circ_fill(QuantumCircuit(Register.line(n), b0)).register != Register.line(n):
            raise Mismatch("fill_identities of a circuit lost its register")
    return cnt + 5


# ------------------------------------------------------------------ adjoints
def off_diagonal(b):
    return any(g["g"] == "Projector" and g["d"][0] != g["d"][1] for g in gates(b))


def adjoint(c):
    n, batch, i = c["n"], c["batch"], c.get("i", 0)
    B = len(batch)
    vals = feature_values(batch, names(c["block"]))
    b = build(c["block"], Params(batch[0]))
    want = np.stack([matrix(m) for m in c["cols"]])
    adj = np.stack([matrix(m) for m in c["adj"]])
    full = tuple(range(n))
    before = tnp(block_to_tensor(b, vals, qubit_support=full))
    if off_diagonal(c["block"]):  # ket/bra convention of the dense matrix is a listed finding; adjoint still means conjugate transpose
        got = tnp(block_to_tensor(b.dagger(), vals, qubit_support=full))
        expect_eq("adjoint of a program with off-diagonal projectors", got, before.conj().transpose(0, 2, 1))
        return 1
    expect_eq("matrix of the block", expand(before, B), want)
    d = b.dagger()
    expect_eq("matrix of the adjoint", expand(tnp(block_to_tensor(d, vals, qubit_support=full)), B), adj)
    expect_eq("matrix of the adjoint of the adjoint", expand(tnp(block_to_tensor(d.dagger(), vals, qubit_support=full)), B), want)
    expect_eq("matrix of the block after taking its adjoint", tnp(block_to_tensor(b, vals, qubit_support=full)), before)
    if set(d.qubit_support) != set(b.qubit_support):
        raise Mismatch(f"the adjoint acts on {d.qubit_support} instead of {b.qubit_support}")
    psi = generic_state(n, i)
    st = torch.tensor(psi)[None]
    cnt = 4
    if not any(g["g"] == "T" for g in gates(c["block"])):  # the adjoint of T is not supported by the simulator
        reg = Register.line(n)
        qc = QuantumCircuit(reg, b).dagger()
        if qc.register != reg:
            raise Mismatch("the adjoint of a circuit lost its register")
        expect_eq("run of the adjoint circuit", expand(tnp(qd.run(qc, values=vals, state=st)), B), adj @ psi)
        expect_eq("run of the block, then its adjoint", expand(tnp(qd.run(n, chain(b, d), values=vals, state=st)), B),
                  np.stack([adj[k] @ want[k] @ psi for k in range(B)]))
        cnt += 2
    return cnt


# ------------------------------------------------------------------ models as state machines
def model_session(c, inputs_check=True):
    import copy
    import os
    import tempfile

    from qadence import QNN, deserialize, load, save, serialize
    from qadence.types import SerializationFormat

    n, batch = c["n"], c["batch"]
    B = len(batch)
    P, b, obs, vals = setup(c)
    used = set(c["used"])
    dm = "ad"
    if c.get("i", 0) % 3:
        dm = ("ad", "gpsr", "adjoint")[c["i"] % 3]
        if not diffable(c, dm):
            dm = "ad"
    unit = lambda k: U if k in ANG else 1.0  # noqa: E731
    fixval = {k: torch.tensor([v * unit(k)], dtype=torch.float64) for k, v in c["fixval"].items()}
    kind = ("model", "quiet", "qnn", "table")[(c.get("i", 0) // 3) % 4]
    order = None
    if any(s["op"] == "fix" for s in c["log"]) and any(s["op"] == "save" for s in c["log"]) and kind in ("qnn", "table"):
        kind = "quiet"  # a QNN with fixed parameters cannot be loaded: a listed finding
    if kind in ("qnn", "table"):
        model, order = qnn(c, b, obs, c["i"] // 12, diff_mode=dm)
        if [str(p) for p in model.inputs] != order:
            raise Mismatch(f"inputs of the model {model.inputs} instead of {order}")
    else:
        model = QuantumModel(QuantumCircuit(n, b), obs, diff_mode=dm)
    if inputs_check and {p.name for p in model.inputs} != {k for k in used if k in FEATURES}:
        raise Mismatch(f"inputs of the model {model.inputs}, the program uses {used}")
    if model.in_features != len([k for k in used if k in FEATURES]) or model.out_features != len(obs):
        raise Mismatch("number of inputs or outputs of the model")
    fixed, cnt = set(), 0
    hist = []

    def value_of(over=None):
        v = dict(vals)
        for k in fixed:
            v[k] = fixval[k]
        v.update(over or {})
        return v

    def check(what, want, over=None):
        want = np.array([[scal(x).real for x in row] for row in want])
        if kind == "table" and order and not over and not fixed:
            got = model(table(vals, order))
        elif kind in ("quiet", "table"):
            with torch.no_grad():
                got = model.expectation(value_of(over))
        else:
            got = model.expectation(value_of(over))
        expect_eq(f"{what} after {hist} ({kind}, {dm})", expand(tnp(got), B), want)

    def check_store(st):
        """Names and values of the trainable parameters."""
        got = {k: float(v) for k, v in model.vparams.items()}
        names_ = (used & set(VARIATIONAL)) - fixed
        if set(got) != names_:
            raise Mismatch(f"trainable parameters {sorted(got)} instead of {sorted(names_)} after {hist}")
        if model.num_vparams != len(names_):
            raise Mismatch(f"{model.num_vparams} trainable parameters instead of {len(names_)}")
        for k in names_ if st else ():
            if abs(got[k] - st[k] * unit(k)) > 1e-6:
                raise Mismatch(f"parameter {k} is {got[k]} instead of {st[k] * unit(k)} after {hist}")

    with tempfile.TemporaryDirectory() as d:
        dicts = {}
        for s in c["log"]:
            op = s["op"]
            hist.append(op + s.get("f", s.get("name", "")))
            cnt += 1
            if op == "eval":
                check("expectation", s["vals"])
            elif op == "override":
                check("expectation with a parameter given as input", s["vals"], {s["name"]: torch.tensor([s["v"] * unit(s["name"])], dtype=torch.float64)})
            elif op == "reset":
                model.reset_vparams([s["st"][k] * unit(k) for k in model.vparams])
                check_store(s["st"])
            elif op == "fix":
                model.set_as_fixed([s["name"]])
                fixed.add(s["name"])
                check_store(None)
            elif op == "free":
                model.set_as_variational([s["name"]])
                fixed.discard(s["name"])
                check_store(None)
            elif op == "save":
                if s["f"] == "pt":
                    save(model, d, "m", SerializationFormat.PT)
                elif s["f"] == "json":
                    save(model, d, "m", SerializationFormat.JSON)
                elif s["f"] == "model":
                    model.save(d, "own.pt")
                else:
                    dicts["d"] = serialize(model)
            elif op == "load":
                f = s["f"]
                model = load(os.path.join(d, "m.pt")) if f == "pt" else load(os.path.join(d, "m.json")) if f == "json" else \
                    type(model).load(os.path.join(d, "own.pt"), as_torch=True) if f == "model" else deserialize(dicts["d"])
                check_store(None)
            elif op == "loadparams":
                model.load_params_from_dict(torch.load(os.path.join(d, "own.pt"), weights_only=False))
                check_store(None)
            elif op == "copy":
                old, model = model, copy.deepcopy(model)
                if old.vparams:
                    old.reset_vparams([0.12345] * old.num_vparams)
            elif op == "other":
                other = QuantumModel(QuantumCircuit(n, b), obs)
                other.reset_vparams([s["st"][k] * unit(k) for k in other.vparams])
                other.expectation(value_of())
            else:
                raise ValueError(op)
        hist.append("end")
        check_store(c["store"])
        check("expectation", c["final"])
    return cnt + 1


def stored_program(c):
    """Blocks and circuits through dictionaries, JSON text and files."""
    import json
    import os
    import tempfile

    from qadence import deserialize, load, save, serialize
    from qadence.types import SerializationFormat

    n, batch, i = c["n"], c["batch"], c.get("i", 0)
    B = len(batch)
    vals = feature_values(batch, names(c["block"]))
    b = build(c["block"], Params(batch[0]))
    tag_all(b)
    want = np.stack([matrix(m) for m in c["cols"]])
    full = tuple(range(n))

    def same(what, r):
        expect_eq(f"matrix of the block restored from {what}", expand(tnp(block_to_tensor(r, vals, qubit_support=full)), B), want)
        if shape(r) != shape(b):
            raise Mismatch(f"structure or tags restored from {what}: {shape(r)} instead of {shape(b)}")
        if not (r == b):
            raise Mismatch(f"the block restored from {what} is not equal to the original")
        got = {p.name: (p.trainable, float(p.value)) for p in _free(r)}
        exp = {p.name: (p.trainable, float(p.value)) for p in _free(b)}
        if got != exp:
            raise Mismatch(f"parameters restored from {what}: {got} instead of {exp}")

    same("a dictionary", deserialize(serialize(b)))
    regs = [Register(n), Register.line(n, spacing=3.0), Register.circle(n, spacing=2.5), Register.from_coordinates([(k * 1.5, float(k % 2)) for k in range(n)])]
    reg = regs[i % len(regs)]
    qc = QuantumCircuit(reg, b)
    cnt = 2
    with tempfile.TemporaryDirectory() as d:
        mode = i % 3
        if mode == 0:
            q2 = deserialize(serialize(qc))
        elif mode == 1:
            save(qc, d, "c", SerializationFormat.JSON)
            q2 = load(os.path.join(d, "c.json"))
        else:
            save(qc, d, "c", SerializationFormat.PT)
            q2 = load(os.path.join(d, "c.pt"))
        if i % 2:
            save(b, d, "b", SerializationFormat.JSON if i % 4 == 1 else SerializationFormat.PT)
            same("a file", load(os.path.join(d, "b.json" if i % 4 == 1 else "b.pt")))
    same("a circuit", q2.block)
    if q2.register != reg or q2.register.coords != reg.coords:
        raise Mismatch(f"register restored: {q2.register.coords} instead of {reg.coords}")
    if not (q2 == qc):
        raise Mismatch("the restored circuit is not equal to the original")
    psi = generic_state(n, i)
    expect_eq("run of the restored circuit", expand(tnp(qd.run(q2, values=vals, state=torch.tensor(psi)[None])), B), want @ psi)
    return cnt + 3


def _free(b):
    from qadence.blocks.utils import parameters

    return {p for p in parameters(b) if not p.is_number and hasattr(p, "trainable")}
