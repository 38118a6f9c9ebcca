"""Digital and digital-analog forms of evolutions: the real code against MCDigital and MCDaqc."""
from __future__ import annotations

from scipy.linalg import expm

from qast import *
from observers import expand, expect_eq, feature_values, generic_state, tnp
from runtime import Mismatch

from qadence import QuantumCircuit, Register, block_to_tensor, daqc_transform
from qadence.blocks.utils import primitive_blocks
from qadence.transpile import digitalize
from qadence.parameters import Parameter
from qadence.types import LTSOrder


IGNORED = "the order of the approximation is ignored"


def finding(case, status, what):
    return "order-ignored" if IGNORED in what else None


def durations(c):
    return [U * (c["t"][0] + sum(k * v[a] for k, a in zip(c["t"][1:], ANG))) for v in c["batch"]]


def total_norms(c):
    return [x / 4 for x in c["norms"]]


def exact_program(c):
    """The program with the exact evolution (exponential of the specified generator)."""
    out = []
    for g, p, u in zip(c["gens"], c["progs"], durations(c)):
        e, q = expm(-1j * u * matrix(g)), matrix(p)
        out.append(e @ q if c["at"] == "after" else q @ e if c["at"] == "before" else e @ q @ e)
    return np.stack(out)


def session(c):
    return daqc(c) if c.get("kind") == "daqc" else digital(c)


def program(c, P, sep):
    t = P.expr(c["t"])
    evo = lambda: ops.HamEvo(build(c["gen"], P), t)
    e, p = evo(), build(c["prog"], P)
    if c["at"] == "after":
        return chain(p, e)
    if c["at"] == "before":
        return chain(chain(e), p)
    return chain(e, chain(p, evo() if sep else e))


def deep_names(b):
    return [str(getattr(x.name, "value", x.name)) for x in primitive_blocks(b)]


def digital(c):
    n, i, batch = c["n"], c["i"], c["batch"]
    B = len(batch)
    used = names(c["gen"]) | names(c["prog"]) | {a for k, a in zip(c["t"][1:], ANG) if k}
    vals = feature_values(batch, used)
    P = Params(batch[0])
    b = program(c, P, i % 2)
    order = LTSOrder[c["order"]]
    before = str(b)
    if i % 2:
        d = digitalize(b, order)
    else:
        reg = Register.line(n)
        circ = digitalize(QuantumCircuit(reg, b), order)
        if circ.register != reg:
            raise Mismatch("digitalize lost the register")
        d = circ.block
    if str(b) != before:
        raise Mismatch("digitalize changed the program it was given")
    left = [x for x in deep_names(d) if x in ("HamEvo", "U")]
    if left:
        raise Mismatch(f"digitalize left {left}")
    want = np.stack([matrix(m) for m in c["cols"]])
    qs = tuple(range(n))
    psi = generic_state(n, 3)
    cnt = 0
    if c["commute"]:
        expect_eq("matrix of the evolution", expand(tnp(block_to_tensor(b, vals, qubit_support=qs)), B), want)
        cnt += 1
    if c["order"] != "BASIC" and c["at"] == "after" and c["terms"] <= (4 if c["order"] == "ST2" else 2):
        cnt += formula(c, P, order, vals, B)
    # where the terms do not commute, the first-order product is the result for BASIC; the other orders are not honoured (known finding)
    if c["commute"] or c["ordered"]:
        got = expand(tnp(block_to_tensor(d, vals, qubit_support=qs)), B)
        known = None
        if not c["commute"] and c["order"] != "BASIC":
            lim = max(0.01 * (L * abs(u)) ** 3 + 1e-6 for L, u in zip(total_norms(c), durations(c)))
            if lim > 0.3:
                return cnt
            if np.abs(got - exact_program(c)).max() <= lim:
                return cnt + 1
            known = True
        expect_eq(f"matrix of the digital form ({c['order']})", got, want)
        expect_eq(f"run of the digital form ({c['order']})", expand(tnp(qd.run(n, d, values=vals, state=torch.tensor(psi)[None])), B), want @ psi)
        cnt += 2
        if known:
            raise Mismatch(f"{IGNORED}: {c['order']} gives the first-order product")
    return cnt


def formula(c, P, order, vals, B):
    """The product formula itself, as a list of gates."""
    try:
        from qadence.decompose import lie_trotter_suzuki
    except ImportError:
        return 0
    lim = max(0.01 * (L * abs(u)) ** 3 + 1e-6 for L, u in zip(total_norms(c), durations(c)))
    if (c["order"] == "ST4" and c["i"] % 4) or (lim > 0.3 and not c["commute"]):
        return 0
    gs = lie_trotter_suzuki(build(c["gen"], P), P.expr(c["t"]) if any(c["t"][1:]) else Parameter(P.expr(c["t"])), order)
    got = expand(tnp(block_to_tensor(chain(*gs), vals, qubit_support=tuple(range(c["n"])))), B)
    want = np.stack([expm(-1j * u * matrix(g)) for g, u in zip(c["gens"], durations(c))])
    if np.abs(got - want).max() > (1e-6 if c["commute"] else lim):
        raise Mismatch(f"the {c['order']} formula deviates by {np.abs(got - want).max():.3g} from the evolution")
    return 1


# ------------------------------------------------- DAQC
def interactions(n, ty, rows, i, default=False):
    op = ops.Z if ty == "ZZ" else ops.N
    terms = []
    for a in range(n):
        for b in range(a + 1, n):
            g = rows[a][b]
            if g:
                w = kron(op(b), op(a)) if (a + b + i) % 3 == 0 else kron(op(a), op(b))
                if (a + b + i) % 4 == 1:
                    terms += [0.5 * g * w, (0.5 * g) * w]  # a pair may be coupled by several terms
                elif (a + b + i) % 4 == 2:
                    terms.append(2 * (0.5 * g * w))
                else:
                    terms.append(w if g == 1 else g * w)
    if i % 2:
        terms = terms[::-1]
    return terms[0] if len(terms) == 1 else add(*terms)


def daqc(c):
    n, i, t = c["n"], c["i"], c["t"] * U
    target = interactions(n, c["tt"], c["target"], i)
    device = None if c["dt"] == "default" else interactions(n, c["dt"], c["device"], i // 3)
    free = i % 3 == 0
    kw = dict(n_qubits=n, gen_target=target, t_f=t, ignore_global_phases=free)
    if device is not None:
        kw["gen_build"] = device
    if n == 4 or not c["reachable"]:
        try:
            daqc_transform(**kw)
        except (NotImplementedError if n == 4 else ValueError):
            return 1
        raise Mismatch("a transform that does not exist was returned")
    b = daqc_transform(**kw)
    want = np.exp(1j * U * np.array(c["phases"], dtype=float))
    qs = tuple(range(n))
    got = tnp(block_to_tensor(b, qubit_support=qs))[0]
    ran = tnp(qd.run(n, b, state=torch.tensor(generic_state(n, 5))[None]))[0]
    ref = want * generic_state(n, 5)
    if free:
        ph = got[0, 0] / want[0]
        if abs(abs(ph) - 1) > 1e-4:
            raise Mismatch("the transform is not a multiple of the evolution")
        want, ref = want * ph, ref * ph
    expect_eq("matrix of the digital-analog program", got, np.diag(want), 1e-4)
    expect_eq("run of the digital-analog program", ran, ref, 1e-4)
    # interactions come from the device only
    for e in primitive_blocks(b):
        if isinstance(e, ops.HamEvo) and any(len(x.qubit_support) > 1 for x in [e.generator]) and couples(e.generator):
            if device is not None and not e.generator == device:
                raise Mismatch("the program uses interactions that the device does not have")
    return 3


def couples(g):
    """Whether a diagonal generator couples qubits (is not a sum of functions of single qubits)."""
    m = tnp(block_to_tensor(g))[0].diagonal().real
    k = int(np.log2(len(m)))
    for a in range(k):
        for b in range(a):
            x, y = 1 << a, 1 << b
            if abs(m[x | y] - m[x] - m[y] + m[0]) > 1e-9:
                return True
    return False
