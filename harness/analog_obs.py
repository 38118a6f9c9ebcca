"""Analog programs: evolutions under the interaction, drives and addressing patterns of a device."""
from __future__ import annotations

from observers import *
from register_obs import rat
from scipy.linalg import expm, expm_frechet

from qadence.analog import AddressingPattern, RydbergDevice
from qadence.types import Interaction

# physical constants of the documentation: C6 (rad um^6 / us) per Rydberg level, C3
C6 = {50: 96120.72, 55: 304495.01, 60: 865723.02, 70: 5420158.53}
C3 = 3700.0
M1 = {"X": np.array([[0, 1], [1, 0]], complex), "Y": np.array([[0, -1j], [1j, 0]]), "N": np.diag([0, 1]).astype(complex), "Z": np.diag([1, -1]).astype(complex)}


def word_matrix(w, n):
    fac = {q: M1[p] for p, q in w}
    out = np.eye(1, dtype=complex)
    for q in range(n):
        out = np.kron(out, fac.get(q, np.eye(2)))
    return out


def strength(dev, r2):
    d2 = r2[0] / r2[1]
    return C6[dev["lvl"]] / d2 ** 3 if dev["int"] == "NN" else C3 / d2 ** 1.5


def ham(terms, dev, n):
    h = np.zeros((2 ** n, 2 ** n), complex)
    for t in terms:
        c = t["c"]
        v = c["n"] / c["d"] * np.pi ** c["pi"] * scal(c["s"]).real
        if c["r2"][0]:
            v *= strength(dev, c["r2"])
        h += v * word_matrix(t["w"], n)
    return h


def evolve(c, j, psi):
    """The state after the program for batch element j and its derivatives in x and a."""
    n, dev = c["n"], c["dev"]
    d = {"x": np.zeros_like(psi), "a": np.zeros_like(psi)}
    exact = True
    for b in c["segs"][j]:
        s = b["s"]
        if b["g"]:
            U = matrix(s["cols"])
            psi, d = U @ psi, {k: U @ v for k, v in d.items()}
            continue
        h, t = ham(s["h"], dev, n), s["t"]["n"] / s["t"]["d"]
        U = expm(-1j * h * t)
        dU = {k: (-1j * h @ U) * (s["d" + k] / np.pi) for k in ("x", "a")}
        if s["hx"]:
            dU["x"] = dU["x"] + expm_frechet(-1j * h * t, -1j * ham(s["hx"], dev, n) * t, compute_expm=False)
        d = {k: U @ d[k] + dU[k] @ psi for k in d}
        psi = U @ psi
    return psi, d


def support(b):
    return "global" if not b["sup"] else tuple(b["sup"])


def block(b, P):
    t = b["t"]
    if t == "kron":
        bs = [block(x, P) for x in b["b"]]
        return kron(*bs)
    if t == "dig":
        return build(b["b"], P)
    kw = {"qubit_support": support(b)}
    if not b["pat"]:
        kw["add_pattern"] = False
    if t == "wait":
        return ops.AnalogInteraction(b["du"], **kw)
    if t == "rot":
        om = P.get(b["omp"]) if b["omp"] else b["om"] / 2
        return ops.AnalogRot(duration=b["du"], omega=om, delta=b["de"] / 2, phase=b["ph"] * U, **kw)
    return getattr(ops, "Analog" + t.upper())(P.expr(b["e"]), **kw)


def names_of(prog):
    out = set()
    for b in prog:
        if b["t"] == "dig":
            out |= names(b["b"])
        elif b["t"] == "kron":
            out |= names_of(b["b"])
        else:
            out |= {v for k, v in zip(b["e"][1:], ANG) if k} | ({b["omp"]} if b["omp"] else set())
    return out


def device(c):
    d, n = c["dev"], c["n"]
    p = d["pat"]
    pat = None
    if p["on"]:
        pat = AddressingPattern(n_qubits=n, weights_amp={q: p["wa"][q] / 4 for q in range(n)}, weights_det={q: p["wd"][q] / 4 for q in range(n)}, amp=p["amp"] / 2, det=p["det"] / 2)
    return RydbergDevice(interaction=Interaction.NN if d["int"] == "NN" else Interaction.XY, rydberg_level=d["lvl"], pattern=pat)


def analog(c):
    from qadence.analog import add_background_hamiltonian

    n, i, B = c["n"], c.get("i", 0), len(c["batch"])
    P = Params(c["batch"][0])
    dev = device(c)
    h = np.sqrt(c["m"])
    pts = [(x / 2, y * h / 2) for x, y in c["pts"]]
    reg = Register.from_coordinates(pts, spacing=rat(c["sp"]), device_specs=dev)
    blocks = [block(b, P) for b in c["prog"]]
    b = blocks[0] if len(blocks) == 1 else chain(*blocks)
    circ = QuantumCircuit(reg, b)
    used = names_of(c["prog"])
    vals = feature_values(c["batch"], used)
    psi0 = np.zeros(2 ** n, complex)
    psi0[0] = 1
    if i % 2:
        psi0 = generic_state(n, i)
    st = torch.tensor(psi0)[None] if i % 2 else None
    res = [evolve(c, j, psi0) for j in range(B)]
    want = np.stack([r[0] for r in res])
    cnt = 1
    if i % 3 == 0:
        out = qd.run(circ, values=vals, state=st)
    elif i % 3 == 1:
        out = qd.run(reg, b, values=vals, state=st)
    else:
        out = QuantumModel(circ).run(vals, state=st)
    expect_eq("state of an analog program", expand(tnp(out), B), want, 1e-5)
    # the digital counterpart of the program
    circ2 = add_background_hamiltonian(circ)
    expect_eq("state of the program with the background Hamiltonian", expand(tnp(qd.run(circ2, values=vals, state=st)), B), want, 1e-5)
    # expectation values and derivatives
    q = i % n
    obs = [ops.Z(q), add(*(ops.X(k) for k in range(n)))] if n > 1 else [ops.Z(0), ops.X(0)]
    mats = [word_matrix([["Z", q]], n), sum(word_matrix([["X", k]], n) for k in range(n))]
    ev = np.array([[(v.conj() @ m @ v).real for m in mats] for v in want])
    model = QuantumModel(circ, obs, diff_mode="ad")
    leaf = {k: v.clone().requires_grad_(True) for k, v in vals.items()}
    got = model.expectation(leaf, state=st)
    expect_eq("expectation of an analog program", expand(tnp(got), B), ev, 1e-5)
    cnt += 2
    plain = not any(b["t"] == "dig" and "x" in names(b["b"]) for b in c["prog"])
    if plain and got.requires_grad and "x" in leaf and leaf["x"].shape[0] == got.shape[0]:
        for k, m in enumerate(mats):
            g = torch.autograd.grad(got[:, k].sum(), leaf["x"], retain_graph=True, allow_unused=True)[0]
            w = np.array([2 * (v.conj() @ m @ d["x"]).real for v, d in res])
            expect_eq("derivative of an analog program", tnp(g if g is not None else torch.zeros_like(leaf["x"])), w, 1e-4)
            cnt += 1
    if i % 4 == 0:
        torch.manual_seed(i)
        from sample_obs import check_counts

        cs = qd.sample(circ, values=vals, n_shots=800, state=st)
        cnt += check_counts("sample of an analog program", cs, np.clip(np.abs(want) ** 2, 0, 1), 800, n)
    return cnt
