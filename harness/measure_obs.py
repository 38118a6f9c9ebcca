"""Measurement protocols: Pauli decompositions, tomography, classical shadows, expectation values of counts."""
from __future__ import annotations

from collections import Counter

from observers import *

from qadence.measurements import Measurements

RISK = 28.0  # a correct estimator deviates further with probability below exp(-28) (times a small constant)


def word_block(letters, order):
    fac = [getattr(ops, p)(q) for q, p in enumerate(letters) if p != "I"]
    if order % 2:
        fac = fac[::-1]
    if not fac:
        return ops.I(0)
    if len(fac) == 1:
        return fac[0]
    if len(fac) == 3 and order % 3 == 1:
        return kron(kron(fac[0], fac[1]), fac[2])
    if len(fac) == 3 and order % 3 == 2:
        return kron(fac[0], kron(fac[1], fac[2]))
    return kron(*fac)


def bound(coefs, means, shots):
    """Deviation which the sum of independent or dependent averages of +-1 variables does not exceed (Bernstein, per word)."""
    t = 0.0
    for c, m in zip(coefs, means):
        v = max(0.0, 1 - m * m) / shots
        if v < 1e-12:
            continue
        b = 2.0 / shots
        t += abs(c) * (np.sqrt(2 * v * RISK) + 2 * b * RISK / 3)
    return t


def measurement(c):
    from qadence.blocks.manipulate import from_openfermion, to_openfermion
    from qadence.measurements.samples import compute_expectation as from_samples

    n, i = c["n"], c.get("i", 0)
    B = len(c["batch"])
    D = 2 ** n
    P, b, obs, _ = setup(c)
    vals = feature_values(c["batch"], names(c["block"]))
    want = herm_vals(c)
    cnt = 0
    np.random.seed(7 + i)
    torch.manual_seed(7 + i)
    mats = [sum(scal(t["c"]).real * np.array(kmat(c["words"][t["w"]])) for t in dc) if dc else np.zeros((D, D)) for dc in c["dec"]]

    # the operator in terms of Pauli words, exactly
    for k, (o, dc) in enumerate(zip(obs, c["dec"])):
        terms = {w: z for w, z in to_openfermion(o).terms.items() if abs(z) > 1e-9}
        exact = {tuple((q, p) for q, p in enumerate(c["words"][t["w"]]) if p != "I"): scal(t["c"]).real for t in dc}
        if set(terms) != set(exact) or any(abs(terms[w] - exact[w]) > 1e-9 for w in exact):
            raise Mismatch(f"openfermion terms {terms} instead of {exact}")
        back = from_openfermion(to_openfermion(o)) if terms else None
        if back is not None:
            expect_eq("operator converted to openfermion and back", tnp(block_to_tensor(back, {}, qubit_support=tuple(range(n))))[0], mats[k])
        cnt += 1

    # expectation values of given counts
    probs = np.array([[scal(x).real for x in r] for r in c["probs"]])
    units = probs * 2 ** 12
    if np.abs(units - np.round(units)).max() < 1e-6:
        counts = [Counter({format(j, f"0{n}b"): int(round(x)) for j, x in sorted(enumerate(r), reverse=bool(i % 2)) if round(x)}) for r in units]
        for k, o in enumerate(obs):
            if c["diag"][k] and o._is_diag_pauli and not o.is_identity:
                got = from_samples([o], counts)[0]
                expect_eq("expectation value of counts", tnp(got), want[:, k])
                cnt += 1
        zs = [k for k, o in enumerate(obs) if c["diag"][k] and o._is_diag_pauli and not o.is_identity]
        if zs:
            got = np.stack([tnp(x) for x in from_samples([obs[k] for k in zs], counts)], 1)
            expect_eq("expectation values of counts", got, want[:, zs])

    # a stabilised observable: no fluctuations whatsoever
    det = None
    if c["det"]:
        parts = [scal(d["s"]).real * word_block(c["words"][d["w"]], i) for d in c["det"]]
        det = parts[0] if len(parts) == 1 else add(*parts)
        dvals = np.array([scal(v).real for v in c["detvals"]])[:, None]

    def call(protocol, options, os_, st=None):
        meas = Measurements(protocol, options)
        if i % 5 == 2:
            meas = Measurements._from_dict(meas._to_dict())
        r = (i // 2) % 4
        kw = {} if st is None else {"state": st}
        if r == 0:
            return qd.expectation(n, b, os_, values=vals, measurement=meas, diff_mode="ad", **kw)
        if r == 1:
            return QuantumModel(QuantumCircuit(n, b), os_, measurement=meas).expectation(vals, **kw)
        if r == 2:
            return QuantumModel(QuantumCircuit(n, b), os_).expectation(vals, measurement=meas, **kw)
        return qd.expectation(QuantumCircuit(n, b), os_, values=vals, measurement=meas, diff_mode="ad",
                              endianness=(Endianness.LITTLE, Endianness.BIG)[i % 2], **kw)

    shots = (1000, 4000, 250)[i % 3]
    got = expand(tnp(call("tomography", {"n_shots": shots}, obs)), B)
    if got.shape != want.shape:
        raise Mismatch(f"tomography: {got.shape} estimates instead of {want.shape}")
    for j in range(B):
        for k in range(len(obs)):
            cf = [scal(t["c"]).real for t in c["dec"][k]]
            ms = [scal(m).real for m in c["means"][j][k]]
            t = bound(cf, ms, shots)
            if abs(got[j, k] - want[j, k]) > t + 1e-6:
                raise Mismatch(f"tomography with {shots} shots: {got[j, k]:.4f} for an observable of value {want[j, k]:.4f} (a right estimate lies within {t:.4f})")
            cnt += 1
    if det is not None:
        got = expand(tnp(call("tomography", {"n_shots": 3}, [det])), B)
        expect_eq("tomography of a stabilised observable", got, dvals)
        cnt += 1
        if i % 2 == 0:
            # the state is given and the circuit does nothing
            psi = torch.tensor(np.stack([vec(s) for s in c["states"]]))
            m = QuantumModel(QuantumCircuit(n, kron(*(ops.I(q) for q in range(n)))), [det, det], measurement=Measurements("tomography", {"n_shots": 2}))
            got = expand(tnp(m.expectation({}, state=psi)), B)
            expect_eq("tomography of a given state", got, np.repeat(dvals, 2, 1))
            cnt += 1
        if i % 6 == 1:
            # words of at most two letters: each is hit in every one of the groups with certainty up to (8/9)^N/K
            sz = 600
            got = expand(tnp(call("shadow", {"shadow_size": sz, "accuracy": 0.3, "confidence": 0.4}, [det])), B)
            expect_eq("classical shadow of a stabilised observable", got, dvals)
            cnt += 1
    return cnt


PM = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}


def kmat(letters):
    out = np.eye(1)
    for p in letters:
        out = np.kron(out, PM[p])
    return out
