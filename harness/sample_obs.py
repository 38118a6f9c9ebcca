"""Sampling and the JAX back end."""
from __future__ import annotations

from observers import *


def probabilities(rows):
    return np.array([[scal(x).real for x in r] for r in rows])


def deviates(count, shots, p):
    """True when a binomial count is too far off: the Chernoff bound of the event is below exp(-28)."""
    f = count / shots
    if p <= 1e-12:
        return count > 0
    if p >= 1 - 1e-12:
        return count < shots
    kl = (f * np.log(f / p) if f > 0 else 0.0) + ((1 - f) * np.log((1 - f) / (1 - p)) if f < 1 else 0.0)
    return shots * kl > 28


def check_counts(what, counters, probs, shots, n, rev=None):
    if len(counters) == 1 and len(probs) > 1:
        if np.abs(probs - probs[0]).max() > 1e-9:
            raise Mismatch(f"{what}: one sample for a batch of {len(probs)}")
        probs = probs[:1]
    if len(counters) != len(probs):
        raise Mismatch(f"{what}: {len(counters)} samples for a batch of {len(probs)}")
    for j, (cnt, p) in enumerate(zip(counters, probs)):
        if any(len(k) != n or set(k) - {"0", "1"} for k in cnt):
            raise Mismatch(f"{what}: bit strings {list(cnt)[:4]} for {n} qubits")
        if sum(cnt.values()) != shots or any(v <= 0 for v in cnt.values()):
            raise Mismatch(f"{what}: {sum(cnt.values())} shots instead of {shots}")
        for k in range(2 ** n):
            s = format(k, f"0{n}b")
            want = p[rev[k]] if rev is not None else p[k]
            if deviates(cnt.get(s, 0), shots, want):
                raise Mismatch(f"{what}: {s} was drawn {cnt.get(s, 0)} times in {shots} shots, its probability is {want:.4f} (batch element {j})")
        # the marginal of every qubit, which has more power than single strings
        for q in range(n):
            one = sum(v for s, v in cnt.items() if s[q] == "1")
            want = sum((p[rev[k]] if rev is not None else p[k]) for k in range(2 ** n) if (k >> (n - 1 - q)) & 1)
            if deviates(one, shots, min(1.0, max(0.0, want))):
                raise Mismatch(f"{what}: qubit {q} was 1 in {one} of {shots} shots, its probability is {want:.4f}")
    return len(probs)


HORQ = {"I", "X", "Y", "Z", "H", "CNOT", "CZ", "SWAP", "RX", "RY", "RZ", "CRX", "CRY", "CRZ", "MCRX", "MCRY", "MCRZ", "MCZ", "HamEvo"}


def sampling(c):
    n, batch, i = c["n"], c["batch"], c.get("i", 0)
    B = len(batch)
    vals = feature_values(batch, names(c["block"]))
    b = build(c["block"], Params(batch[0]))
    probs = probabilities(c["probs"])
    rev = c["rev"]
    torch.manual_seed(1000 + i)
    shots = (1500, 400, 3000, 1, 12347, 777, 70001)[i % 7]
    few = min(shots, 3000)
    cnt = check_counts("sample", qd.sample(n, b, values=vals, n_shots=1500), probs, 1500, n)
    mode = i % 8
    if mode == 0:
        cnt += check_counts("sample of a circuit in little-endian order", qd.sample(QuantumCircuit(n, b), values=vals, n_shots=shots, endianness=Endianness.LITTLE), probs, shots, n, rev)
    elif mode == 1:
        model = QuantumModel(QuantumCircuit(n, b))
        cnt += check_counts("sample of a model", model.sample(vals, n_shots=shots), probs, shots, n)
        model.run(vals)
        cnt += check_counts("second sample of a model", model.sample(vals, n_shots=2000, endianness=Endianness.LITTLE), probs, 2000, n, rev)
    elif mode == 2:
        psi = generic_state(n, i)
        want = np.stack([np.abs(matrix(m) @ psi) ** 2 for m in c["cols"]])
        cnt += check_counts("sample from a given state", qd.sample(Register(n), b, values=vals, n_shots=shots, state=torch.tensor(psi)[None]), want, shots, n)
    elif mode == 3:
        model, order = qnn({**c, "obs": []}, b, qd.Z(0), i)
        x = table(vals, order) if order else {}
        cnt += check_counts("sample of a QNN", model.sample(x, n_shots=shots), probs, shots, n)
        expect_eq("run of a QNN", expand(tnp(model.run(x)), B), np.stack([vec(s) for s in c["states"]]))
    elif mode == 4:
        m = max(b.qubit_support) + 1
        want = probs.reshape(B, 2 ** m, -1).sum(2)
        cnt += check_counts("sample of the bare block", qd.sample(b, values=vals, n_shots=shots), want, shots, m)
    elif mode == 5:
        wf = qd.run(n, b, values=vals)
        from qadence.transpile import invert_endianness

        cs = qd.sample(n, b, values=vals, n_shots=shots)
        cnt += check_counts("mirrored sample", invert_endianness(cs), probs, shots, n, rev)
        expect_eq("mirrored state", expand(tnp(invert_endianness(wf)), B), np.stack([vec(s)[rev] for s in c["states"]]))
    elif mode == 6 and all(g["g"] in HORQ for g in gates(c["block"])):
        import jax.numpy as jnp
        from qadence.backends import backend_factory

        bk = backend_factory("horqrux", "ad")
        conv = bk.convert(QuantumCircuit(n, b))
        for j in range(B):
            emb = conv.embedding_fn(conv.params, {k: jnp.array(v[j:j + 1].numpy()) for k, v in vals.items()})
            cnt += check_counts("horqrux sample", bk.sample(conv.circuit, emb, n_shots=few), probs[j:j + 1], few, n)
            cnt += check_counts("horqrux little-endian sample", bk.sample(conv.circuit, emb, n_shots=few, endianness=Endianness.LITTLE), probs[j:j + 1], few, n, rev)
    elif mode == 7:
        cnt += check_counts("sample with fused gates", qd.sample(n, b, values=vals, n_shots=shots, configuration={"use_single_qubit_composition": True}), probs, shots, n)
        big = [qd.sample(n, b, values=vals, n_shots=1) for _ in range(3)]
        for x in big:
            cnt += check_counts("single shot", x, probs, 1, n)
    return cnt


# ------------------------------------------------------------------ the JAX back end
def jax_backend(c):
    import jax
    import jax.numpy as jnp
    from qadence.backends import backend_factory

    n, i = c["n"], c.get("i", 0)
    P, b, obs, vals = setup(c)
    B = len(c["batch"])
    want = herm_vals(c)
    bk = backend_factory("horqrux", "ad")
    circ = QuantumCircuit(n, b)
    conv = bk.convert(circ, obs)
    jv = {k: jnp.array(v.numpy()) for k, v in vals.items()}
    cnt = 0
    # states, one element of the batch at a time
    for j in range(B):
        emb = conv.embedding_fn(conv.params, {k: v[j:j + 1] for k, v in jv.items()})
        w = vec(c["states"][j])
        expect_eq("horqrux run", np.asarray(bk.run(conv.circuit, emb)).reshape(-1), w)
        if i % 3 == 0:
            expect_eq("horqrux little-endian run", np.asarray(bk.run(conv.circuit, emb, endianness=Endianness.LITTLE)).reshape(-1), w[bitrev(n)])
        if i % 3 == 1:
            psi = generic_state(n, i)
            expect_eq("horqrux run on a given state", np.asarray(bk.run(conv.circuit, emb, state=jnp.array(psi)[None])).reshape(-1), matrix(c["ccols"][j]) @ psi)
        cnt += 1
    # expectation values of the batch
    emb = conv.embedding_fn(conv.params, jv)
    if emb:
        got = np.asarray(bk.expectation(conv.circuit, conv.observable, emb))
        expect_eq("horqrux expectation", expand(got.reshape(-1, len(obs)), B), want)
        cnt += 1
    # gradients
    used = union_names(c)
    feats = {k: v for k, v in jv.items()}
    tr = {k: v for k, v in conv.params.items() if k in VARIATIONAL}
    if set(tr) != used & set(VARIATIONAL):
        raise Mismatch(f"trainable parameters {sorted(tr)} of the program {sorted(used)}")
    if emb and (feats or tr):
        for o in range(len(obs)):
            def f(fe, pa, j):
                e = conv.embedding_fn({**conv.params, **pa}, {k: v[j:j + 1] for k, v in fe.items()})
                return jnp.reshape(bk.expectation(conv.circuit, conv.observable, e), (-1,))[o].real.astype(float)

            for j in range(B):
                gf, gp = jax.grad(f, (0, 1))(feats, tr, j)
                for k, pair in enumerate(c["pairs"]):
                    for nm, fld in ((pair[0], "p"), (pair[1], "q")):
                        w = gradient(c, j, o, k, fld)
                        if nm in gf:
                            expect_eq(f"horqrux derivative in {nm}", np.asarray(gf[nm])[j].reshape(-1), np.array([w]), 1e-4)
                            cnt += 1
                        elif nm in gp:
                            expect_eq(f"horqrux derivative in {nm}", np.asarray(gp[nm]).reshape(-1), np.array([w]), 1e-4)
                            cnt += 1
    return cnt
