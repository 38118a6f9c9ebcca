"""States, density matrices, labels and overlaps: the real code against MCState and MCBasis."""
from __future__ import annotations

from collections import Counter

from qast import *
from observers import bitrev, expand, expect_eq, tnp
from runtime import Mismatch

from qadence import QuantumCircuit, run
from qadence import states as qs
from qadence.overlap import Overlap, overlap_jensen_shannon
from qadence.types import Endianness, OverlapMethod, ResultType
from qadence.utils import basis_to_int, int_to_basis, nqubits_to_basis, samples_to_integers


def dm(d):
    return np.array([[amp(x) for x in r] for r in d["m"]]) / R2 ** d["k"]


def batch_of(states):
    return torch.tensor(np.stack(states), dtype=torch.cdouble)


def entropy_of(ps):
    ps = [p for p in ps if p > 1e-12]
    return -sum(p * np.log2(p) for p in ps)


def two_level(pur):
    """The eigenvalues of a state of rank at most two with the given purity."""
    r = np.sqrt(max(2 * pur - 1, 0.0))
    return (1 + r) / 2, (1 - r) / 2


def need(cond, what):
    if not cond:
        raise Mismatch(what)


def state_session(c):
    n, keep, B, wt = c["n"], list(c["keep"]), len(c["batch"]), c["wt"]
    us, vs = [vec(v) for v in c["us"]], [vec(v) for v in c["vs"]]
    U_, V_ = batch_of(us), batch_of(vs)
    cnt = 0
    # overlaps of states
    ov = np.array([[scal(x).real for x in r] for r in c["ov"]])
    expect_eq("overlap", tnp(qs.overlap(U_, V_)), np.diag(ov))
    expect_eq("overlap with a phase", tnp(qs.overlap(1j * U_, V_)), np.diag(ov))
    for i in range(B):
        same = abs(ov[i, i] - 1) < 1e-9
        need(bool(qs.equivalent_state(U_[i:i + 1], -1j * V_[i:i + 1], atol=1e-9)) == same, f"equivalent_state is {not same} for states of overlap {ov[i, i]}")
    need(qs.is_normalized(U_, atol=1e-9), "is_normalized rejects normalized states")
    need(not qs.is_normalized(U_ * 1.001, atol=1e-9), "is_normalized accepts states of larger norm")
    bad = U_.clone()
    bad[B - 1] *= 0.5
    need(not qs.is_normalized(bad, atol=1e-9), "is_normalized accepts a batch with one state that is not")
    scale = torch.arange(2, B + 2, dtype=torch.float64)[:, None]
    expect_eq("normalize", tnp(qs.normalize(U_ * scale)), np.stack(us))
    expect_eq("normalize of one state", tnp(qs.normalize(U_[0] * (2 - 1j))), us[0] * (2 - 1j) / np.sqrt(5))
    expect_eq("pmf", tnp(qs.pmf(U_).probs), np.abs(np.stack(us)) ** 2)
    cnt += 8
    # density matrices and their reductions
    du, dv = qs.density_mat(U_), qs.density_mat(V_)
    expect_eq("density matrix", tnp(du), np.stack([np.outer(u, u.conj()) for u in us]))
    need(qs.density_mat(du) is du or np.allclose(tnp(qs.density_mat(du)), tnp(du)), "density_mat changes a density matrix")
    ru, rv = qs.partial_trace(du, keep), qs.partial_trace(dv, keep)
    wu, wv, wm = (np.stack([dm(d) for d in c[k]]) for k in ("ru", "rv", "mx"))
    expect_eq(f"partial trace on {keep}", tnp(ru), wu)
    expect_eq(f"partial trace on {keep}", tnp(rv), wv)
    mixed = qs.DensityMatrix((wt * ru + (4 - wt) * rv) / 4)
    expect_eq("mixture", tnp(mixed), wm)
    whole = qs.DensityMatrix((wt * du + (4 - wt) * dv) / 4)
    expect_eq(f"partial trace of a mixture on {keep}", tnp(qs.partial_trace(whole, keep)), wm)
    pur = np.array([[scal(x).real for x in r] for r in c["pur"]])
    for j, r in enumerate((ru, rv, mixed)):
        expect_eq("purity", tnp(qs.purity(r)), pur[:, j])
    p3 = np.array([scal(x).real for x in c["pur3"]])
    expect_eq("purity of order 3", tnp(qs.purity(mixed, 3)), p3)
    expect_eq("purity of order 1", tnp(qs.purity(mixed, 1)), np.ones(B))
    expect_eq("purity of a pure state", tnp(qs.purity(du)), np.ones(B))
    cnt += 10
    # entropies where the spectrum follows from the specified quantities
    d = np.diag(ov)
    w1 = wt / 4
    full = np.array([entropy_of([(1 + s) / 2, (1 - s) / 2]) for s in np.sqrt(np.maximum(1 - 4 * w1 * (1 - w1) * (1 - d), 0))])
    expect_eq("entropy of a mixture of two pure states", tnp(qs.von_neumann_entropy(whole)), full, 1e-5)
    expect_eq("entropy of a pure state", tnp(qs.von_neumann_entropy(du)), np.zeros(B), 1e-5)
    if len(keep) == 1:
        for j, r in enumerate((ru, rv, mixed)):
            expect_eq("entropy of one qubit", tnp(qs.von_neumann_entropy(r)), np.array([entropy_of(two_level(p)) for p in pur[:, j]]), 1e-5)
        rest = [q for q in range(n) if q not in keep]
        if rest:
            expect_eq("entropy of the other qubits", tnp(qs.von_neumann_entropy(qs.partial_trace(du, rest))), np.array([entropy_of(two_level(p)) for p in pur[:, 0]]), 1e-5)
    # fidelities
    expect_eq("fidelity of pure states", tnp(qs.fidelity(du, dv)), np.sqrt(d), 1e-5)
    expect_eq("fidelity of a state with itself", tnp(qs.fidelity(mixed, mixed)), np.ones(B), 1e-5)
    pm = np.sqrt([scal(x).real for x in c["pm"]])
    expect_eq("fidelity of a mixture with a pure state", tnp(qs.fidelity(whole, du)), pm, 1e-5)
    expect_eq("fidelity of a pure state with a mixture", tnp(qs.fidelity(du, whole)), pm, 1e-5)
    if len(keep) == 1:
        det = np.array([[scal(x).real for x in r] for r in c["det"]])
        trc = np.array([[scal(x).real for x in r] for r in c["trc"]])
        f1 = np.sqrt(np.maximum(trc[:, 0] + 2 * np.sqrt(np.maximum(det[:, 0] * det[:, 1], 0)), 0))
        f2 = np.sqrt(np.maximum(trc[:, 1] + 2 * np.sqrt(np.maximum(det[:, 0] * det[:, 2], 0)), 0))
        expect_eq("fidelity of one-qubit states", tnp(qs.fidelity(ru, rv)), f1, 1e-4)
        expect_eq("fidelity of one-qubit states", tnp(qs.fidelity(mixed, ru)), f2, 1e-4)
        cnt += 3
    # a program started in a density matrix evolves it
    if c.get("i", 0) % 3 == 0 and B == 1 and all(g["g"] != "HamEvo" for g in gates(c["bra"])):
        P = Params(c["batch"][0])
        blk = build(c["bra"], P)
        out = run(n, blk, values=feature_values(c["batch"], names(c["bra"])), state=qs.density_mat(qs.zero_state(n)))
        expect_eq("run from a density matrix", tnp(out), np.stack([np.outer(u, u.conj()) for u in us]))
        cnt += 1
    return cnt + 6


def prob(v):
    return {format(i, f"0{int(np.log2(len(v)))}b"): float(abs(x) ** 2) for i, x in enumerate(v) if abs(x) > 1e-9}


def jsd(p, q):
    def h(d):
        return -sum(x * np.log(x) for x in d.values() if x > 0)

    m = {k: (p.get(k, 0) + q.get(k, 0)) / 2 for k in set(p) | set(q)}
    return h(m) - (h(p) + h(q)) / 2


def overlap_session(c):
    n, batch, i0 = c["n"], c["batch"], c.get("i", 0)
    B = len(batch)
    us, vs = [vec(v) for v in c["us"]], [vec(v) for v in c["vs"]]
    nb, nk = names(c["bra"]), names(c["ket"])
    bra, ket = (lambda: QuantumCircuit(n, build(c["bra"], Params(batch[0])))), (lambda: QuantumCircuit(n, build(c["ket"], Params(batch[0]))))
    vb, vk = feature_values(batch, nb), feature_values(batch, nk)
    ov = np.array([[scal(x).real for x in r] for r in c["ov"]])
    js = np.array([[1 - jsd(prob(us[i]), prob(vs[j])) for j in range(B)] for i in range(B)])

    def shaped(m):
        if set(vb) & set(vk):
            return np.diag(m)[:, None]    # a shared parameter has the same value on both sides
        if vb and vk:
            return m                      # every bra with every ket
        return m[:, :1] if vb else m[:1, :].T if vk else m[:1, :1]

    cnt = 0
    for m in (OverlapMethod.EXACT, OverlapMethod.COMPUTE_UNCOMPUTE, OverlapMethod.SWAP_TEST, OverlapMethod.HADAMARD_TEST):
        o = Overlap(bra(), ket(), method=m)
        got = tnp(o(vb, vk))
        expect_eq(f"overlap by {m}", got, shaped(ov), 1e-5)
        cnt += 1
    # estimates from shots
    m, shots = [(OverlapMethod.COMPUTE_UNCOMPUTE, 20000), (OverlapMethod.SWAP_TEST, 20000), (OverlapMethod.HADAMARD_TEST, 20000), (OverlapMethod.JENSEN_SHANNON, 50000)][i0 % 4]
    torch.manual_seed(77 + i0)
    got = tnp(Overlap(bra(), ket(), method=m)(vb, vk, n_shots=shots))
    eps = 3.2 / np.sqrt(shots)
    tol = {OverlapMethod.COMPUTE_UNCOMPUTE: eps, OverlapMethod.SWAP_TEST: 2 * eps, OverlapMethod.HADAMARD_TEST: 6 * eps + 8 * eps * eps, OverlapMethod.JENSEN_SHANNON: 0.03}[m]
    want = shaped(js if m == OverlapMethod.JENSEN_SHANNON else ov)
    if got.shape != want.shape or np.abs(got - want).max() > tol:
        raise Mismatch(f"overlap by {m} from {shots} shots: {got.tolist()} instead of {want.tolist()}")
    # the divergence itself, on exact distributions
    got = tnp(overlap_jensen_shannon([Counter(prob(u)) for u in us], [Counter(prob(v)) for v in vs]))
    expect_eq("Jensen-Shannon overlap", got, np.diag(js), 1e-5)
    scaled = [Counter({k: 64 * x for k, x in prob(u).items()}) for u in us]
    expect_eq("Jensen-Shannon overlap of counts", tnp(overlap_jensen_shannon(scaled, [Counter(prob(v)) for v in vs])), np.diag(js), 1e-5)
    return cnt + 3


def basis_session(c):
    n, k, bits_ = c["n"], c["k"], "".join(map(str, c["bits"]))
    big, little = Endianness.BIG, Endianness.LITTLE
    cnt = 0
    need(basis_to_int(bits_) == k and basis_to_int(bits_, little) == c["little"], f"basis_to_int({bits_})")
    need(int_to_basis(k, n) == bits_ and int_to_basis(c["little"], n, little) == bits_, f"int_to_basis({k}, {n})")
    if k:
        need(int_to_basis(k) == bits_.lstrip("0"), f"int_to_basis({k}) without a length")
    need(samples_to_integers(Counter({bits_: 3})) == Counter({k: 3}), "samples_to_integers")
    need(samples_to_integers(Counter({bits_: 3}), little) == Counter({c["little"]: 3}), "samples_to_integers, little endian")
    need(nqubits_to_basis(n)[k] == bits_ and nqubits_to_basis(n, ResultType.STRING, little)[k] == bits_[::-1], "nqubits_to_basis")
    for rt in (ResultType.TORCH, ResultType.NUMPY):
        for e, w in ((big, c["bits"]), (little, c["bits"][::-1])):
            need([int(x) for x in nqubits_to_basis(n, rt, e)[k]] == w, f"nqubits_to_basis as {rt}")
    w = vec(c["prod"])
    lw = w[bitrev(n)]
    for bk in ("pyqtorch", "horqrux"):
        expect_eq(f"product_state on {bk}", np.asarray(qs.product_state(bits_, backend=bk)).reshape(-1), w)
        expect_eq(f"little-endian product_state on {bk}", np.asarray(qs.product_state(bits_, backend=bk, endianness=little)).reshape(-1), lw)
    other = "1" * n
    expect_eq("product_state of a list", tnp(qs.product_state([bits_, other, bits_])), np.stack([w, vec(c["one"]), w]))
    expect_eq("product_block", tnp(run(n, qs.product_block(bits_)))[0], w)
    for f, key in ((qs.zero_state, "zero"), (qs.one_state, "one"), (qs.uniform_state, "uniform"), (qs.ghz_state, "ghz")):
        v = vec(c[key])
        for b in (1, 2 + k % 2):
            expect_eq(f"{f.__name__}({n}, {b})", tnp(f(n, b)), np.stack([v] * b), 1e-10)
        need(qs.is_normalized(f(n, 2)), f"{f.__name__}({n}) is not normalized")
        expect_eq(f"{key}_block({n})", tnp(run(n, getattr(qs, key + "_block")(n)))[0], v)
        cnt += 4
    s = tnp(qs.rand_product_state(n, 3))
    need(s.shape == (3, 2 ** n) and np.all(np.sort(np.abs(s), 1)[:, -1] == 1) and np.all(np.sum(np.abs(s), 1) == 1), "rand_product_state is not a product state of basis states")
    s = np.abs(tnp(run(n, qs.rand_product_block(n))))
    need(abs(s.max() - 1) < 1e-9 and abs(s.sum() - 1) < 1e-9, "rand_product_block does not prepare a basis state")
    need(len(qs.rand_bitstring(n)) == n and set(qs.rand_bitstring(n)) <= {"0", "1"}, "rand_bitstring")
    for t in ("HaarMeasureFast", "HaarMeasureSlow", "RandomRotations"):
        for b in (1, 3):
            s = qs.random_state(n, b, type=t)
            need(tuple(s.shape) == (b, 2 ** n) and qs.is_normalized(s, atol=1e-9), f"random_state({n}, {b}, {t})")
            need(b == 1 or n == 1 or not np.allclose(tnp(s)[0], tnp(s)[1]), f"random_state repeats one state in a batch ({t})")
    return cnt + 25


def session(c):
    if "bits" in c:
        return basis_session(c)
    return overlap_session(c) if c["kind"] == "overlap" else state_session(c)
