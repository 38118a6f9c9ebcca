"""Constructors of circuits and Hamiltonians: the real code against MCConstruct."""
from __future__ import annotations

import networkx as nx
import sympy
from scipy.linalg import expm

from qast import *
from observers import expand, expect_eq, tnp
from runtime import Mismatch

from qadence import QuantumCircuit, QuantumModel, Register, block_to_tensor
from qadence import constructors as con
from qadence.constructors import ala, exp_fourier_feature_map, feature_map, hamiltonian_factory, hea, iia, qft, rydberg_hea, rydberg_hea_layer
from qadence.types import BasisSet, Interaction, ReuploadScaling, Strategy

PI = np.pi


def session(c):
    return {"ansatz": ansatz, "fm": fm, "expfm": expfm, "ham": ham, "ryd": ryd, "qft": fourier, "big": big}[c["kind"]](c)


def model_of(n, block, pars):
    """A model with its variational parameters set by name; the names have to be exactly these."""
    m = QuantumModel(QuantumCircuit(n, block))
    names = list(m.vparams)
    if set(names) != set(pars):
        raise Mismatch(f"trainable parameters {sorted(names)} instead of {sorted(pars)}")
    if names:
        m.reset_vparams([np.float64(pars[k]) for k in names])
    return m


def operator(n, m, values):
    """The operator of a model, from its run on every basis state."""
    return tnp(m.run(values=values, state=torch.eye(2 ** n, dtype=torch.cdouble))).T


def check_program(n, block, pars, want, values=None):
    m = model_of(n, block, pars)
    expect_eq("operator of the circuit", operator(n, m, values or {}), want)
    psi = generic_state(n, 11)
    expect_eq("run from a state", tnp(m.run(values=values or {}, state=torch.tensor(psi)[None]))[0], want @ psi)
    return 2


# ------------------------------------------------------------------ ansaetze
def graph_generator(kind, n):
    if kind == "NN":
        return hamiltonian_factory(n, interaction=Interaction.NN)
    if kind == "ZZ":
        return add(*[(1 + a) * kron(ops.Z(a), ops.Z(b)) for a in range(n) for b in range(a + 1, n)])
    return add(*[(q + 1) * ops.Z(q) for q in range(n)])


def parameter_name(prefix, p):
    f, l, i = p["f"], p["l"], p["i"]
    return {
        "rot": f"{prefix}_{i}", "ent": f"{prefix}_ent_{i}", "t": f"{prefix}_t_{i}", "tent": f"{prefix}_ent_t_{i}",
        "alpha": f"{prefix}_α_{l}{i}", "beta": f"{prefix}_β_{l}{i}", "gamma": f"{prefix}_γ_{l}{i}", "eta": f"{prefix}_θ_ent__{l}{i}", "train": f"{prefix}_{i}",
    }[f]


def ansatz(c):
    a, n, i = c["c"], c["n"], c["i"]
    prefix = ("theta", "p", "iia")[i % 3]
    kw = {}
    if a["kind"] == "iia":
        fn, kw["rotations"] = iia, [getattr(ops, o) for o in a["ops"]]
    else:
        fn, kw["operations"], kw["support"] = (hea if a["kind"] == "hea" else ala), [getattr(ops, o) for o in a["ops"]], tuple(a["sup"])
    if a["kind"] == "ala":
        kw["m_block_qubits"] = a["m"]
    elif a["strat"] == "digital":
        kw["periodic"] = a["per"]
    kw["strategy"] = Strategy.SDAQC if a["strat"] == "sdaqc" else Strategy.DIGITAL
    if a["strat"] == "sdaqc":
        if not (a["ent"] == "NN" and i % 2):  # the default
            kw["entangler"] = graph_generator(a["ent"], a["n"])
    elif not (a["ent"] == "CNOT" and i % 2):
        kw["entangler"] = getattr(ops, a["ent"])
    if i % 5 == 0 and a["kind"] != "iia" and list(a["sup"]) == list(range(a["n"])):
        kw.pop("support")
    b = fn(n_qubits=a["n"], depth=a["depth"], param_prefix=prefix, **kw)
    cnt = 0
    if a["kind"] == "iia":
        m = QuantumModel(QuantumCircuit(n, b))
        expect_eq("initial operator of the identity-initialised ansatz", operator(n, m, {}), np.eye(2 ** n))
        cnt += 1
    names = {}
    for p in c["out"]["pars"]:
        name = parameter_name(prefix, p)
        if a["kind"] == "ala" and p["f"] == "ent":
            name = f"{prefix}_ent_ent_{p['i']}"
        names[name] = p["v"] * U
    return cnt + check_program(n, b, names, matrix(c["out"]["block"]))


# -------------------------------------------------------------- feature maps
BASES = {"FOURIER": BasisSet.FOURIER, "CHEBYSHEV": BasisSet.CHEBYSHEV, "lin2": lambda e: 2 * e + sympy.pi / 2, "neg": lambda e: -e}
SCALINGS = {"CONSTANT": ReuploadScaling.CONSTANT, "TOWER": ReuploadScaling.TOWER, "EXP": ReuploadScaling.EXP, "alt": lambda i: (-1) ** i, "lin": lambda i: 3 * i + 1}


def fm_ranges(f):
    """The ranges given to the constructor and the map from the specified feature to the value passed."""
    (a, b), (r, s) = f["fr"], f["tr"]
    if f["basis"] == "CHEBYSHEV":
        if f["how"] == "default":
            return {}, lambda k: np.cos(k * U)
        return dict(feature_range=(float(a), float(b)), target_range=(float(r), float(s))), lambda k: a + (np.cos(k * U) - r) * (b - a) / (s - r)
    if f["how"] == "default":
        return {}, lambda x: x * U
    return dict(feature_range=(a * U, b * U), target_range=(r * U, s * U)), lambda x: x * U


def fm(c):
    f, n, i = c["c"], c["n"], c["i"]
    sup = tuple(f["sup"])
    kw, value = fm_ranges(f)
    pars = {}
    name = ("phi", "x", "data")[i % 3]
    param = name if f["pk"] == "name" else (FeatureParameter if f["pk"] == "feature" else VariationalParameter)(name)
    if f["mult"] != 1 or i % 2:
        if f["mname"] == "num":
            kw["multiplier"] = f["mult"]
        elif f["mname"] == "name":
            kw["multiplier"] = "mult"
            pars["mult"] = float(f["mult"])
        else:
            kw["multiplier"] = 2 * VariationalParameter("mult") + 1
            pars["mult"] = (f["mult"] - 1) / 2
    if f["train"]:
        kw["param_prefix"] = "w"
        pars.update({parameter_name("w", p): float(p["v"]) for p in c["out"]["pars"]})
    if i % 4 == 0 and sup == tuple(range(len(sup))):
        b = feature_map(len(sup), param=param, op=getattr(ops, f["op"]), fm_type=BASES[f["basis"]], reupload_scaling=SCALINGS[f["rs"]], **kw)
    else:
        basis, rs = BASES[f["basis"]], SCALINGS[f["rs"]]
        if i % 4 == 1 and f["basis"] in ("FOURIER", "CHEBYSHEV"):
            basis = basis.value
        b = feature_map(len(sup), support=sup, param=param, op=getattr(ops, f["op"]), fm_type=basis, reupload_scaling=rs, **kw)
    ms = [matrix(m) for m in (c["out"]["block"], c["out"]["e"][0])]
    xs = [value(f["x"]), value(f["y"])]
    m = model_of(n, b, pars)
    if [str(s) for s in m.inputs] != [name]:
        raise Mismatch(f"the feature parameters are {m.inputs}")
    for x, want in zip(xs, ms):
        expect_eq("operator of the feature map", operator(n, m, {name: torch.tensor([x], dtype=torch.float64)}), want)
    psi = generic_state(n, 11)
    got = tnp(m.run(values={name: torch.tensor(xs, dtype=torch.float64)}, state=torch.tensor(psi)[None]))
    expect_eq("run on a batch of features", expand(got, 2), np.stack([w @ psi for w in ms]))
    return 3


def expfm(c):
    f, n = c["c"], c["n"]
    kw = {} if f["fr"] == [0, 0] else {"feature_range": tuple(float(v) for v in f["fr"])}
    b = exp_fourier_feature_map(len(f["sup"]), support=tuple(f["sup"]), param="x", **kw)
    return check_program(n, b, {}, matrix(c["out"]["block"]), {"x": torch.tensor([float(f["x"])], dtype=torch.float64)})


# -------------------------------------------------------------- Hamiltonians
def custom(a, b):
    return kron(ops.X(a), ops.Z(b)) - 2 * ops.Y(b)


def ising(a, b):
    r = kron(ops.Z(a), ops.Z(b))
    if a == 0:
        return r + ops.Z(b)
    return r + ops.Z(0) if a == 1 and b == 2 else r


INTER = {"custom": custom, "ising": ising}


def register_of(g, n, i):
    if g["t"] == "all":
        return n if i % 2 else Register(n)
    if g["t"] == "line":
        return Register.line(n)
    G = nx.Graph()
    G.add_nodes_from(range(n))
    es = [tuple(e) for e in g["e"]]
    G.add_edges_from(es[i % len(es):] + es[:i % len(es)])
    return Register(G)


def strengths(how, keys, value, name):
    """The argument for the strengths, and the parameters it introduces."""
    if how == "none":
        return {}, {}
    vals = [value(k) / 2 for k in keys]
    if how == "name":
        return {"s": name}, {f"{name}_" + "".join(map(str, k)): v for k, v in zip(keys, vals)}
    return {"s": {"list": list, "numpy": lambda v: np.array(v), "tensor": lambda v: torch.tensor(v, dtype=torch.float64)}[how](vals)}, {}


def hmatrix(n, b, pars):
    return tnp(block_to_tensor(b, {k: torch.tensor([v], dtype=torch.float64) for k, v in pars.items()}, qubit_support=tuple(range(n))))[0]


def ham(c):
    h, n, i = c["c"], c["n"], c["i"]
    rec, want = c["out"]["e"][0], matrix(c["out"]["block"])
    reg = register_of(h["g"], n, i)
    R = Register(reg) if isinstance(reg, int) else reg
    iw = {frozenset(e["p"]): e["v"] for e in rec["iw"]}
    edges = [tuple(e) for e in (R.all_node_pairs if h["all"] else R.edges)]
    if {frozenset(e) for e in edges} != set(iw):
        raise Mismatch(f"edges of the register: {edges}")
    ds, dp = strengths(h["dh"] if h["det"] else "none", [(q,) for q in range(n)], lambda k: rec["dw"][k[0]], "d")
    es, ep = strengths(h["ih"] if h["int"] else "none", edges, lambda e: iw[frozenset(e)], "g")
    kw = {}
    if h["det"]:
        kw["detuning"] = getattr(ops, h["det"])
    if h["int"]:
        kw["interaction"] = INTER[h["int"]] if h["int"] in INTER else Interaction[h["int"]] if i % 2 else h["int"]
    if ds:
        kw["detuning_strength"] = ds["s"]
    if es:
        kw["interaction_strength"] = es["s"]
    if h["all"]:
        kw["use_all_node_pairs"] = True
    # custom interactions that are not symmetric follow the orientation of the edges
    oriented = all(tuple(sorted(e)) == e for e in edges)
    if h["int"] in INTER and not oriented:
        return 0
    b = hamiltonian_factory(reg, **kw)
    pars = {**dp, **ep}
    expect_eq("matrix of the Hamiltonian", hmatrix(n, b, pars), want)
    cnt = 1
    psi = generic_state(n, 7)
    ref = np.real(psi.conj() @ want @ psi)
    m = QuantumModel(QuantumCircuit(n, kron(*[ops.I(q) for q in range(n)])), b)
    if set(m.vparams) != set(pars):
        raise Mismatch(f"trainable parameters {sorted(m.vparams)} instead of {sorted(pars)}")
    if pars:
        m.reset_vparams([np.float64(pars[k]) for k in m.vparams])
    expect_eq("expectation of the Hamiltonian", np.real(tnp(m.expectation(values={}, state=torch.tensor(psi)[None]))).reshape(-1)[0], ref)
    cnt += 1
    if h["g"]["t"] == "all":
        cnt += wrappers(h, n, rec, kw, pars, want)
    if i % 3 == 0:
        cnt += random_strengths(h, n, reg, kw)
    return cnt


def wrappers(h, n, rec, kw, pars, want):
    """total_magnetization, zz_hamiltonian and ising_hamiltonian are Hamiltonians of the same kind."""
    dst = kw.get("detuning_strength")
    if h["det"] == "Z" and not h["int"]:
        b = con.total_magnetization(n, dst) if dst is not None else con.total_magnetization(n)
        expect_eq("total_magnetization", hmatrix(n, b, pars), want)
        return 1
    if h["int"] == "ZZ" and h["det"] == "Z" and h["ih"] != "name":
        zz = None
        if h["ih"] != "none":
            zz = np.full((n, n), 99.0)
            for e in rec["iw"]:
                zz[e["p"][0], e["p"][1]] = e["v"] / 2
        expect_eq("zz_hamiltonian", hmatrix(n, con.zz_hamiltonian(n, z_terms=dst, zz_terms=zz), pars), want)
        xs = np.arange(1.0, n + 1)
        X = sum((q + 1) * np.kron(np.kron(np.eye(2 ** q), [[0, 1], [1, 0]]), np.eye(2 ** (n - 1 - q))) for q in range(n))
        expect_eq("ising_hamiltonian", hmatrix(n, con.ising_hamiltonian(n, x_terms=xs, z_terms=dst, zz_terms=zz), pars), want + X)
        return 2
    return 0


def random_strengths(h, n, reg, kw):
    """Random strengths: every term has its own, between -1 and 1."""
    kw = {k: v for k, v in kw.items() if not k.endswith("strength")}
    torch.manual_seed(5)
    m = hmatrix(n, hamiltonian_factory(reg, random_strength=True, **kw), {})
    one = {k: v for k, v in kw.items()}
    R = Register(reg) if isinstance(reg, int) else reg
    edges = [tuple(e) for e in (R.all_node_pairs if h["all"] else R.edges)]
    terms = []
    if h["det"]:
        terms += [hmatrix(n, getattr(ops, h["det"])(q), {}) for q in range(n)]
    if h["int"] and h["int"] not in INTER:
        words = {"ZZ": ["ZZ"], "NN": ["NN"], "XY": ["XX", "YY"], "XYZ": ["XX", "YY", "ZZ"]}[h["int"]]
        terms += [sum(hmatrix(n, kron(getattr(ops, w[0])(a), getattr(ops, w[1])(b)), {}) for w in words) for a, b in edges]
    if h["int"] in INTER or not terms:
        return 0
    A = np.stack([t.reshape(-1) for t in terms], axis=1)
    if np.linalg.matrix_rank(A) < len(terms):
        return 0
    s, *_ = np.linalg.lstsq(A, m.reshape(-1), rcond=None)
    if np.abs(A @ s - m.reshape(-1)).max() > 1e-8:
        raise Mismatch("random strengths: other terms than the chosen ones")
    if np.abs(s.imag).max() > 1e-8 or np.abs(s.real).max() > 1 + 1e-9:
        raise Mismatch(f"random strengths outside [-1, 1]: {s}")
    if len(s) > 1 and len(set(np.round(s.real, 9))) != len(s):
        raise Mismatch("random strengths are shared between terms")
    return 1


# ------------------------------------------------------------------- Rydberg
def ryd(c):
    r, n, i = c["c"], c["n"], c["i"]
    drive, inter, det = (matrix(m) for m in c["out"]["e"][:3])
    times, dw, ew = c["out"]["e"][3:]
    g = dict(r["g"])
    reg = register_of(g, n, 0)
    reg = Register(reg) if isinstance(reg, int) else reg
    phase = r["phase"] * U
    pars = {}
    want = np.eye(2 ** n)
    pulse = lambda l: expm(-1j * det * times[l][2] / 4) @ expm(-1j * inter * times[l][1] / 4) @ expm(-1j * drive * times[l][0] / 4)
    if r["layers"] == 0:
        kw = {}
        if r["phase"] >= 0:
            kw["phase"] = VariationalParameter("ph") if i % 2 else phase
            if i % 2:
                pars["ph"] = phase
        for key, how, w, p in (("drives", r["dr"], dw, "a"), ("detunings", r["de"], ew, "d")):
            if how in ("list", "short"):
                w = w[:-1] if how == "short" else w
                if i % 3 == 0:
                    kw[key] = [VariationalParameter(f"{p}{q}") for q in range(len(w))]
                    pars.update({f"{p}{q}": v / 2 for q, v in enumerate(w)})
                else:
                    kw[key] = [v / 2 for v in w]
        ts = [t / 4 for t in times[0]]
        if i % 4 == 1:
            names = ["ta", "tw", "td"]
            pars.update(dict(zip(names, ts)))
            ts = [VariationalParameter(s) for s in names]
        b = rydberg_hea_layer(reg, ts[0], ts[2], ts[1], drive_scaling=float(r["sc"]), **kw)
        want = pulse(0)
    else:
        pre = None if i % 2 else "q"
        b = rydberg_hea(reg, n_layers=r["layers"], addressable_detuning=r["de"] == "var", addressable_drive=r["dr"] == "var", tunable_phase=r["phase"] >= 0, additional_prefix=pre)
        pre = "" if pre is None else "_" + pre
        for l in range(r["layers"]):
            pars.update({f"At{pre}_{l}": times[l][0] / 4, f"wait{pre}_{l}": times[l][1] / 4, f"Omega{pre}_{l}": times[l][2] / 4})
            want = pulse(l) @ want
        if r["de"] == "var":
            pars.update({f"detmap_{q}": v / 2 for q, v in enumerate(ew)})
        if r["dr"] == "var":
            pars.update({f"drivemap_{q}": v / 2 for q, v in enumerate(dw)})
        if r["phase"] >= 0:
            pars["phase"] = phase
    return check_program(n, b, pars, want)


# -------------------------------------------------------- Fourier transform
def fourier(c):
    f, n, i = c["c"], c["n"], c["i"]
    E = np.array(c["out"]["e"])
    want = np.where(E < 0, 0, np.exp(2j * PI * E / 2 ** f["n"]) / R2 ** f["n"])
    kw = dict(inverse=f["inv"], reverse_in=f["rev"], swaps_out=f["swaps"])
    if f["strat"] == "sdaqc":
        kw["strategy"] = Strategy.SDAQC
        if f["gen"] != "default":
            op = ops.Z if f["gen"] == "ZZ" else ops.N
            kw["gen_build"] = add(*[(1 + (a + 2 * b + f["sd"]) % 3) * kron(op(a), op(b)) for a in range(n) for b in range(a + 1, n)])
    if f["sup"] != list(range(f["n"])) or i % 2:
        kw["support"] = tuple(f["sup"])
    m = QuantumModel(QuantumCircuit(n, qft(f["n"], **kw)))
    tol = 1e-4 if f["strat"] == "sdaqc" else 1e-6
    expect_eq("operator of the transform", operator(n, m, {}), want, tol)
    psi = generic_state(n, 11)
    expect_eq("transform of a state", tnp(m.run(values={}, state=torch.tensor(psi)[None]))[0], want @ psi, tol)
    return 2


# ------------------------------------------------- names in large ansaetze
def big(c):
    a = c["c"]
    kw = dict(n_qubits=a["n"], depth=a["depth"], entangler=getattr(ops, a["ent"]))
    rot = [getattr(ops, o) for o in a["ops"]]
    b = iia(rotations=rot, **kw) if a["kind"] == "iia" else hea(operations=rot, **kw)
    got = len(QuantumModel(QuantumCircuit(a["n"], b)).vparams)
    if got != c["out"]["e"][0]:
        raise Mismatch(f"{got} trainable parameters instead of {c['out']['e'][0]}")
    return 1


def known(case, status, what):
    if case["kind"] == "big":
        number, labels = case["out"]["e"]
        if labels < number and what.endswith(f"{labels} trainable parameters instead of {number}"):
            return "iia-names-merge"
    return None
