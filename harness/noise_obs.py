"""Noisy programs: density matrices, expectation values, samples, faulty readout, mitigation."""
from __future__ import annotations

from observers import *
from sample_obs import check_counts, probabilities

from qadence.noise import NoiseHandler
from qadence.types import NoiseProtocol

PROTO = {"BitFlip": "BITFLIP", "PhaseFlip": "PHASEFLIP", "Depolarizing": "DEPOLARIZING", "PauliChannel": "PAULI_CHANNEL",
         "AmplitudeDamping": "AMPLITUDE_DAMPING", "PhaseDamping": "PHASE_DAMPING", "GeneralizedAmplitudeDamping": "GENERALIZED_AMPLITUDE_DAMPING"}
METHOD = {"BitFlip": "bitflip", "PhaseFlip": "phaseflip", "Depolarizing": "digital_depolarizing", "PauliChannel": "pauli_channel",
          "AmplitudeDamping": "amplitude_damping", "PhaseDamping": "phase_damping", "GeneralizedAmplitudeDamping": "generalized_amplitude_damping"}


def probability(ch):
    p = tuple(x / 2 ** ch["d"] for x in ch["p"])
    return p if len(p) > 1 else p[0]


def options(ch):
    return {"error_probability": probability(ch)}


def handler(chs, readout=None, style=0):
    """A noise handler for the channels in order, built in one of the documented ways."""
    protos = [getattr(NoiseProtocol.DIGITAL, PROTO[c["c"]]) for c in chs]
    opts = [options(c) for c in chs]
    if readout is not None:
        protos, opts = protos + [readout[0]], opts + [readout[1]]
    if not protos:
        return None
    if style % 3 == 0 or len(protos) == 1:
        return NoiseHandler(protos[0], opts[0]) if len(protos) == 1 else NoiseHandler(protos, opts)
    if style % 3 == 1:
        h = NoiseHandler(protos[0], opts[0])
        h.append([NoiseHandler(p, o) for p, o in zip(protos[1:], opts[1:])])
        return h
    h = NoiseHandler(protos[0], opts[0])
    for k, (p, o) in enumerate(zip(protos[1:], opts[1:]), 1):
        if k < len(chs):
            h = getattr(h, METHOD[chs[k]["c"]])(o)
        else:
            h = h.readout_independent(o) if p == NoiseProtocol.READOUT.INDEPENDENT else h.readout_correlated(o)
    return h


def readout_of(c):
    kind = c["cfg"]["ro"]
    if kind == "independent":
        return NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": torch.tensor(c["conf"], dtype=torch.float64) / 8}
    if kind == "correlated":
        return NoiseProtocol.READOUT.CORRELATED, {"confusion_matrix": torch.tensor(c["corr"], dtype=torch.float64) / 8}
    return None


def noisy(b, P, it, style=0):
    """Build a block whose gates carry the channel lists drawn from `it` in leaf order."""
    if b["t"] == "gate":
        g, cs, q = b["g"], tuple(b["c"]), tuple(b["q"])
        e = [P.expr(x) for x in b["e"]]
        h = handler(next(it), style=style)
        kw = {} if h is None else {"noise": h}
        if g in ("MCZ", "Toffoli", "MCRX", "MCRY", "MCRZ", "MCPHASE"):
            return getattr(ops, g)(cs, q[0], *e, **kw)
        if g == "SDagger" and style % 2:
            return ops.S(q[0], **kw).dagger()
        return getattr(ops, g)(*cs, *q, *e, **kw)
    kids = [noisy(k, P, it, style) for k in b["b"]]
    return (chain if b["t"] == "chain" else kron)(*kids)


def program(c):
    """The session's block after its transformation; True when the transformation mirrors the qubits."""
    from qadence import serialization as ser
    from qadence.transpile import flatten, invert_endianness, set_noise

    cfg, i = c["cfg"], c.get("i", 0)
    P = Params(c["batch"][0])
    b = noisy(c["block"], P, iter(c["ns"]), i)
    if cfg["r"] == "set":
        cls = None if cfg["cls"] == "all" else getattr(ops, cfg["cls"])
        h = handler(cfg["hs"], style=i)
        if i % 2:
            circ = QuantumCircuit(c["n"], b)
            set_noise(circ, h, target_class=cls)
            b = circ.block
        else:
            set_noise(b, h, cls)
    tr = cfg["tr"]
    mirrored = False
    if tr == "flatten":
        b = flatten(b)
    elif tr == "serial":
        b = ser.deserialize(ser.serialize(b))
    elif tr == "invert":
        b, mirrored = invert_endianness(b, c["n"], False), True
    elif tr == "dagger":
        b = b.dagger()
    elif tr == "copy":
        b = b.__copy__() if hasattr(b, "__copy__") else __import__("copy").deepcopy(b)
    return P, b, mirrored


def density(res, n):
    """The density matrices of a run's result, whether it is pure or not."""
    a = tnp(res)
    if type(res).__name__ == "DensityMatrix" or a.ndim == 3:
        return a
    return np.einsum("bi,bj->bij", a, a.conj())


def noise_session(c):
    n, i, cfg = c["n"], c.get("i", 0), c["cfg"]
    D = 2 ** n
    B = len(c["batch"])
    want = np.stack([vec(r).reshape(D, D) for r in c["rho"]])
    vals = herm_vals(c)
    probs = probabilities(c["probs"])
    rev = np.array(c["rev"])
    psi = vec(c["psi"])
    zero = abs(psi[0]) > 0.999
    used = union_names(c)
    fv = feature_values(c["batch"], names(c["block"]))
    fo = feature_values(c["batch"], used)
    st = None if zero and i % 2 else torch.tensor(psi)[None]

    def fresh():
        P, b, mirrored = program(c)
        return P, b, [build(o, P) for o in c["obs"]]

    _, _, mirrored = program(c)
    wr, wp = want, probs
    if mirrored:
        wr = want[:, rev][:, :, rev]
        # the readout faults sit on the qubits, they are only combined with unmirrored programs
        wp = probs[:, rev]
        st = torch.tensor(psi[rev])[None]
    h = None
    route = cfg["r"]
    if route in ("call", "config", "model"):
        h = handler(cfg["hs"], readout_of(c), i)
    conf = {"noise": h} if route == "config" else None
    cnt = 0

    def circuit():
        _, b, _ = fresh()
        circ = QuantumCircuit(n, b)
        if cfg["tr"] == "modelserial":
            from qadence import serialization as ser

            circ = ser.deserialize(ser.serialize(circ))
        return circ

    # the density matrix
    kw = {"configuration": conf} if conf else {}
    if route in ("gate", "set", "config"):
        _, b, _ = fresh()
        out = qd.run(n, b, values=fv, state=st, **kw)
        expect_eq("density matrix", expand(density(out, n), B), wr)
        _, b, _ = fresh()
        out = qd.run(QuantumCircuit(n, b), values=fv, state=st, endianness=Endianness.LITTLE, **kw)
        expect_eq("little-endian density matrix", expand(density(out, n), B), wr[:, rev][:, :, rev])
        model = QuantumModel(circuit(), configuration=conf)
        out = model.run(fv, state=st)
        expect_eq("density matrix of a model", expand(density(out, n), B), wr)
        expect_eq("density matrix of a model, second run", expand(density(model(fv, state=st), n), B), wr)
        cnt += 4
    # expectation values
    if not mirrored:
        P, b, obs = fresh()
        m = cfg["m"]
        if route == "model":
            model = QuantumModel(QuantumCircuit(n, b), obs, noise=h)
            for _ in range(2):
                expect_eq("expectation of a model with noise", expand(tnp(model.expectation(fo, state=st)), B), vals)
        elif m in (0, 1):
            got = qd.expectation(n, b, obs, values=fo, state=st, **({"noise": h} if route == "call" else {}), **kw)
            expect_eq("noisy expectation", expand(tnp(got), B), vals)
        elif m == 2 and route == "call":
            model = QuantumModel(QuantumCircuit(n, b), obs)
            expect_eq("model expectation with noise", expand(tnp(model.expectation(fo, state=st, noise=h)), B), vals)
        elif m in (2, 3):
            model = QuantumModel(QuantumCircuit(n, b), obs, configuration=conf)
            expect_eq("model expectation", expand(tnp(model.expectation(fo, state=st, **({"noise": h} if route == "call" else {}))), B), vals)
        else:
            mode = ("ad", "gpsr")[m % 2]
            got = qd.expectation(QuantumCircuit(n, b), obs, values=fo, state=st, diff_mode=mode, **({"noise": h} if route == "call" else {}), **kw)
            expect_eq(f"noisy expectation ({mode})", expand(tnp(got), B), vals)
        cnt += 1
        # derivatives
        if c["grads"] and names(c["block"]) and not (union_names({**c, "block": c["obs"][0]}) and names(c["obs"][0])):
            for mode in ("ad", "gpsr"):
                P, b, obs = fresh()
                model = QuantumModel(QuantumCircuit(n, b), obs[0], diff_mode=mode, configuration=conf, noise=h if route in ("call", "model") else None)
                leaf = {k: v.clone().requires_grad_(True) for k, v in fv.items()}
                ev = model.expectation(leaf, state=st)
                if not ev.requires_grad:
                    continue
                tr = {k: v for k, v in model.named_parameters() if v.requires_grad}
                ins = {**leaf, **{k.split(".")[-1]: v for k, v in tr.items()}}
                gs = torch.autograd.grad(ev.sum(), list(ins.values()), allow_unused=True)
                for (nm, t), g in zip(ins.items(), gs):
                    if nm not in ANG:
                        continue
                    w = np.array([scal(r[nm]).real for r in c["grads"]])
                    if g is None:
                        g = torch.zeros_like(t)
                    if nm in FEATURES:
                        if len(w) > 1 or g.shape[0] == 1:
                            expect_eq(f"derivative in {nm} of a noisy expectation ({mode})", tnp(g).reshape(-1), w, 1e-5)
                    else:
                        if ev.shape[0] == len(w):
                            expect_eq(f"derivative in {nm} of a noisy expectation ({mode})", tnp(g).reshape(-1), np.array([w.sum()]), 1e-5)
                    cnt += 1
    # samples
    if cfg["ro"] == "none" or not mirrored:
        torch.manual_seed(500 + i)
        shots = 1200
        end = (Endianness.BIG, Endianness.LITTLE)[i % 2]
        rv = list(rev) if end == Endianness.LITTLE else None
        P, b, _ = fresh()
        try:
            if route == "call":
                cs = qd.sample(n, b, values=fv, n_shots=shots, state=st, noise=h, endianness=end)
            elif route == "model":
                cs = QuantumModel(QuantumCircuit(n, b), noise=h).sample(fv, n_shots=shots, state=st, endianness=end)
            elif route == "config":
                cs = QuantumModel(QuantumCircuit(n, b), configuration=conf).sample(fv, n_shots=shots, state=st, endianness=end)
            else:
                cs = qd.sample(QuantumCircuit(n, b), values=fv, n_shots=shots, state=st, endianness=end)
        except RuntimeError as e:
            # pyqtorch refuses a probability rounded to -1e-18; possible where the exact one is zero
            if "invalid multinomial" not in str(e) or wp.min() > 1e-9:
                raise
            cs = None
        cnt += cs is not None and check_counts("noisy sample", cs, np.clip(wp, 0, 1), shots, n, rv)
    # what the handler says about itself
    if h is not None:
        back = NoiseHandler._from_dict(h._to_dict())
        if len(h.protocol) != len(cfg["hs"]) + (cfg["ro"] != "none") or not (cfg["ro"] != "none" or back == h):
            raise Mismatch("the noise handler does not hold the channels it was given")
        dig = h.filter(NoiseProtocol.DIGITAL)
        if [str(p) for p in (dig.protocol if dig else [])] != [c_["c"] for c_ in cfg["hs"]]:
            raise Mismatch(f"digital part {dig}")
        cnt += 1
    return cnt


# ------------------------------------------------------------------ readout mitigation
def mitigation_session(c):
    from collections import Counter

    from qadence.mitigations import Mitigations
    from qadence.mitigations.protocols import apply_mitigation
    from qadence.types import ReadOutOptimization

    n, i = c["n"], c.get("i", 0)
    N = 2 ** n
    bs = [format(k, f"0{n}b") for k in range(N)]
    conf = torch.tensor(c["conf"], dtype=torch.float64) / 8
    total = c["obs"][0]["total"]
    # counts in units that make both the observed and the corrected numbers whole
    shots = total * c["scale"] * c["den"]
    raws = [np.array(o["raw"]) * c["scale"] for o in c["obs"]]
    wants = [np.array(o["want"]) * c["den"] for o in c["obs"]]

    def counters():
        out = []
        for r in raws:
            ks = [k for k in range(N) if r[k] or (k == 0)]
            if i % 2:
                ks = ks[::-1]
            out.append(Counter({bs[k]: int(r[k]) for k in ks if r[k]}))
        return out

    proto, opt = NoiseProtocol.READOUT.INDEPENDENT, {"error_probability": conf}
    if c["fam"] == 6:
        proto, opt = NoiseProtocol.READOUT.CORRELATED, {"confusion_matrix": torch.tensor(c["corr"], dtype=torch.float64) / 8}
    elif c["fam"] == 4 and i % 2:  # a perfect device, described by its error probabilities
        opt = {"error_probability": 0.0}
    noise = NoiseHandler(proto, opt)
    if i % 3 == 2:
        noise = NoiseHandler([NoiseProtocol.DIGITAL.BITFLIP, proto], [{"error_probability": 0.25}, opt])
    mit = Mitigations(Mitigations.READOUT) if i % 2 else Mitigations(Mitigations.READOUT, {"optimization_type": ReadOutOptimization.MLE})
    if i % 5 == 4:
        mit = Mitigations._from_dict(mit._to_dict())
    given = counters()
    got = apply_mitigation(noise=noise, mitigation=mit, samples=given)
    cnt = 0
    if len(got) != len(raws):
        raise Mismatch(f"{len(got)} mitigated samples for {len(raws)}")
    if given != counters():
        raise Mismatch("the mitigation changed the samples it was given")
    for g, w in zip(got, wants):
        a = np.array([g.get(s, 0) for s in bs])
        if sum(g.values()) != shots or set(g) - set(bs):
            raise Mismatch(f"{sum(g.values())} mitigated shots of {shots}")
        # rounding of the counts by the code: a few units in shots
        if np.abs(a - w).max() > 2 * N + 1e-7 * shots:
            raise Mismatch(f"mitigated counts {a.tolist()} instead of {w.tolist()}")
        cnt += 1
    if i % 4 == 0 and all(o["exact"] for o in c["obs"]) and c["fam"] != 3:
        np.random.seed(i)
        small = shots
        got = apply_mitigation(noise=noise, mitigation=Mitigations(Mitigations.READOUT, {"optimization_type": ReadOutOptimization.CONSTRAINED}), samples=counters())
        for g, w in zip(got, wants):
            a = np.array([g.get(s, 0) for s in bs])
            if sum(g.values()) != small or np.abs(a - w).max() > 0.03 * small:
                raise Mismatch(f"constrained mitigation: counts {a.tolist()} instead of {w.tolist()}")
            cnt += 1
    # end to end: a basis state read by the faulty device and corrected
    if i % 3 == 0 or c["fam"] == 5:
        k = (i // 3 + i // 7) % N
        circ = lambda: QuantumCircuit(n, chain(*[(ops.X if bs[k][q] == "1" else ops.I)(q) for q in range(n)]))
        ro = NoiseHandler(proto, opt)
        torch.manual_seed(i)
        end = (Endianness.BIG, Endianness.LITTLE)[(i // 3) % 2]
        key = bs[k] if end == Endianness.BIG else bs[k][::-1]
        m2 = Mitigations(Mitigations.READOUT)
        S = 4000
        if (i // 6) % 2:
            s = QuantumModel(circ()).sample(n_shots=S, noise=ro, mitigation=m2, endianness=end)[0]
        else:
            s = QuantumModel(circ(), noise=ro, mitigation=m2).sample(n_shots=S, endianness=end)[0]
        if sum(s.values()) != S:
            raise Mismatch(f"{sum(s.values())} mitigated shots of {S}")
        inv = 4.0 if c["fam"] == 6 else np.prod([np.linalg.norm(np.linalg.inv(np.array(x)), 2) for x in conf])
        if s.get(key, 0) < S * (1 - 0.08 * inv):
            raise Mismatch(f"state {key} was read {s.get(key, 0)} times in {S} shots after mitigation")
        cnt += 1
    return cnt
