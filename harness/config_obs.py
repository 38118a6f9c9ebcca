"""Quantum neural networks built from configurations: the real code against MCConfig."""
from __future__ import annotations

from construct_obs import *
from qast import *
from observers import expand, expect_eq, tnp
from runtime import Mismatch

from qadence import QNN, AnalogRX, AnalogRY, Register
from qadence.constructors import ObservableConfig
from qadence.ml_tools.config import AnsatzConfig, FeatureMapConfig
from qadence.parameters import VariationalParameter
from qadence.types import AnsatzType, Interaction, MultivariateStrategy

FEATURES = ("x", "y", "t")
INT = {"custom": custom}


def per_feature(fm, names, key):
    """One value for all features, or one for each, by name."""
    vals = {names[i]: key(fm["feats"][i]) for i in range(fm["m"])}
    if fm["same"] and fm["m"]:
        return next(iter(vals.values()))
    return dict(reversed(vals.items()))


def feature_config(c, names):
    """The configuration, and for every feature the map from the specified to the given value."""
    fm, i = c["fm"], c["i"]
    if fm["m"] == 0 and i % 2:
        return None, {}
    value, fr, tr = {}, {}, {}
    for k in range(fm["m"]):
        f = fm["feats"][k]
        kw, value[k] = fm_ranges({**f, "how": "given" if f["given"] else "default"})
        fr[names[k]], tr[names[k]] = kw.get("feature_range"), kw.get("target_range")
    kw = dict(num_features=fm["m"])
    if fm["m"] > 1 or fm["m"] == 1 and (names[0] != "x" or i % 2):
        kw["inputs"] = [names[k - 1] for k in fm["order"]]
    scalings = per_feature(fm, names, lambda f: SCALINGS[f["rs"]])
    kw["basis_set"] = per_feature(fm, names, lambda f: BASES[f["basis"]])
    kw["reupload_scaling"] = scalings
    kw["num_repeats"] = per_feature(fm, names, lambda f: f["rep"])
    if fm["same"] and fm["m"]:
        if fm["feats"][0]["given"]:
            kw["feature_range"], kw["target_range"] = fr[names[0]], tr[names[0]]
    elif fm["m"]:
        kw["feature_range"], kw["target_range"] = fr, tr
    kw["multivariate_strategy"] = MultivariateStrategy[fm["multi"]]
    if fm["train"]:
        kw["param_prefix"] = "w"
    if fm["strat"] == "digital":
        if not (fm["op"] == "RX" and i % 2):
            kw["operation"] = getattr(ops, fm["op"])
        if i % 3 == 0 and fm["m"] < 2 and "operation" in kw:
            kw["feature_map_strategy"] = (Strategy.ANALOG, Strategy.RYDBERG)[i % 2]  # the operation has precedence
    elif fm["strat"] == "analog":
        op = {"RX": AnalogRX, "RY": AnalogRY}[fm["op"]]
        if not (op is AnalogRX and i % 2):
            kw["operation"] = op
        if i % 3 or "operation" not in kw:
            kw["feature_map_strategy"] = Strategy.ANALOG
        elif i % 2:
            kw["feature_map_strategy"] = Strategy.RYDBERG  # the operation has precedence
    else:
        kw["feature_map_strategy"] = Strategy.RYDBERG
    if i % 5 == 0:
        kw["tag"] = "FM"
    return FeatureMapConfig(**kw), value


def ansatz_config(c):
    a, i, n = c["an"], c["i"], c["n"]
    if a["kind"] == "hea" and a["depth"] == 1 and a["ops"] == ["RX", "RY", "RX"] and a["ent"] == "CNOT" and not a["per"] and i % 2:
        return None
    args = {}
    default = ["RX", "RY"] if a["kind"] == "iia" else ["RX", "RY", "RX"]
    if not (a["ops"] == default and i % 2):
        args["operations"] = [getattr(ops, o) for o in a["ops"]]
    if a["strat"] == "sdaqc":
        if not (a["ent"] == "NN" and i % 3):
            args["entangler"] = graph_generator(a["ent"], n)
    else:
        if not (a["ent"] == "CNOT" and i % 3):
            args["entangler"] = getattr(ops, a["ent"])
        if a["kind"] != "ala" and (a["per"] or i % 2):
            args["periodic"] = a["per"]
    kw = dict(depth=a["depth"], ansatz_type=AnsatzType[a["kind"].upper()], ansatz_strategy=Strategy.SDAQC if a["strat"] == "sdaqc" else Strategy.DIGITAL, strategy_args=args)
    if a["kind"] == "ala":
        kw["m_block_qubits"] = a["m"]
    if i % 7 == 0:
        kw["tag"] = "ansatz"
    return AnsatzConfig(**kw)


def observable_config(c, o, k, pars):
    kw = {}
    if o["det"]:
        kw["detuning"] = getattr(ops, o["det"])
    if o["int"]:
        kw["interaction"] = INT.get(o["int"]) or (Interaction[o["int"]] if (c["i"] + k) % 2 else o["int"])
    if o["par"] == "num":
        kw.update(scale=float(o["scale"]), shift=float(o["shift"]))
    elif o["par"] == "num2":
        if o["scale"] != 1:
            kw["scale"] = o["scale"]
        if o["shift"] != 0:
            kw["shift"] = o["shift"]
        kw["tag"] = "obs"
    else:
        kw.update(scale=f"scale{k}", shift=f"shift{k}", trainable_transform=True)
        pars[f"scale{k}"], pars[f"shift{k}"] = float(o["scale"]), float(o["shift"])
    return ObservableConfig(**kw)


def session(c):
    n, fm, i = c["n"], c["fm"], c["i"]
    names = FEATURES
    reg = Register.line(n, spacing=1000.0) if c["line"] else (n if i % 2 else Register(n))
    pars = {}
    for p in c["pars"]:
        pf = p["pf"]
        name = f"{pf}_ent_ent_{p['i']}" if p["f"] == "ent" and c["an"]["kind"] == "ala" else f"{pf}_{p['i']}" if pf.startswith("w_") else parameter_name(pf, p)
        pars[name] = p["v"] * (U if p["unit"] else 1.0)
    obs = [observable_config(c, o, k, pars) for k, o in enumerate(c["obs"])]
    f, value = feature_config(c, names)
    a = ansatz_config(c)
    kw = {}
    if f is not None:
        kw["fm_config"] = f
    if a is not None:
        kw["ansatz_config"] = a
    qnn = QNN.from_configs(reg, obs if len(obs) > 1 or i % 2 else obs[0], **kw)
    want = np.array([[complex(scal(v)).real for v in row] for row in c["want"]])
    if set(qnn.vparams) != set(pars):
        raise Mismatch(f"trainable parameters {sorted(qnn.vparams)} instead of {sorted(pars)}")
    if pars:
        qnn.reset_vparams([np.float64(pars[k]) for k in qnn.vparams])
    cnt = 0
    if fm["m"] == 0:
        got = np.real(tnp(qnn.expectation(values={})))
        expect_eq("outputs of the network", expand(got, len(want)), want)
        return 1
    if [str(s) for s in qnn.inputs] != [names[k - 1] for k in fm["order"]]:
        raise Mismatch(f"inputs {qnn.inputs}")
    cols = [[value[k - 1](row[k - 1]) for k in fm["order"]] for row in c["xs"]]
    X = torch.tensor(cols, dtype=torch.float64)
    tol = 1e-5 if fm["strat"] != "digital" else 1e-6
    expect_eq("outputs of the network", expand(np.real(tnp(qnn(X))), len(want)), want, tol)
    cnt += 1
    vals = {names[k - 1]: X[:, j] for j, k in enumerate(fm["order"])}
    expect_eq("outputs of the network for features by name", expand(np.real(tnp(qnn(vals))), len(want)), want, tol)
    cnt += 1
    for r in range(len(want)):
        expect_eq("output for one row", np.real(tnp(qnn(X[r:r + 1]))), want[r:r + 1], tol)
        cnt += 1
    return cnt
