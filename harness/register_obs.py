"""Registers: where the qubits are, which are connected, what survives operations on registers."""
from __future__ import annotations

import copy
import json
import tempfile

import networkx as nx
from observers import *

from qadence.analog import AddressingPattern, IdealDevice, RydbergDevice
from qadence.types import Interaction


def rat(p):
    return p[0] / p[1]


def create(c, s, dev):
    k, a, b = c["k"], c["a"], c["b"]
    kw = {"device_specs": dev}
    sp = rat(s) if s[0] else None
    if k in ("coordinates", "graph"):
        pts = [(x / 2, y / 2) for x, y in c["pts"]]
        if k == "coordinates":
            return Register.from_coordinates(pts, spacing=sp, **kw)
        g = nx.Graph()
        for i, p in enumerate(pts):
            g.add_node(i, pos=p)
        g.add_edges_from([tuple(e) for e in c["edges"]])
        before = copy.deepcopy(dict(g.nodes(data=True)))
        r = Register(g, spacing=sp, **kw)
        if dict(g.nodes(data=True)) != before:
            raise Mismatch("creating a register moved the nodes of the graph it was given")
        return r
    if sp == 1.0 and c.get("i", 0) % 2:
        sp_kw = {}
    else:
        sp_kw = {"spacing": sp}
    args = (a, b) if k in ("rectangular_lattice", "triangular_lattice", "honeycomb_lattice") else (a,)
    if k == "all_to_all" and c.get("i", 0) % 3 == 0:
        return Register(a, **sp_kw, **kw)
    if c.get("i", 0) % 3 == 1:
        return Register.lattice(k, *args, **sp_kw, **kw)
    return getattr(Register, k)(*args, **sp_kw, **kw)


def lengths(c, f):
    """The distance of every pair of points, in the order of c["pairs"]."""
    F = rat(f)
    n = len(c["pts"])
    if c["k"] == "circle":
        return [np.sqrt(F) * np.sin(np.pi * (j - i) / n) / np.sin(np.pi / n) for i, j in c["pairs"]]
    return [np.sqrt(F * d) for d in c["d2"]]


def close_(a, b):
    return abs(a - b) < 1e-6 * max(1.0, abs(b))


def look(c, r, f, what):
    n = len(c["pts"])
    if r.n_qubits != n or r.support != set(range(n)) or set(r.nodes) != set(range(n)):
        raise Mismatch(f"{what}: {r.n_qubits} qubits {sorted(r.support)} instead of {n}")
    pairs = [tuple(p) for p in c["pairs"]]
    got = {tuple(k): v for k, v in r.distances.items()}
    if set(r.all_node_pairs) != set(pairs) or len(list(r.all_node_pairs)) != len(pairs) or set(got) != set(pairs):
        raise Mismatch(f"{what}: pairs of qubits {sorted(got)}")
    want = dict(zip(pairs, lengths(c, f)))
    edges = {tuple(sorted(e)) for e in r.edges}
    wedges = {tuple(e) for e in c["edges"]}
    unknown = c["k"] == "all_to_all" and n > 3
    if unknown:
        # where the qubits are is up to a layout algorithm, but the smallest distance is given
        base = np.sqrt(rat(f) * c["min"])
        if edges != wedges or not close_(min(got.values()), base):
            raise Mismatch(f"{what}: edges {sorted(edges)}, smallest distance {min(got.values())} instead of {base}")
        want = got
    elif c["num"]:
        if any(not close_(got[p], want[p]) for p in pairs):
            raise Mismatch(f"{what}: distances {got} instead of {want}")
        if edges != wedges:
            raise Mismatch(f"{what}: edges {sorted(edges)} instead of {sorted(wedges)}")
    else:
        # the numbering of the points is left open: identify them by their position
        step = np.sqrt(rat(f)) if rat(f) else 1.0
        xy = np.array([r.coords[i] for i in range(n)], float) / step
        pts = np.array(c["pts"], float) * [1, np.sqrt(c["m"])]
        xy, pts = xy - xy.min(0), pts - pts.min(0)
        ix = [int(np.argmin(((pts - q) ** 2).sum(1))) for q in xy]
        if sorted(ix) != list(range(n)) or np.abs(pts[ix] - xy).max() > 1e-6:
            raise Mismatch(f"{what}: the qubits do not form the lattice")
        for (i, j), d in got.items():
            p = tuple(sorted((ix[i], ix[j])))
            if not close_(d, want[p]):
                raise Mismatch(f"{what}: distance {d} of qubits {i},{j} instead of {want[p]}")
        if {tuple(sorted((ix[i], ix[j]))) for i, j in edges} != wedges:
            raise Mismatch(f"{what}: edges {sorted(edges)}")
    ed = {tuple(sorted(k)): v for k, v in r.edge_distances.items()}
    if set(ed) != edges or any(not close_(ed[e], got[e]) for e in ed):
        raise Mismatch(f"{what}: distances along edges {ed}")
    if n > 1 and not close_(r.min_distance, min(got.values())):
        raise Mismatch(f"{what}: smallest distance {r.min_distance} instead of {min(got.values())}")
    for i, j in pairs:
        p, q = np.array(r.coords[i], float), np.array(r.coords[j], float)
        if not close_(float(np.linalg.norm(p - q)), got[i, j]):
            raise Mismatch(f"{what}: the coordinates of {i},{j} are not at their distance")
    return 1


def session(c):
    from qadence import serialization as ser

    i = c.get("i", 0)
    dev = [IdealDevice(), RydbergDevice(rydberg_level=70), RydbergDevice(interaction=Interaction.XY, coeff_xy=1200.0)][i % 3]
    r = create(c, c["hist"][0]["s"], dev)
    f = c["hist"][0]["f"]
    cnt = look(c, r, f, "new register")
    for h in c["hist"][1:]:
        old, fold, coords = r, f, dict(r.coords)
        s = rat(h["s"]) if h["s"][0] else None
        if h["op"] == "rescale":
            r = r.rescale_coords(s)
            for q in coords:
                if not np.allclose(r.coords[q], np.array(coords[q]) * s):
                    raise Mismatch(f"rescaled coordinates {r.coords[q]} of {coords[q]} by {s}")
        elif h["op"] == "respace":
            r = Register(r.graph, spacing=s, device_specs=dev)
        elif h["op"] == "store":
            if i % 3 == 0:
                r = ser.deserialize(ser.serialize(r))
            elif i % 3 == 1:
                r = Register._from_dict(json.loads(json.dumps(r._to_dict(), default=lambda o: o.tolist())))
            else:
                with tempfile.TemporaryDirectory() as d:
                    ser.save(r, d, "reg")
                    r = ser.load(f"{d}/reg.json")
        elif h["op"] == "keep":
            r = QuantumCircuit(r, ops.X(0)).register
        f = h["f"]
        cnt += look(c, r, f, f"register after {h['op']}")
        if r.device_specs != dev:
            raise Mismatch(f"device {r.device_specs} after {h['op']}")
        # the register it came from stays as it was
        if any(not np.allclose(old.coords[q], coords[q]) for q in coords):
            raise Mismatch(f"{h['op']} moved the qubits of the register it was given")
        same = rat(f) == rat(fold)
        if h["op"] in ("store", "keep") and not (r == old and old == r):
            raise Mismatch(f"registers differ after {h['op']}")
        if not same and len(c["pts"]) > 1 and r == old:
            raise Mismatch("registers with other distances are equal")
    return cnt + equality(c, r, dev)


def equality(c, r, dev):
    """Registers are equal when coordinates, edges and device are."""
    def over(edges, device):
        g = nx.Graph()
        for q, p in r.coords.items():
            g.add_node(q, pos=tuple(p))
        g.add_edges_from([tuple(e) for e in edges])
        return Register(g, spacing=None, device_specs=device)

    base = over(c["edges"], dev)
    for a in c["alts"]:
        o = over(a["e"][::-1], dev)
        if (base == o) != a["same"] or (o == base) != a["same"]:
            raise Mismatch(f"comparing edges {c['edges']} and {a['e']} on the same points")
        if (QuantumCircuit(base, ops.X(0)) == QuantumCircuit(o, ops.X(0))) != a["same"]:
            raise Mismatch(f"comparing circuits with edges {c['edges']} and {a['e']} on the same points")
    if base == over(c["edges"], RydbergDevice(rydberg_level=61)):
        raise Mismatch("registers with other devices are equal")
    return len(c["alts"]) + 1
