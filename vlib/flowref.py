"""Reference definitions of causal flow, gflow and Pauli flow, written from the literature.

Nothing here calls graphix.flow: adjacency is read from the networkx graph, odd neighbourhoods,
propositions and flow existence are computed from the definitions (Browne et al. 2007,
Backens et al. 2021, Simmons 2021).
"""

from __future__ import annotations

import numpy as np

from graphix.fundamentals import Axis, Plane
from graphix.measurements import BlochMeasurement, PauliMeasurement


def adjacency(g):
    return {v: frozenset(u for u in g.adj[v] if u != v) for v in g.nodes}


def odd(adj, s):
    out = set()
    for v in s:
        out ^= adj[v]
    return out


def label(m, kind):
    """Measurement label; `kind` 'pauli' keeps axes, 'plane' reads the plane."""
    if isinstance(m, PauliMeasurement):
        return m.axis.name if kind == "pauli" else None
    if isinstance(m, BlochMeasurement):
        return m.plane.name
    if isinstance(m, Axis):
        return m.name if kind == "pauli" else None
    if isinstance(m, Plane):
        return m.name
    raise TypeError(m)


def labels(og, kind):
    return {v: label(m, kind) for v, m in og.measurements.items()}


def general_errors(og, cf, layers):
    """Violated general properties (domain, image, order), shared by every kind of flow."""
    errs = set()
    nodes, outs, ins = set(og.graph.nodes), set(og.output_nodes), set(og.input_nodes)
    if set(cf) != nodes - outs:
        errs.add("domain")
    if not set().union(*cf.values()) <= nodes - ins:
        errs.add("image")
    errs |= order_errors(nodes, outs, layers)
    return errs


def order_errors(nodes, outs, layers):
    errs = set()
    layers = [set(x) for x in layers]
    if not layers:
        return {"order-empty"} if nodes else set()
    rest = layers
    if outs:
        if layers[0] != outs:
            errs.add("first-layer")
        rest = layers[1:]
    seen = set()
    for x in rest:
        if not x or not x <= nodes - outs or x & seen:
            errs.add("nth-layer")
        seen |= x
    if seen | outs != nodes:
        errs.add("order-nodes")
    return errs


def depth(layers):
    return {v: k for k, x in enumerate(layers) for v in x}


def proposition_errors(og, cf, layers, kind):
    """Violated propositions {name: [nodes]} given a sane order, domain and image."""
    adj, d = adjacency(og.graph), depth(layers)
    lam = labels(og, "pauli" if kind == "pauli" else "plane")
    bad = {}

    def add(name, v):
        bad.setdefault(name, set()).add(v)

    for u, lu in lam.items():
        p = set(cf[u])
        if kind == "causal":
            if len(p) != 1:
                add("C0", u)
            if lu != "XY":
                add("plane", u)
            if len(p) != 1:
                continue
            (c,) = p
            if u not in adj[c]:
                add("C1", u)
            if d[c] >= d[u]:
                add("C2", u)
            if any(d[k] >= d[u] for k in adj[c] - {u}):
                add("C3", u)
            continue
        o = odd(adj, p)
        late = lambda v: d[v] < d[u]  # noqa: E731  v strictly after u
        pr = "P" if kind == "pauli" else "G"
        for v in p - {u}:
            if not late(v) and (kind == "gflow" or lam[v] not in ("X", "Y")):
                add(pr + "1", u)
        for v in o - {u}:
            if not late(v) and (kind == "gflow" or lam[v] not in ("Y", "Z")):
                add(pr + "2", u)
        if kind == "pauli":
            for v in (p ^ o) - {u}:
                if v in lam and lam[v] == "Y" and not late(v):
                    add("P3", u)
        base = 4 if kind == "pauli" else 3
        ok = {
            "XY": u not in p and u in o, "XZ": u in p and u in o, "YZ": u in p and u not in o,
            "X": u in o, "Z": u in p, "Y": (u in p) != (u in o),
        }[lu]  # fmt: skip
        if not ok:
            add(pr + str(base + ("XY", "XZ", "YZ", "X", "Z", "Y").index(lu)), u)
    return bad


def flow_errors(og, cf, layers, kind):
    g = general_errors(og, cf, layers)
    return g or set(proposition_errors(og, cf, layers, kind))


def is_focused(og, cf, kind):
    """Definition 4.3 of Simmons 2021 (over the other measured nodes)."""
    adj = adjacency(og.graph)
    lam = labels(og, "pauli" if kind == "pauli" else "plane")
    for u, p in cf.items():
        p = set(p)
        o = odd(adj, p)
        for v, lv in lam.items():
            if v == u:
                continue
            if v in p and lv not in ("XY", "X", "Y"):
                return False
            if v in o and lv not in ("XZ", "YZ", "Y", "Z"):
                return False
            if lv == "Y" and (v in p) != (v in o):
                return False
    return True


def maximal_layers(og, kind, cap=15):
    """Greedy (maximally delayed) layers by brute force over correction sets, or None if no flow.

    A node joins the next layer iff some subset of the non-inputs satisfies its propositions with
    the nodes placed so far as its future; enlarging the future only relaxes them, so the greedy
    closure decides existence.
    """
    adj = adjacency(og.graph)
    nodes = sorted(og.graph.nodes)
    idx = {v: i for i, v in enumerate(nodes)}
    cand = [v for v in nodes if v not in set(og.input_nodes)]
    if len(cand) > cap:
        raise ValueError("too many non-input nodes")
    lam = labels(og, "pauli" if kind == "pauli" else "plane")
    if kind == "causal" and any(x != "XY" for x in lam.values()):
        return None
    nb = {v: sum(1 << idx[u] for u in adj[v]) for v in nodes}
    p = np.zeros(1, dtype=np.int64)
    o = np.zeros(1, dtype=np.int64)
    if kind == "causal":
        p = np.array([1 << idx[v] for v in cand], dtype=np.int64)
        o = np.array([nb[v] for v in cand], dtype=np.int64)
    else:
        for v in cand:
            p = np.concatenate([p, p ^ (1 << idx[v])])
            o = np.concatenate([o, o ^ nb[v]])
    full = (1 << len(nodes)) - 1
    mask = lambda names: sum(1 << idx[v] for v, lv in lam.items() if lv in names)  # noqa: E731
    mxy = mask(("X", "Y")) if kind == "pauli" else 0
    myz = mask(("Y", "Z")) if kind == "pauli" else 0
    my = mask(("Y",)) if kind == "pauli" else 0
    layers = [frozenset(og.output_nodes)] if og.output_nodes else []
    future = sum(1 << idx[v] for v in og.output_nodes)
    todo = set(lam)
    while todo:
        new = set()
        for u in todo:
            b = 1 << idx[u]
            lu = lam[u]
            ok = (p & ~(future | b | mxy) & full) == 0
            ok &= (o & ~(future | b | myz) & full) == 0
            ok &= ((p ^ o) & my & ~future & ~b) == 0
            inp, ino = (p & b) != 0, (o & b) != 0
            ok &= {
                "XY": ~inp & ino, "XZ": inp & ino, "YZ": inp & ~ino, "X": ino, "Z": inp, "Y": inp ^ ino,
            }[lu]  # fmt: skip
            if ok.any():
                new.add(u)
        if not new:
            return None
        layers.append(frozenset(new))
        for u in new:
            future |= 1 << idx[u]
        todo -= new
    return layers
