"""Workload generators: circuits, raw patterns, open graphs, states. All randomness from `rng`."""

from __future__ import annotations

import networkx as nx
import numpy as np

from graphix import command
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.pattern import Pattern
from graphix.states import BasicStates, PlanarState
from graphix.transpiler import Circuit

PLANES = (Plane.XY, Plane.YZ, Plane.XZ)
AXES = (Axis.X, Axis.Y, Axis.Z)
BASIC = (BasicStates.PLUS, BasicStates.MINUS, BasicStates.ZERO, BasicStates.ONE, BasicStates.PLUS_I, BasicStates.MINUS_I)


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def chance(rng, p):
    return bool(rng.random() < p)


def subset(rng, items, p=0.5, at_most=None):
    items = sorted(items)
    s = [x for x in items if rng.random() < p]
    if at_most is not None and len(s) > at_most:
        rng.shuffle(s)
        s = s[:at_most]
    return {int(x) if isinstance(x, (int, np.integer)) else x for x in s}


def angle(rng, pauli=0.3):
    """An angle in units of pi: Pauli, Clifford+T, generic, negative, large or tiny."""
    r = rng.random()
    if r < pauli:
        return float(pick(rng, (0.0, 0.5, 1.0, 1.5, -0.5, 2.0, -1.0, 3.5)))
    if r < pauli + 0.15:
        return float(pick(rng, (0.25, 0.75, 1.25, 1.75, -0.25)))
    if r < pauli + 0.2:
        return float(rng.uniform(-7, 7))
    if r < pauli + 0.22:
        return int(rng.integers(-3, 4))
    return float(rng.uniform(0, 2))


ONEQ = ("h", "s", "x", "y", "z", "i", "rx", "ry", "rz", "j")
TWOQ = ("cnot", "cz", "swap", "rzz")


def circuit(rng, width, depth, *, measure=0.0, ccx=0.06, exclude=(), pauli=0.3, keep_one=False, angle_fn=None):
    """A random circuit over the whole gate set, with mid-circuit measurements."""
    angle_fn = angle_fn or (lambda: angle(rng, pauli))
    c = Circuit(width)
    one = [g for g in ONEQ if g not in exclude]
    two = [g for g in TWOQ if g not in exclude]
    for _ in range(depth):
        act = sorted(c.active_qubits)
        if not act:
            break
        if rng.random() < measure and (len(act) > 1 or not keep_one):
            c.m(pick(rng, act), pick(rng, AXES))
            continue
        r = rng.random()
        if r < ccx and len(act) >= 3 and "ccx" not in exclude:
            a, b, t = (int(x) for x in rng.permutation(act)[:3])
            c.ccx(a, b, t)
        elif r < 0.5 and len(act) >= 2 and two:
            a, b = (int(x) for x in rng.permutation(act)[:2])
            g = pick(rng, two)
            if g == "rzz":
                c.rzz(a, b, angle_fn())
            else:
                getattr(c, g)(a, b)
        elif one:
            q = pick(rng, act)
            g = pick(rng, one)
            if g in ("rx", "ry", "rz", "j"):
                getattr(c, g)(q, angle_fn())
            else:
                getattr(c, g)(q)
    return c


def describe(c: Circuit):
    return f"Circuit({c.width}): " + "; ".join(repr(i) for i in c.instruction)


def measurement(rng, pauli_obj=0.35, planes=PLANES, pauli=0.3):
    if rng.random() < pauli_obj:
        return PauliMeasurement(pick(rng, AXES), pick(rng, (Sign.PLUS, Sign.MINUS)))
    return BlochMeasurement(angle(rng, pauli), pick(rng, planes))


def labels(rng, n, natural=False):
    """n distinct node labels, usually neither contiguous nor ordered, now and then huge or negative."""
    r = rng.random()
    if r < 0.3:
        return list(range(n))
    if r < 0.4:
        return [int(x) for x in rng.choice(10 ** int(rng.integers(3, 8)), size=n, replace=False)]
    if r < 0.45 and not natural:
        return [int(x) - 2 * n for x in rng.choice(4 * n + 5, size=n, replace=False)]
    return [int(x) for x in rng.choice(4 * n + 5, size=n, replace=False)]


def raw_pattern(
    rng,
    n_nodes,
    n_inputs,
    *,
    n_outputs=None,
    cliffords=0.12,
    corrections=0.35,
    edges=1.3,
    states=0.0,
    planes=PLANES,
    pauli_obj=0.35,
    pauli=0.3,
    max_live=7,
    domains=0.35,
    ticks=0.0,
    standardizable=True,
    natural=False,
):
    """An arbitrary runnable pattern: any interleaving, any domains, any planes, any Cliffords.

    Nothing makes it deterministic; transformations must preserve each branch of it regardless.
    """
    n_inputs = min(n_inputs, n_nodes)
    lab = labels(rng, n_nodes, natural)
    cap = None if rng.random() < 0.25 else 4
    inputs = lab[:n_inputs]
    todo = lab[n_inputs:]
    if n_outputs is None:
        n_outputs = int(rng.integers(0, min(n_nodes, 3) + 1))
    p = Pattern(input_nodes=inputs)
    live = list(inputs)
    measured: list[int] = []
    n_measure = max(0, n_nodes - n_outputs)
    edges_left = int(round(edges * n_nodes))
    while True:
        acts = []
        if todo and len(live) < max_live:
            acts += ["N"] * 4
        if len(live) >= 2 and edges_left > 0:
            acts += ["E"] * 5
        if live and len(measured) < n_measure and (len(live) >= 3 or not todo or rng.random() < 0.3):
            acts += ["M"] * 3
        if live and rng.random() < corrections:
            acts += ["X", "Z"]
        if live and rng.random() < cliffords:
            acts += ["C"] * 4
        if rng.random() < ticks:
            acts += ["T"]
        if not todo and len(measured) >= n_measure and (edges_left <= 0 or len(live) < 2 or rng.random() < 0.35):
            break
        if not acts:
            if len(live) >= max_live or not todo:
                if live and len(measured) < n_measure:
                    acts = ["M"]
                elif todo:
                    acts = ["N"]
                else:
                    break
            else:
                acts = ["N"]
        a = pick(rng, acts)
        if a == "N":
            v = todo.pop(0)
            st = pick(rng, BASIC) if rng.random() < states else None
            p.add(command.N(v) if st is None else command.N(v, state=st))
            live.append(v)
        elif a == "E":
            u, v = (int(x) for x in rng.permutation(live)[:2])
            p.add(command.E((u, v)))
            edges_left -= 1
        elif a == "M":
            v = pick(rng, live)
            p.add(
                command.M(
                    v,
                    measurement(rng, pauli_obj, planes, pauli),
                    s_domain=subset(rng, measured, domains, cap),
                    t_domain=subset(rng, measured, domains, cap),
                )
            )
            live.remove(v)
            measured.append(v)
        elif a == "X":
            p.add(command.X(pick(rng, live), subset(rng, measured, domains + 0.2, cap)))
        elif a == "Z":
            p.add(command.Z(pick(rng, live), subset(rng, measured, domains + 0.2, cap)))
        elif a == "C":
            p.add(command.C(pick(rng, live), Clifford(int(rng.integers(24)))))
        else:
            p.add(command.T())
    # Outputs end with any succession of corrections and Cliffords.
    for v in live:
        for _ in range(int(rng.integers(0, 4)) if rng.random() < 0.5 else 0):
            r = rng.random()
            if r < min(2.5 * cliffords, 0.4):
                p.add(command.C(v, Clifford(int(rng.integers(24)))))
            elif corrections:
                p.add((command.X if rng.random() < 0.5 else command.Z)(v, subset(rng, measured, domains + 0.2, cap)))
    if standardizable:
        # A Clifford followed by E on its qubit is documented as unsupported by standardisation.
        cmds = list(p)
        last_e = {}
        for k, c in enumerate(cmds):
            if c.kind.name == "E":
                for q in c.nodes:
                    last_e[q] = k
        p = Pattern(inputs, [c for k, c in enumerate(cmds) if c.kind.name != "C" or k > last_e.get(c.node, -1)])
    out = [int(x) for x in rng.permutation(p.output_nodes)] if p.output_nodes else []
    p.reorder_output_nodes(out)
    return p


def big_pattern(rng, lo=10, hi=18, **kw):
    """A pattern with many nodes and domains, thin enough for the reference."""
    n = int(rng.integers(lo, hi + 1))
    return raw_pattern(
        rng, n, int(rng.integers(0, 4)),
        **{
            "n_outputs": int(rng.integers(0, 4)), "cliffords": float(pick(rng, (0.0, 0.2))), "states": 0.1, "edges": float(pick(rng, (0.7, 1.1))),
            "corrections": float(pick(rng, (0.2, 0.6))), "domains": float(pick(rng, (0.2, 0.6))), "max_live": int(rng.integers(3, 6)), **kw,
        },
    )  # fmt: skip


def random_opengraph(
    rng, n, n_in, n_out, *, planes=PLANES, pauli_obj=0.0, pauli=0.3, edge_p=0.5, connected=False, relabel=True, disjoint=False, cliffords=0.0
):
    """A random labelled open graph (usually without any flow)."""
    lab = labels(rng, n) if relabel else list(range(n))
    g: nx.Graph[int] = nx.Graph()
    order = [int(x) for x in rng.permutation(lab)]
    g.add_nodes_from(order)
    for i in range(n):
        for j in range(i + 1, n):
            if rng.random() < edge_p:
                g.add_edge(order[i], order[j])
    if connected:
        for i in range(1, n):
            if not any(g.has_edge(order[i], order[j]) for j in range(i)):
                g.add_edge(order[i], order[int(rng.integers(i))])
    perm = [int(x) for x in rng.permutation(lab)]
    outs = perm[:n_out]
    pool = perm[n_out:] if disjoint else [int(x) for x in rng.permutation(lab)]
    ins = pool[:n_in]
    meas = {v: measurement(rng, pauli_obj, planes, pauli) for v in order if v not in outs}
    oc = {v: Clifford(int(rng.integers(24))) for v in outs if rng.random() < cliffords}
    return OpenGraph(g, ins, outs, meas, oc)


def layered_opengraph(rng, width, depth, *, planes=(Plane.XY,), pauli_obj=0.0, pauli=0.3, cz=0.5, relabel=True):
    """An open graph with a causal flow by construction: wires of J gates plus CZ edges."""
    og_nodes = width
    indices = list(range(width))
    g: nx.Graph[int] = nx.Graph()
    g.add_nodes_from(indices)
    meas = {}
    for _ in range(depth):
        if width >= 2 and rng.random() < cz:
            a, b = (int(x) for x in rng.permutation(width)[:2])
            u, v = indices[a], indices[b]
            if g.has_edge(u, v):
                g.remove_edge(u, v)
            else:
                g.add_edge(u, v)
        else:
            q = int(rng.integers(width))
            meas[indices[q]] = measurement(rng, pauli_obj, planes, pauli)
            g.add_edge(indices[q], og_nodes)
            indices[q] = og_nodes
            og_nodes += 1
    if relabel:
        lab = labels(rng, og_nodes)
        m = dict(enumerate(lab))
        g = nx.relabel_nodes(g, m)
        return OpenGraph(g, [m[i] for i in range(width)], [m[i] for i in indices], {m[k]: v for k, v in meas.items()})
    return OpenGraph(g, list(range(width)), indices, meas)


def pauliflow_opengraph(rng, n_lo, n_hi, *, tries=60, kind="pauli", max_in=2, max_out=3, pauli_obj=None, edge_p=None, cliffords=0.0, disjoint=None):
    """Rejection-sample an open graph that has the requested kind of flow."""
    for _ in range(tries):
        n = int(rng.integers(n_lo, n_hi + 1))
        n_out = int(rng.integers(1, min(n, max_out) + 1))
        n_in = int(rng.integers(0, min(n_out, max_in) + 1))
        po = pauli_obj if pauli_obj is not None else (float(rng.choice([0.0, 0.4, 0.8])) if kind == "pauli" else 0.0)
        ep = edge_p if edge_p is not None else float(rng.choice([0.25, 0.4, 0.6]))
        dj = disjoint if disjoint is not None else chance(rng, 0.6)
        if dj and n_in + n_out > n:
            continue
        og = random_opengraph(rng, n, n_in, n_out, pauli_obj=po, edge_p=ep, disjoint=dj, cliffords=cliffords)
        if kind == "pauli":
            f = og.to_pauliflow_or_none()
        elif kind == "gflow":
            f = og.to_gflow_or_none()
        else:
            f = og.to_causalflow_or_none()
        if f is not None and og.measurements:
            return og, f
    return None


def planted_opengraph(rng, n_meas, n_out, *, xy=0.5, density=0.4, pauli_obj=0.0, pauli=0.3, relabel=True, inputs=None, objects=True):
    """An open graph with a gflow by construction (built backwards in time), returned with that flow.

    Each new node u gets a correcting set among the later nodes and neighbours solving, over GF(2),
    'u is in Odd(p(u)) as its plane demands and u is in no later node's Odd(p(w))'. Relabelling a
    node to an axis of its plane (`pauli_obj`) keeps it a Pauli flow.
    """
    nodes = list(range(n_out))
    adj = {v: set() for v in nodes}
    ps, planes = {}, {}
    u = n_out
    failed = 0
    while u < n_out + n_meas:
        lam = "XY" if rng.random() < xy else pick(rng, ("XZ", "YZ"))
        if failed > 10:
            lam = "YZ"  # always feasible
        k = int(rng.integers(1, min(4, len(nodes)) + 1)) if nodes else 0
        p = {int(x) for x in rng.permutation(nodes)[:k]} if k else set()
        if lam == "YZ" and (rng.random() < 0.6 or failed > 10):
            p = set()
        failed += 1
        if not p and lam != "YZ":
            if not nodes:
                lam = "YZ"
            else:
                continue
        demand = 0 if lam == "YZ" else 1
        rows = [[int(v in ps[w]) for v in nodes] + [0] for w in ps] + [[int(v in p) for v in nodes] + [demand]]
        m = np.array(rows, dtype=np.uint8).reshape(len(rows), len(nodes) + 1)
        r, piv = 0, []
        for c in range(len(nodes)):
            t = [i for i in range(r, len(m)) if m[i, c]]
            if not t:
                continue
            m[[r, t[0]]] = m[[t[0], r]]
            for i in range(len(m)):
                if i != r and m[i, c]:
                    m[i] ^= m[r]
            piv.append(c)
            r += 1
        if any(m[i, -1] and not m[i, :-1].any() for i in range(len(m))):
            continue
        x = (rng.random(len(nodes)) < density).astype(np.uint8)
        for i in reversed(range(r)):
            x[piv[i]] = 0
            x[piv[i]] = (int(m[i, -1]) + int((m[i, :-1].astype(int) @ x.astype(int)))) & 1
        adj[u] = {v for v, b in zip(nodes, x) if b}
        for v in adj[u]:
            adj[v].add(u)
        ps[u] = p | ({u} if lam != "XY" else set())
        planes[u] = lam
        nodes.append(u)
        u += 1
        failed = 0
    used = set().union(*ps.values()) if ps else set()
    free = [v for v in nodes if v not in used]
    n_in = len(free) if inputs == "all" else int(rng.integers(0, len(free) + 1))
    ins = [int(v) for v in rng.permutation(free)[:n_in]]
    lab = dict(zip(nodes, labels(rng, len(nodes)) if relabel else nodes))
    g: nx.Graph[int] = nx.Graph()
    g.add_nodes_from(lab[int(v)] for v in rng.permutation(nodes))
    g.add_edges_from((lab[a], lab[b]) for a in nodes for b in adj[a] if a < b)
    meas = {}
    for v, lam in planes.items():
        axis = pick(rng, lam) if rng.random() < pauli_obj else None
        if not objects:
            meas[lab[v]] = Axis[axis] if axis else Plane[lam]
        elif axis:
            meas[lab[v]] = PauliMeasurement(Axis[axis], pick(rng, (Sign.PLUS, Sign.MINUS)))
        else:
            meas[lab[v]] = BlochMeasurement(angle(rng) if rng.random() >= pauli else float(int(rng.integers(4))) / 2, Plane[lam])
    outs = [lab[int(v)] for v in rng.permutation(n_out)] if n_out else []
    og = OpenGraph(g, [lab[v] for v in ins], outs, meas)
    layers = ([frozenset(outs)] if outs else []) + [frozenset({lab[v]}) for v in planes]
    return og, {lab[u]: frozenset(lab[v] for v in p) for u, p in ps.items()}, layers


def as_labels(og):
    """The same open graph with Plane / Axis labels instead of measurements."""
    return og.map(lambda m: m.axis if isinstance(m, PauliMeasurement) else m.plane)


def states_for(rng, n):
    """A random multi-qubit input state as a flat complex vector."""
    from ref import haar_state

    if n == 0:
        return np.ones(1, dtype=complex)
    if rng.random() < 0.2:
        from ref import state_vec

        v = np.ones(1, dtype=complex)
        for _ in range(n):
            v = np.kron(v, state_vec(pick(rng, BASIC)))
        return v
    return haar_state(rng, n)


def planar_state(rng):
    return PlanarState(pick(rng, PLANES), float(rng.uniform(0, 2)))


__all__ = [n for n in dir() if not n.startswith("_")] + ["Measurement"]
