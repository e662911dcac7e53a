"""The graph-state simulator against dense stabilizer states."""

import itertools

import numpy as np

import gen
import ref
from core import Family
from graphix.clifford import Clifford
from graphix.graphsim import GraphState

ID = "P28"
QUICK_SCALE = 6
RULE = (
    "Random decorated graphs (up to 8 nodes, isolated nodes, any labels and order) built in every accepted way, and random histories of local Cliffords, equivalence rules, fillings, X/Y/Z measurements with requested outcomes, copies, refused calls. "
    "Oracle: dense vectors of the decorated graph (H^hollow S^loop Z^sign on |G>), 2x2 matrices and projections. Non-trivial: a graph with an edge and a decoration; distinct = decorated graph and operation."
)
ASSUMPTIONS = ["states compared up to a global phase"]
FLOORS = {"histories": 150, "gates": 400, "vops": 150, "rules": 400, "fills": 150, "measurements": 500, "random_outcomes": 300, "fixed_outcomes": 30, "refused": 150, "statevectors": 300, "copies": 60}
WARM = ()
TOL = 1e-6


def dense(g):
    """Vector of a decorated graph state, qubits in the order of the nodes."""
    nodes = list(g.nodes)
    t = np.asarray(ref.graph_state(nodes, list(g.edges))).reshape((2,) * len(nodes))
    for k, v in enumerate(nodes):
        a = g.nodes[v]
        if a["sign"]:
            t = ref.apply(ref.Z, [k], t)
        if a["loop"]:
            t = ref.apply(ref.S, [k], t)
        if a["hollow"]:
            t = ref.apply(ref.H, [k], t)
    return t


def key(g):
    return tuple((v, tuple(sorted(g.nodes[v].items()))) for v in g.nodes), frozenset(frozenset(e) for e in g.edges)


def same(a, b):
    return ref.ray_dist(np.asarray(a).reshape(-1), np.asarray(b).reshape(-1)) < TOL


def build(ctx, rng, n=None):
    n = (int(rng.integers(1, 8)) if rng.random() < 0.8 else int(rng.integers(8, 11))) if n is None else n
    lab = gen.labels(rng, n)
    p = float(gen.pick(rng, (0.0, 0.3, 0.5, 0.8)))
    edges = [e for e in itertools.combinations(lab, 2) if gen.chance(rng, p)]
    edges = [e if gen.chance(rng, 0.5) else e[::-1] for e in edges]
    rng.shuffle(edges)
    edges = [(int(a), int(b)) for a, b in edges]
    vops = {v: Clifford(int(rng.integers(24))) for v in lab if gen.chance(rng, 0.6)}
    want = ref.graph_state(lab, edges)
    t = np.asarray(want).reshape((2,) * n)
    how = int(rng.integers(5))
    if how == 0:
        g = GraphState(nodes=lab, edges=edges, vops=vops)
    elif how == 1:
        g = GraphState(iter(lab), iter(edges))
        g.apply_vops(vops)
    elif how == 2:
        g = GraphState()
        for v in lab:
            g.add_node(v)
        g.add_edges_from(edges)
        g.apply_vops(vops)
    elif how == 3:
        # nodes that come with their edges, in the order of the edges
        lab = list(dict.fromkeys(v for e in edges for v in e)) + [v for v in lab if not any(v in e for e in edges)]
        g = GraphState(edges=edges, vops={v: c for v, c in vops.items() if any(v in e for e in edges)})
        for v in lab[len(g.nodes):]:
            c = gen.chance(rng, 0.5)
            g.add_node(v, **({"sign": True} if c else {}))
            if c:
                vops[v] = Clifford.Z
            elif v in vops:
                g.apply_vops({v: vops[v]})
        t = np.asarray(ref.graph_state(lab, edges)).reshape((2,) * n)
    else:
        g = GraphState()
        deco = {v: {"sign": gen.chance(rng, 0.5), "loop": gen.chance(rng, 0.5), "hollow": gen.chance(rng, 0.5)} for v in lab}
        g.add_nodes_from([(v, deco[v]) for v in lab])
        for e in edges:
            g.add_edge(*e)
        vops = {}
        for k, v in enumerate(lab):
            for on, m in ((deco[v]["sign"], ref.Z), (deco[v]["loop"], ref.S), (deco[v]["hollow"], ref.H)):
                if on:
                    t = ref.apply(m, [k], t)
        ctx.check(all(dict(g.nodes[v]) == deco[v] for v in lab), "attributes", "attributes given when nodes are added")
    for v, c in vops.items():
        t = ref.apply(ref.CLIFFORD[c.value], [lab.index(v)], t)
    ctx.check(list(g.nodes) == lab, "nodes", "order of the nodes")
    ctx.check(all(set(g.nodes[v]) == {"sign", "loop", "hollow"} and all(isinstance(x, bool) for x in g.nodes[v].values()) for v in g.nodes), "attributes", "attributes of the nodes")
    ctx.check(same(dense(g), t), "construction", "the decorated graph is not the graph state with its local Cliffords", graph=key(g), vops=vops, how=how)
    return g, t


def refuse(ctx, g, fn, what):
    k = key(g)
    try:
        fn()
    except ValueError:
        ctx.count("refused")
    else:
        ctx.fail("not-refused", what, graph=k)
    ctx.check(key(g) == k, "refused-changed", f"refused call changed the graph state: {what}", graph=k)


def statevector(ctx, g, t, what):
    sv = g.to_statevector()
    ctx.count("statevectors")
    ctx.check(sv.nqubit == len(g.nodes) and same(sv.flatten(), t), "statevector", f"to_statevector {what}", graph=key(g))


def vops_of(ctx, g, t):
    k = key(g)
    vo = g.extract_vops()
    ctx.check(key(g) == k, "extract-changed", "extract_vops changed the graph state")
    nodes = list(g.nodes)
    ctx.check(set(vo) == set(nodes), "extract", "nodes of extract_vops")
    u = np.asarray(ref.graph_state(nodes, list(g.edges))).reshape((2,) * len(nodes))
    for j, v in enumerate(nodes):
        u = ref.apply(ref.CLIFFORD[vo[v].value], [j], u)
    ctx.check(same(u, t), "extract", "extract_vops", graph=k, vops=vo)
    ctx.count("vops")
    h = GraphState(nodes=nodes, edges=list(g.edges), vops=vo)
    ctx.check(same(dense(h), t), "extract", "apply_vops(extract_vops())", graph=k)


PROJ = {"x": ref.X, "y": ref.Y, "z": ref.Z}


def step(ctx, rng, g, t):
    nodes = list(g.nodes)
    k0 = key(g)
    v = gen.pick(rng, nodes)
    ax = nodes.index(v)
    op = gen.pick(rng, ("gate", "gate", "vops", "e1", "e2", "fill", "measure", "measure", "refuse"))
    if op == "gate":
        name = gen.pick(rng, ("h", "s", "z", "flip_fill", "x"))
        if name == "x":
            g.apply_vops({v: Clifford.X})
            m = ref.X
        else:
            getattr(g, name)(v)
            m = {"h": ref.H, "s": ref.S, "z": ref.Z, "flip_fill": ref.H}[name]
        t = ref.apply(m, [ax], t)
        ctx.count("gates")
        op = name
    elif op == "vops":
        vo = {w: Clifford(int(rng.integers(24))) for w in nodes if gen.chance(rng, 0.5)}
        g.apply_vops(vo)
        for w, c in vo.items():
            t = ref.apply(ref.CLIFFORD[c.value], [nodes.index(w)], t)
        ctx.count("vops")
    elif op == "e1":
        loops = [w for w in nodes if g.nodes[w]["loop"]]
        if loops:
            g.equivalent_graph_e1(gen.pick(rng, loops))
            ctx.count("rules")
    elif op == "e2":
        es = [e for e in g.edges if not g.nodes[e[0]]["loop"] and not g.nodes[e[1]]["loop"]]
        if es:
            e = gen.pick(rng, es)
            g.equivalent_graph_e2(*(e if gen.chance(rng, 0.5) else e[::-1]))
            ctx.count("rules")
    elif op == "fill":
        r = g.equivalent_fill_node(v)
        alone = not list(g.neighbors(v))
        ctx.check(type(r) is int and r in (0, 1, 2), "fill", "result of equivalent_fill_node")
        ctx.check((r == 1) == g.nodes[v]["hollow"] and (r != 1 or alone), "fill", "equivalent_fill_node returned the wrong status or did not fill the node", graph=k0, node=v, result=r)
        ctx.count("fills")
    elif op == "measure" and len(nodes) > 1:
        a = gen.pick(rng, "xyz")
        choice = int(rng.integers(2))
        amps = [ref.apply((ref.I2 + s * PROJ[a]) / 2, [ax], t) for s in (1, -1)]
        probs = [float(np.linalg.norm(x) ** 2) / float(np.linalg.norm(t) ** 2) for x in amps]
        f = getattr(g, f"measure_{a}")
        r = f(v) if choice == 0 and gen.chance(rng, 0.3) else f(v, choice=choice)
        ctx.count("measurements")
        ctx.check(r in (0, 1), "outcome", "measurement outcome")
        if min(probs) > 1e-9:
            ctx.count("random_outcomes")
            ctx.check(abs(probs[0] - 0.5) < 1e-9, "oracle", "probability of a stabilizer state")
            ctx.check(r == choice, "choice", f"measure_{a} ignored the requested outcome", graph=k0, node=v, choice=choice)
        else:
            ctx.count("fixed_outcomes")
            ctx.check(probs[r] > 0.5, "impossible", f"measure_{a} returned an impossible outcome", graph=k0, node=v, outcome=r)
        nodes.remove(v)
        ctx.check(list(g.nodes) == nodes, "nodes", "nodes after a measurement", graph=k0)
        # the rest is the state of the other qubits: contract the measured one
        vec = ref.eigvec(PROJ[a], r)
        t = np.tensordot(np.conj(vec), amps[r], axes=(0, ax))
        t = t / np.linalg.norm(t)
        op = f"m{a}{choice}"
    elif op == "refuse":
        which = int(rng.integers(4))
        if which == 0:
            ws = [w for w in nodes if not g.nodes[w]["loop"]]
            if ws:
                refuse(ctx, g, lambda: g.equivalent_graph_e1(gen.pick(rng, ws)), "E1 on a node without loop")
        elif which == 1:
            ps = [p for p in itertools.combinations(nodes, 2) if not g.has_edge(*p)]
            if ps:
                refuse(ctx, g, lambda: g.equivalent_graph_e2(*gen.pick(rng, ps)), "E2 on unconnected nodes")
        elif which == 2:
            ps = [p for p in g.edges if g.nodes[p[0]]["loop"] or g.nodes[p[1]]["loop"]]
            if ps:
                p = gen.pick(rng, ps)
                refuse(ctx, g, lambda: g.equivalent_graph_e2(*(p if gen.chance(rng, 0.5) else p[::-1])), "E2 on nodes with a loop")
        else:
            refuse(ctx, g, lambda: getattr(g, gen.pick(rng, ("measure_x", "measure_y", "measure_z")))(v, choice=gen.pick(rng, (2, -1, 3))), "outcome that is not 0 or 1")
    if g.edges and k0 != key(g):
        ctx.nontrivial((k0, op, v))
    ctx.check(same(dense(g), t), f"after-{op[0] if op.startswith('m') else op}", f"state after {op} on node {v}", before=k0, after=key(g))
    return t


def history(ctx, rng, i):
    g, t = build(ctx, rng)
    ctx.count("histories")
    ghost = None
    for _ in range(int(rng.integers(5, 26))):
        if not g.nodes:
            break
        if gen.chance(rng, 0.06):
            ghost = (g.copy(), key(g))
            ctx.check(type(ghost[0]) is GraphState and key(ghost[0]) == ghost[1], "copy", "copy of a graph state")
            ctx.count("copies")
            if gen.chance(rng, 0.5):  # continue on the copy, the original must not change
                g, ghost = ghost[0], (g, ghost[1])
        t = step(ctx, rng, g, t)
        if gen.chance(rng, 0.15):
            statevector(ctx, g, t, "during a history")
            vops_of(ctx, g, t)
        if ghost:
            ctx.check(key(ghost[0]) == ghost[1], "copy-changed", "an operation on a copy changed the original, or conversely")
    statevector(ctx, g, t, "at the end of a history")
    vops_of(ctx, g, t)


def small(ctx, rng, i):
    """Every decoration of every graph on three nodes, every measurement and gate (rotating over the cases)."""
    pairs = [(0, 1), (0, 2), (1, 2)]
    edges = [e for k, e in enumerate(pairs) if i >> k & 1]
    deco = [(i >> (3 + 3 * v)) & 7 for v in range(3)]

    def make():
        g = GraphState(nodes=[0, 1, 2], edges=edges)
        for v in range(3):
            g.nodes[v]["sign"], g.nodes[v]["loop"], g.nodes[v]["hollow"] = (bool(deco[v] >> b & 1) for b in range(3))
        return g

    g = make()
    k0 = key(g)
    t = dense(g)
    statevector(ctx, g, t, "of a decorated graph")
    ctx.nontrivial(k0)
    for name, m in (("h", ref.H), ("s", ref.S), ("z", ref.Z)):
        for v in range(3):
            h = make()
            getattr(h, name)(v)
            ctx.check(same(dense(h), ref.apply(m, [v], t)), "gate", f"{name} on node {v}", graph=k0)
            ctx.count("gates")
    for v in range(3):
        h = make()
        if h.nodes[v]["loop"]:
            h.equivalent_graph_e1(v)
            ctx.check(same(dense(h), t), "e1", f"E1 on node {v}", graph=k0)
            ctx.count("rules")
        h = make()
        r = h.equivalent_fill_node(v)
        ctx.check(same(dense(h), t) and h.nodes[v]["hollow"] == (r == 1), "fill", f"equivalent_fill_node on node {v}", graph=k0)
        ctx.count("fills")
    for a, b in edges:
        h = make()
        if not h.nodes[a]["loop"] and not h.nodes[b]["loop"]:
            h.equivalent_graph_e2(b, a) if i & 1 else h.equivalent_graph_e2(a, b)
            ctx.check(same(dense(h), t), "e2", f"E2 on nodes {a}, {b}", graph=k0)
            ctx.count("rules")
    for v in range(3):
        for a in "xyz":
            for choice in (0, 1):
                h = make()
                r = getattr(h, f"measure_{a}")(v, choice)
                out = [np.tensordot(np.conj(ref.eigvec(PROJ[a], s)), t, axes=(0, v)) for s in (0, 1)]
                pr = [np.linalg.norm(x) ** 2 for x in out]
                ctx.check(pr[r] > 1e-9, "impossible", f"measure_{a} of node {v} returned an impossible outcome", graph=k0)
                if min(pr) > 1e-9:
                    ctx.check(r == choice, "choice", f"measure_{a} of node {v} ignored the requested outcome {choice}", graph=k0)
                    ctx.count("random_outcomes")
                else:
                    ctx.count("fixed_outcomes")
                ctx.check(same(dense(h), out[r]), "measured", f"state after measure_{a} of node {v} with outcome {r}", graph=k0)
                ctx.count("measurements")


def local_complement(ctx, rng, i):
    """local_complement is the graph operation of that name, and leaves decorations alone."""
    g, _ = build(ctx, rng)
    v = gen.pick(rng, list(g.nodes))
    k0 = key(g)
    nb = sorted(g.neighbors(v))
    before = {frozenset(e) for e in g.edges}
    g.local_complement(v)
    want = before ^ {frozenset(e) for e in itertools.combinations(nb, 2)}
    k1 = key(g)
    ctx.nontrivial(k0)
    ctx.check(k1[0] == k0[0] and k1[1] == frozenset(want), "local-complement", f"local complementation around {v}", before=k0, after=k1)
    iso = g.isolated_nodes()
    ctx.check(isinstance(iso, list) and set(iso) == {w for w in g.nodes if not any(w in e for e in want)} and len(set(iso)) == len(iso), "isolated", "isolated_nodes", graph=k1)
    ctx.count("rules")


FAMILIES = [
    Family("history", history, 260, 8000),
    Family("small", small, 256, 4096, exhaustive=True),
    Family("complement", local_complement, 80, 2000),
]
