"""Fusion networks: a decomposition of every graph into clusters of the declared kind and size."""

import itertools
import math
from collections import Counter

import networkx as nx
import numpy as np

import gen
from core import Family
from graphix.extraction import ResourceGraph, ResourceType, create_resource_graph, fusion_nodes, graph_to_fusion_network
from graphix.graphsim import GraphState

ID = "P32"
QUICK_SCALE = 8
RULE = (
    "All graphs with up to 5 nodes (quick) and random graphs of every density up to 40 nodes (trees, cycles, grids, complete, regular, disconnected; any labels and insertion order, GraphState included) with random bounds on the cluster sizes. "
    "Oracle: the edges of the clusters partition the edges of the graph, every node is covered, stars and paths have the declared type, sizes respect the bounds, fusion_nodes are the shared nodes. Non-trivial: >= 2 clusters; distinct = graph and bounds."
)
ASSUMPTIONS = ["bounds are at least 3 for GHZ clusters and 2 for linear clusters: smaller ones cannot hold an edge or a cycle"]
FLOORS = {"networks": 2500, "ghz": 4000, "linear": 150, "bounded": 800, "cycles": 400, "fusions": 2000, "isolated": 300}
WARM = ()


def examine(ctx, g, ghz, lin, fuse=True):
    before = (list(g.nodes), sorted(map(repr, g.edges)))
    kw = {}
    if ghz is not None:
        kw["max_ghz"] = ghz
    if lin is not None:
        kw["max_lin"] = lin
    out = graph_to_fusion_network(g, **kw)
    what = {"edges": list(g.edges), "nodes": list(g.nodes), "bounds": kw}
    ctx.check((list(g.nodes), sorted(map(repr, g.edges))) == before, "argument-modified", "the graph was changed", **what)
    ctx.check(isinstance(out, list) and all(type(c) is ResourceGraph for c in out), "result-type", repr(out))
    edges = Counter(frozenset(e) for c in out for e in c.graph.edges)
    ctx.check(edges == Counter(frozenset(e) for e in g.edges), "edge-partition", "the clusters do not partition the edges", clusters=[list(c.graph.edges) for c in out], **what)
    covered = {v for c in out for v in c.graph.nodes}
    ctx.check(covered == set(g.nodes), "node-cover", f"covered {covered}", **what)
    singles = Counter(v for c in out for v in c.graph.nodes if c.graph.number_of_edges() == 0)
    ctx.check(all(g.degree(v) == 0 and n == 1 for v, n in singles.items()), "empty-cluster", f"clusters without edges: {singles}", **what)
    for c in out:
        n, m = c.graph.number_of_nodes(), c.graph.number_of_edges()
        deg = sorted(d for _, d in c.graph.degree)
        desc = f"{c.cltype} {list(c.graph.edges)}"
        ctx.check(m == n - 1 and nx.is_connected(c.graph), "cluster-shape", desc, **what)
        if c.cltype is ResourceType.GHZ:
            ctx.check(n == 1 or deg[-1] == n - 1, "cluster-shape", f"not a star: {desc}", **what)
            ctx.check(ghz is None or n <= ghz, "cluster-size", desc, **what)
            ctx.count("ghz")
        else:
            ctx.check(c.cltype is ResourceType.LINEAR and deg[-1] <= 2, "cluster-shape", f"not a path: {desc}", **what)
            ctx.check(n >= 4, "cluster-shape", f"linear cluster with {n} nodes", **what)
            ctx.check(lin is None or n <= lin, "cluster-size", desc, **what)
            ctx.count("linear")
    if fuse:
        for a, b in itertools.islice(itertools.combinations(out, 2), 12):
            f = fusion_nodes(a, b)
            ctx.check(len(set(f)) == len(f) and set(f) == set(a.graph.nodes) & set(b.graph.nodes), "fusion-nodes", f"{f}", a=list(a.graph.edges), b=list(b.graph.edges))
            ctx.check(set(fusion_nodes(b, a)) == set(f) and fusion_nodes(a, a) == [], "fusion-nodes", "not symmetric")
            ctx.check(a != b and a == ResourceGraph(a.cltype, a.graph.copy()), "cluster-equality", "")
            ctx.count("fusions")
    ctx.count("networks")
    ctx.count("bounded", ghz is not None or lin is not None)
    ctx.count("cycles", g.number_of_edges() >= g.number_of_nodes())
    ctx.count("isolated", any(d == 0 for _, d in g.degree))
    if len(out) >= 2:
        ctx.nontrivial((sorted(map(sorted, g.edges)), len(g), ghz, lin))
        ctx.sample([f"{c.cltype}{list(c.graph.edges)}" for c in out])
    return out


def small(ctx, rng, i):
    """Case i: a block of the graphs with at most 5 nodes."""
    block = 64
    n = 5 if i < 16 else 4
    pairs = list(itertools.combinations(range(n), 2))
    start = (i if n == 5 else i - 16) * block
    for code in range(start, min(start + block, 1 << len(pairs))):
        order = [int(x) for x in rng.permutation(n)]
        g = nx.Graph()
        g.add_nodes_from(order)
        es = [p for k, p in enumerate(pairs) if code >> k & 1]
        g.add_edges_from(es[k] for k in rng.permutation(len(es)))
        examine(ctx, g, gen.pick(rng, (None, 3, 4, 5)), gen.pick(rng, (None, 2, 3, 4)), fuse=code % 5 == 0)


def some_graph(rng):
    n = int(rng.integers(1, 41))
    k = rng.random()
    seed = int(rng.integers(2**31))
    if k < 0.45:
        g = nx.gnp_random_graph(n, float(rng.random()) ** 2, seed=seed)
    elif k < 0.55:
        g = nx.random_labeled_tree(n, seed=seed)
    elif k < 0.65:
        g = nx.cycle_graph(n + 2)
    elif k < 0.75:
        g = nx.convert_node_labels_to_integers(nx.grid_2d_graph(int(rng.integers(1, 7)), int(rng.integers(1, 7))))
    elif k < 0.8:
        g = nx.complete_graph(int(rng.integers(1, 12)))
    elif k < 0.85:
        g = nx.path_graph(n)
    elif k < 0.92:
        g = nx.random_regular_graph(3, 2 * int(rng.integers(2, 12)), seed=seed)
    else:
        g = nx.disjoint_union(nx.cycle_graph(int(rng.integers(3, 7))), nx.star_graph(int(rng.integers(0, 7 if rng.random() < 0.7 else 20))))
    lab = gen.labels(rng, len(g)) if gen.chance(rng, 0.6) else [int(x) for x in rng.permutation(len(g))]
    nodes = list(g.nodes)
    cls = GraphState if gen.chance(rng, 0.25) else nx.Graph
    h = cls()
    names = dict(zip(nodes, lab, strict=True))
    h.add_nodes_from(names[v] for v in np.array(nodes)[rng.permutation(len(nodes))].tolist())
    es = list(g.edges)
    h.add_edges_from((names[es[k][0]], names[es[k][1]]) for k in rng.permutation(len(es)))
    return h


def larger(ctx, rng, i):
    g = some_graph(rng)
    ghz = gen.pick(rng, (None, math.inf, int(rng.integers(3, 12))))
    lin = gen.pick(rng, (None, math.inf, int(rng.integers(2, 12))))
    examine(ctx, g, ghz, lin)


def pieces(ctx, rng, i):
    nodes = gen.labels(rng, int(rng.integers(1, 9)))
    r = create_resource_graph(nodes)
    ctx.check(r.cltype is ResourceType.LINEAR and list(r.graph.nodes) == nodes and {frozenset(e) for e in r.graph.edges} == {frozenset(p) for p in itertools.pairwise(nodes)}, "create", f"linear {nodes}")
    root = gen.pick(rng, nodes)
    r = create_resource_graph(nodes, root=root)
    ctx.check(r.cltype is ResourceType.GHZ and set(r.graph.nodes) == set(nodes) and {frozenset(e) for e in r.graph.edges} == {frozenset((root, v)) for v in nodes if v != root}, "create", f"GHZ {nodes} root {root}")
    if len(nodes) >= 4:
        other = [nodes[k] for k in rng.permutation(len(nodes))]
        pair = gen.pick(rng, ((create_resource_graph(nodes), create_resource_graph(other)), (create_resource_graph(nodes, root=nodes[0]), create_resource_graph(other, root=nodes[1]))))
        same = {frozenset(e) for e in pair[0].graph.edges} == {frozenset(e) for e in pair[1].graph.edges}
        ctx.check((pair[0] == pair[1]) is same, "cluster-equality", f"{pair[0].graph.edges} and {pair[1].graph.edges}")
        ctx.check(set(fusion_nodes(*pair)) == (set() if same else set(nodes)), "fusion-nodes", f"{nodes} and {other}")
    ctx.check([str(t) for t in ResourceType] == ["GHZ", "LINEAR", "NONE"], "create", "names")
    for fn in (lambda: fusion_nodes(r, r.graph), lambda: fusion_nodes(None, r), lambda: r == 3):
        try:
            fn()
            ctx.fail("not-refused", "object that is not a cluster")
        except TypeError:
            pass
    ctx.check(graph_to_fusion_network(nx.Graph()) == [], "empty-graph", "")
    ctx.check((r == ResourceGraph(ResourceType.LINEAR, r.graph)) is False and (r == create_resource_graph([*nodes, max(nodes) + 1], root=root)) is False, "cluster-equality", "different clusters are equal")


FAMILIES = [
    Family("small", small, 17, 17, exhaustive=True),
    Family("larger", larger, 5000, 60000, cpu_limit=30),
    Family("pieces", pieces, 60, 600),
]
