"""Open graphs: validation, comparison, neighbourhoods and composition mean what they document."""

import math

import networkx as nx
import numpy as np

import flowref
import gen
import mon
import ref
from core import Family, Skip
from graphix.clifford import Clifford
from graphix.fundamentals import Axis, Plane
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.opengraph import OpenGraph, OpenGraphError

ID = "P16"
QUICK_SCALE = 6
RULE = (
    "Random open graphs (isolated nodes, overlapping inputs/outputs, empty graphs, output Cliffords, measurement or label decorations) and random partial mappings, valid or broken. "
    "Oracles: the documented composition rules recomputed from sets; for sequential composition the composed outcome-0 map equals the composition of the maps; "
    "comparison under single mutations; set-based neighbourhoods; documented validity of constructors. Non-trivial: at least one merged node (compose) or a mutation; distinct = inputs."
)
ASSUMPTIONS = ["semantic comparison is for output-to-input merges without shared edges and without Cliffords on merged nodes; other merges are compared with the documented structural rules"]
FLOORS = {"compositions": 600, "merged_nodes": 600, "semantic": 200, "refused": 300, "constructors": 500, "comparisons": 500, "neighborhoods": 500, "merged_cliffords": 60, "measured_merges": 60}
WARM = ()


def random_og(rng, *, lo=0, hi=6, cliffords=0.3, labels=True, planes=gen.PLANES):
    n = int(rng.integers(lo, hi + 1))
    ni, no = int(rng.integers(0, n + 1)), int(rng.integers(0, n + 1))
    if rng.random() < 0.6:
        ni, no = min(ni, 2), min(no, 3)
    og = gen.random_opengraph(rng, n, ni, no, pauli_obj=0.4, edge_p=0.4, cliffords=cliffords, planes=planes)
    if labels and rng.random() < 0.2:
        og = gen.as_labels(og)
    return og


def measured_after(m, c):
    """Apply Clifford c, then measure m: the reference observable."""
    u = ref.CLIFFORD[c.value]
    return u.conj().T @ ref.obs(m) @ u


def same_measurement(a, b):
    if isinstance(a, (Plane, Axis)) or isinstance(b, (Plane, Axis)):
        return a == b
    return type(a) is type(b) and np.allclose(ref.obs(a), ref.obs(b), atol=1e-7) and getattr(a, "plane", None) == getattr(b, "plane", None)


def compose(ctx, rng, i):
    a, b = random_og(rng), random_og(rng)
    va, vb = sorted(a.graph.nodes), sorted(b.graph.nodes)
    if isinstance(next(iter(a.measurements.values()), None), (Plane, Axis)) != isinstance(next(iter(b.measurements.values()), None), (Plane, Axis)):
        a, b = gen.as_labels(a) if all(not isinstance(m, (Plane, Axis)) for m in a.measurements.values()) else a, gen.as_labels(b) if all(not isinstance(m, (Plane, Axis)) for m in b.measurements.values()) else b
    mapping = {}
    for v in [int(x) for x in rng.permutation(vb)]:
        if rng.random() < 0.5:
            r = rng.random()
            pool = va if r < 0.7 else list(range(max([*va, 0]) + 6))
            pool = [u for u in pool if u not in mapping.values()]
            if r < 0.35:
                pool = [u for u in a.output_nodes if u not in mapping.values()]
            # when both nodes are measured, mostly give them the same measurement
            if pool:
                mapping[v] = gen.pick(rng, pool)
    meas_b = dict(b.measurements)
    for v, u in mapping.items():
        if v in meas_b and u in a.measurements and rng.random() < 0.8:
            meas_b[v] = a.measurements[u]
    b = OpenGraph(b.graph, b.input_nodes, b.output_nodes, meas_b, b.output_cliffords)
    bad = rng.random()
    broken = False
    if bad < 0.06:
        mapping[max([*vb, 0]) + 1] = max([*va, 0]) + 20
        broken = True
    elif bad < 0.12 and len(mapping) > 1:
        k = list(mapping)
        mapping[k[0]] = mapping[k[1]]
        broken = True
    ka, kb, km = mon.og_key(a), mon.og_key(b), repr(mapping)
    clash = [v for v, u in mapping.items() if v in b.measurements and u in a.measurements and not b.measurements[v].isclose(a.measurements[u])]
    desc = dict(a=ka, b=kb, mapping=mapping)
    try:
        c, full = a.compose(b, dict(mapping))
    except (ValueError, OpenGraphError) as e:
        ctx.check(broken or clash, "compose-refused", f"valid composition refused: {e}", **desc)
        ctx.count("refused")
        return
    ctx.check(not broken and not clash, "compose-accepted", "invalid mapping accepted", **desc)
    ctx.check((mon.og_key(a), mon.og_key(b)) == (ka, kb), "compose-mutates", "arguments modified", **desc)
    ctx.count("compositions")
    ctx.sample(repr(desc))
    # the complete mapping
    ctx.check(set(full) == set(b.graph.nodes) and all(full[v] == u for v, u in mapping.items()) and len(set(full.values())) == len(full), "complete-mapping", f"{full} does not extend {mapping} injectively", **desc)
    fresh = {full[v] for v in b.graph.nodes if v not in mapping}
    ctx.check(not fresh & (set(a.graph.nodes) | set(mapping.values())), "fresh-labels", f"fresh labels {fresh} collide", **desc)
    # V, E
    ctx.check(set(c.graph.nodes) == set(a.graph.nodes) | set(full.values()), "nodes", "nodes of the composition", **desc)
    edges = {frozenset(e) for e in a.graph.edges} | {frozenset((full[u], full[v])) for u, v in b.graph.edges}
    ctx.check({frozenset(e) for e in c.graph.edges} == edges, "edges", "edges of the composition", **desc)
    merged = set(full.values()) & set(a.graph.nodes)
    ctx.count("merged_nodes", len(merged))

    def ports(p1, p2):
        q = [full[v] for v in p2]
        return [u for u in p1 if u not in merged or u in q] + [u for u in q if u not in merged]

    ctx.check(list(c.input_nodes) == ports(a.input_nodes, b.input_nodes), "inputs", f"{c.input_nodes} instead of {ports(a.input_nodes, b.input_nodes)}", **desc)
    outs = ports(a.output_nodes, b.output_nodes)
    ctx.check(list(c.output_nodes) == outs, "outputs", f"{c.output_nodes} instead of {outs}", **desc)
    # measurements and Cliffords
    inv = {u: v for v, u in full.items()}
    ctx.check(set(c.measurements) == set(c.graph.nodes) - set(outs), "measured-nodes", "measured nodes of the composition", **desc)
    for u, m in c.measurements.items():
        v = inv.get(u)
        ma, mb = a.measurements.get(u), b.measurements.get(v) if v is not None else None
        src = mb if mb is not None else ma
        cliff = None
        if ma is None and u in a.graph:
            cliff = a.output_cliffords.get(u)
        elif mb is None and v is not None:
            cliff = b.output_cliffords.get(v)
        if u in merged:
            ctx.count("measured_merges")
        if cliff is None:
            ctx.check(same_measurement(m, src), "merged-measurement", f"node {u} is measured as {m} instead of {src}", **desc)
        elif not isinstance(m, (Plane, Axis)):
            ctx.count("merged_cliffords")
            ctx.check(np.allclose(ref.obs(m), measured_after(src, cliff), atol=1e-7), "merged-clifford", f"node {u}: {m} is not {src} after {cliff}", **desc)
    for u in outs:
        want = ref.I2
        if u in a.output_cliffords:
            want = ref.CLIFFORD[a.output_cliffords[u].value] @ want
        v = inv.get(u)
        if v is not None and v in b.output_cliffords:
            want = ref.CLIFFORD[b.output_cliffords[v].value] @ want
            if u in a.output_cliffords:
                ctx.count("output_clifford_products")
        got = ref.CLIFFORD[c.output_cliffords[u].value] if u in c.output_cliffords else ref.I2
        ctx.check(ref.phase_dist(got, want) < 1e-7, "output-clifford", f"Clifford of output {u}", **desc)
    if merged:
        ctx.nontrivial(repr(desc))


def sequential(ctx, rng, i):
    """Outputs of `a` merged with inputs of `b`: the composed map is the composition of the maps."""
    a = random_og(rng, lo=1, hi=5, labels=False)
    b = random_og(rng, lo=1, hi=5, labels=False)
    outs = [u for u in a.output_nodes if u not in a.output_cliffords]
    k = int(rng.integers(0, min(len(outs), len(b.input_nodes)) + 1))
    if k == 0 and rng.random() < 0.7:
        raise Skip
    us = [int(x) for x in rng.permutation(outs)[:k]] if k else []
    vs = [int(x) for x in rng.permutation(b.input_nodes)[:k]] if k else []
    mapping = dict(zip(vs, us))
    inv = {u: v for v, u in mapping.items()}
    # no edge may be present on both sides
    for x in range(k):
        for y in range(x):
            if a.graph.has_edge(us[x], us[y]) and b.graph.has_edge(vs[x], vs[y]):
                raise Skip
    c, full = a.compose(b, mapping)
    ka, kb = mon.og_map(a), mon.og_map(b)
    ctx.count("semantic")
    # tensors: a: outputs_a x inputs_a ; b: outputs_b x inputs_b
    ta = ka.reshape([2] * (len(a.output_nodes) + len(a.input_nodes)))
    tb = kb.reshape([2] * (len(b.output_nodes) + len(b.input_nodes)))
    ax_a = [("ao", u) for u in a.output_nodes] + [("ai", u) for u in a.input_nodes]
    ax_b = [("bo", v) for v in b.output_nodes] + [("bi", v) for v in b.input_nodes]
    t = np.tensordot(ta, tb, axes=([ax_a.index(("ao", u)) for u in us], [ax_b.index(("bi", v)) for v in vs]))
    ax = [x for x in ax_a if not (x[0] == "ao" and x[1] in inv)] + [x for x in ax_b if not (x[0] == "bi" and x[1] in mapping)]
    # a merged output stays an output only if v is an output of b (then it is b's output axis)
    rows = [("ao", u) if u in a.output_nodes and u not in inv else ("bo", next(v for v, w in full.items() if w == u)) for u in c.output_nodes]
    cols = [("ai", u) if u in a.input_nodes else ("bi", next(v for v, w in full.items() if w == u)) for u in c.input_nodes]
    want = [*rows, *cols]
    ctx.check(sorted(want) == sorted(ax), "ports", f"composed ports {c.input_nodes} -> {c.output_nodes}", a=mon.og_key(a), b=mon.og_key(b), mapping=mapping)
    ref_map = t.transpose([ax.index(x) for x in want]).reshape(2 ** len(rows), 2 ** len(cols))
    d = ref.phase_dist(mon.og_map(c), ref_map)
    ctx.check(d < ref.TOL, "sequential-semantics", f"composed map differs from the composition ({d:.3g})", a=mon.og_key(a), b=mon.og_key(b), mapping=mapping, c=mon.og_key(c))
    ctx.nontrivial(repr((mon.og_key(a), mon.og_key(b), mapping)))


def constructors(ctx, rng, i):
    """The constructor accepts exactly the documented open graphs."""
    og = random_og(rng, hi=5)
    g, ins, outs, meas, oc = og.graph.copy(), list(og.input_nodes), list(og.output_nodes), dict(og.measurements), dict(og.output_cliffords)
    nodes = sorted(g.nodes)
    for _ in range(int(rng.integers(0, 3))):
        a = int(rng.integers(8))
        if a == 0 and meas:
            del meas[gen.pick(rng, sorted(meas))]
        elif a == 1:
            meas[gen.pick(rng, [*nodes, 99])] = gen.measurement(rng)
        elif a == 2:
            ins.append(gen.pick(rng, [*nodes, 98]))
        elif a == 3:
            outs.append(gen.pick(rng, [*nodes, 97]))
        elif a == 4 and outs:
            outs.pop(int(rng.integers(len(outs))))
        elif a == 5:
            oc[gen.pick(rng, [*nodes, 96])] = Clifford.H
        elif a == 6 and nodes:
            g.remove_nodes_from([gen.pick(rng, nodes)])
        elif a == 7:
            g.add_node(95)
    v = set(g.nodes)
    ok = (
        set(ins) <= v and set(outs) <= v and len(set(ins)) == len(ins) and len(set(outs)) == len(outs) and set(meas) == v - set(outs) and set(oc) <= set(outs)
    )  # fmt: skip
    try:
        OpenGraph(g, ins, outs, meas, oc)
        got = True
    except OpenGraphError:
        got = False
    ctx.check(got == ok, "constructor", f"constructor {'accepts' if got else 'rejects'} nodes={v} inputs={ins} outputs={outs} measured={sorted(meas)} cliffords={sorted(oc)}")
    ctx.count("constructors")


def comparison(ctx, rng, i):
    """isclose / is_equal_structurally under one mutation."""
    og = random_og(rng, lo=1, hi=5)
    g, ins, outs, meas, oc = og.graph.copy(), list(og.input_nodes), list(og.output_nodes), dict(og.measurements), dict(og.output_cliffords)
    h = nx.Graph()
    h.add_nodes_from(reversed(list(g.nodes)))
    h.add_edges_from((v, u) for u, v in reversed(list(g.edges)))
    a = int(rng.integers(8))
    nodes = sorted(g.nodes)
    eq_s = eq_c = True
    if a == 0 and len(nodes) > 1:
        u, v = (int(x) for x in rng.permutation(nodes)[:2])
        (h.remove_edge if h.has_edge(u, v) else h.add_edge)(u, v)
        eq_s = eq_c = False
    elif a == 1 and len(ins) > 1:
        ins = ins[::-1]
        eq_s = eq_c = False
    elif a == 2 and len(outs) > 1:
        outs = outs[::-1]
        eq_s = eq_c = False
    elif a == 3 and outs:
        u = gen.pick(rng, outs)
        old = oc.get(u)
        new = Clifford(int(rng.integers(24)))
        oc[u] = new
        eq_s = eq_c = old is new
    elif a in (4, 5) and meas:
        u = gen.pick(rng, sorted(meas))
        old = meas[u]
        if isinstance(old, BlochMeasurement):
            delta = float(gen.pick(rng, (1e-13, 0.1, 1e-3, -0.3)))
            meas[u] = BlochMeasurement(old.angle + delta, old.plane) if rng.random() < 0.6 else BlochMeasurement(old.angle, gen.pick(rng, gen.PLANES))
            eq_c = meas[u].plane == old.plane and math.isclose(meas[u].angle, old.angle, rel_tol=1e-9, abs_tol=0)
        elif isinstance(old, PauliMeasurement):
            meas[u] = PauliMeasurement(gen.pick(rng, gen.AXES), old.sign)
            eq_c = meas[u] == old
        else:
            meas[u] = gen.pick(rng, (*Plane, *Axis))
            eq_c = meas[u] is old
    elif a == 6:
        h.add_node(99)
        meas[99] = gen.measurement(rng) if not isinstance(next(iter(meas.values()), None), (Plane, Axis)) else Plane.XY
        eq_s = eq_c = False
    other = OpenGraph(h, ins, outs, meas, oc)
    desc = dict(a=mon.og_key(og), b=mon.og_key(other))
    ctx.count("comparisons")
    ctx.nontrivial(repr(desc))
    for x, y in ((og, other), (other, og)):
        ctx.check(x.is_equal_structurally(y) == eq_s, "structural-equality", f"is_equal_structurally should be {eq_s}", **desc)
        ctx.check(x.isclose(y) == eq_c, "isclose", f"isclose should be {eq_c}", **desc)


def neighborhoods(ctx, rng, i):
    og = random_og(rng, lo=1, hi=8)
    adj = flowref.adjacency(og.graph)
    s = gen.subset(rng, og.graph.nodes, float(rng.random()))
    ctx.count("neighborhoods")
    ctx.check(og.neighbors(s) == set().union(*(adj[v] for v in s)), "neighbors", f"neighbors({s})", og=mon.og_key(og))
    ctx.check(og.odd_neighbors(s) == flowref.odd(adj, s), "odd-neighbors", f"odd_neighbors({s})", og=mon.og_key(og))


FAMILIES = [
    Family("compose", compose, 5000, 250000),
    Family("sequential", sequential, 2500, 100000),
    Family("constructors", constructors, 2500, 80000),
    Family("comparison", comparison, 2500, 80000),
    Family("neighborhoods", neighborhoods, 1500, 40000),
]
