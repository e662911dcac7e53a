"""Flow finding is complete: a flow is reported exactly when one exists, and the three kinds are nested."""

from itertools import product

import networkx as nx

import flowref
import gen
from core import Family
from graphix.fundamentals import Axis, Plane
from graphix.opengraph import OpenGraph, OpenGraphError

ID = "P13"
QUICK_SCALE = 2
RULE = (
    "All labelled open graphs with <= 3 nodes (every edge set, input set, output set and plane/axis labelling), all XY open graphs with 4 nodes (thorough), random open graphs "
    "up to 12 nodes, and graphs with a planted flow up to 40 nodes. Oracle: brute force over all correction sets, greedy over layers (exact existence); a planted flow must be found; "
    "causal => gflow => Pauli flow, also after relabelling Pauli angles as axes. Non-trivial: a flow exists and some node needs a correction set of >= 2 nodes or >= 2 layers, or none exists although |I| <= |O|."
)
ASSUMPTIONS = ["existence is decided by enumeration up to 12 non-input nodes, by construction above"]
FLOORS = {"exist": 1000, "none": 1000, "planted_found": 300, "hierarchy": 300, "exhaustive_labelings": 4000}
WARM = ()
FINDERS = {"causal": "to_causalflow", "gflow": "to_gflow", "pauli": "to_pauliflow"}


def compare(ctx, og, kind, expected=None):
    f = getattr(og, FINDERS[kind] + "_or_none")()
    want = flowref.maximal_layers(og, kind, 13) is not None if expected is None else expected
    desc = (sorted(og.graph.nodes), sorted(og.graph.edges), list(og.input_nodes), list(og.output_nodes), dict(og.measurements))
    if want:
        ctx.check(f is not None, f"missed-{kind}", f"open graph has a {kind} flow but none was found", og=desc)
        ctx.count("exist")
        if any(len(p) > 1 for p in f.correction_function.values()) or len(f.partial_order_layers) > 2:
            ctx.nontrivial(desc)
    else:
        ctx.check(f is None, f"spurious-{kind}", f"{kind} flow reported but none exists", og=desc, flow=f and (dict(f.correction_function), f.partial_order_layers))
        ctx.count("none")
        if len(og.input_nodes) <= len(og.output_nodes):
            ctx.nontrivial(desc)
    return want


LABELS = (*Plane, *Axis)


def graphs(n):
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    for bits in product((0, 1), repeat=len(pairs)):
        g = nx.Graph()
        g.add_nodes_from(range(n))
        g.add_edges_from(p for p, b in zip(pairs, bits) if b)
        yield g


def shapes(n):
    return [(g, ins, outs) for g in graphs(n) for ins in product((0, 1), repeat=n) for outs in product((0, 1), repeat=n)]


TINY = shapes(0) + shapes(1) + shapes(2) + shapes(3)
FOUR = shapes(4)


def tiny(ctx, rng, i):
    """i enumerates (graph, inputs, outputs) on <= 3 nodes; inside, every labelling of the measured nodes."""
    g, ins, outs = TINY[i % len(TINY)]
    ins = [v for v, b in enumerate(ins) if b]
    outs = [v for v, b in enumerate(outs) if b]
    meas = [v for v in g.nodes if v not in outs]
    for lab in product(LABELS, repeat=len(meas)):
        og = OpenGraph(g, ins, outs, dict(zip(meas, lab)))
        ctx.count("exhaustive_labelings")
        compare(ctx, og, "pauli")
        if all(isinstance(x, Plane) for x in lab):
            compare(ctx, og, "gflow")
            compare(ctx, og, "causal")


def four(ctx, rng, i):
    """All XY-labelled open graphs on 4 nodes (thorough covers all; quick a random part), one random labelling each."""
    k = i if ctx.tier == "thorough" else int(rng.integers(len(FOUR)))
    g, ins, outs = FOUR[k % len(FOUR)]
    ins = [v for v, b in enumerate(ins) if b]
    outs = [v for v, b in enumerate(outs) if b]
    meas = [v for v in g.nodes if v not in outs]
    og = OpenGraph(g, ins, outs, dict.fromkeys(meas, Plane.XY))
    for kind in FINDERS:
        compare(ctx, og, kind)
    og = OpenGraph(g, ins, outs, {v: gen.pick(rng, LABELS) for v in meas})
    compare(ctx, og, "pauli")


def random(ctx, rng, i):
    kind = gen.pick(rng, tuple(FINDERS))
    n = int(rng.integers(4, 13))
    no = int(rng.integers(1, min(n, 6) + 1))
    ni = int(rng.integers(0, min(no, 4) + 1))
    planes = gen.PLANES if kind != "causal" else gen.PLANES[:1]
    po = float(gen.pick(rng, (0.4, 0.7, 1.0))) if kind == "pauli" else 0
    og = gen.random_opengraph(rng, n, ni, no, pauli_obj=po, edge_p=float(gen.pick(rng, (0.15, 0.25, 0.4))), planes=planes)
    ctx.sample(repr(dict(og.measurements)))
    compare(ctx, og, kind)


def near_miss(ctx, rng, i):
    """Planted flows with one edge toggled, one label changed or one more input."""
    og, _, _ = gen.planted_opengraph(rng, int(rng.integers(2, 8)), int(rng.integers(1, 5)), xy=float(gen.pick(rng, (0.4, 1.0))), pauli_obj=float(gen.pick(rng, (0, 0.6))), objects=False)
    g, ins, meas = og.graph.copy(), list(og.input_nodes), dict(og.measurements)
    a = rng.random()
    nodes = sorted(g.nodes)
    if a < 0.5:
        u, v = (int(x) for x in rng.permutation(nodes)[:2])
        (g.remove_edge if g.has_edge(u, v) else g.add_edge)(u, v)
    elif a < 0.8:
        v = gen.pick(rng, sorted(meas))
        meas[v] = gen.pick(rng, LABELS if any(isinstance(m, Axis) for m in meas.values()) else LABELS[:3])
    else:
        rest = [v for v in nodes if v not in ins]
        ins.append(gen.pick(rng, rest))
    og = OpenGraph(g, ins, list(og.output_nodes), meas)
    if not any(isinstance(m, Axis) for m in meas.values()):
        compare(ctx, og, "gflow")
        if all(m == Plane.XY for m in meas.values()):
            compare(ctx, og, "causal")
    compare(ctx, og, "pauli")


def planted(ctx, rng, i):
    pauli = float(gen.pick(rng, (0, 0.5, 1.0)))
    og, cf, layers = gen.planted_opengraph(rng, int(rng.integers(3, 36)), int(rng.integers(1, 8)), xy=float(gen.pick(rng, (0.3, 0.6, 1.0))), density=float(gen.pick(rng, (0.15, 0.4))), pauli_obj=pauli)
    kind = "pauli" if pauli else "gflow"
    errs = flowref.flow_errors(og, cf, layers, kind)
    assert not errs, errs
    compare(ctx, og, kind, True)
    ctx.count("planted_found")
    if not pauli:
        compare(ctx, og, "pauli", True)
        compare(ctx, og.infer_pauli_measurements(), "pauli", True)


def hierarchy(ctx, rng, i):
    """A causal flow is a gflow is a Pauli flow; the raising finders agree with the optional ones."""
    if rng.random() < 0.5:
        og = gen.layered_opengraph(rng, int(rng.integers(1, 5)), int(rng.integers(1, 14)))
    else:
        n = int(rng.integers(2, 9))
        no = int(rng.integers(1, n))
        og = gen.random_opengraph(rng, n, int(rng.integers(0, no + 1)), no, edge_p=0.3, planes=(Plane.XY,))
    found = {k: getattr(og, FINDERS[k] + "_or_none")() is not None for k in FINDERS}
    found["axes"] = og.infer_pauli_measurements().to_pauliflow_or_none() is not None
    ctx.check(not found["causal"] or found["gflow"], "hierarchy", "causal flow without gflow", og=dict(og.measurements))
    ctx.check(not found["gflow"] or found["pauli"], "hierarchy", "gflow without Pauli flow", og=dict(og.measurements))
    ctx.check(not found["pauli"] or found["axes"], "hierarchy", "Pauli flow lost when Pauli angles are read as axes", og=dict(og.measurements))
    ctx.count("hierarchy", found["axes"])
    for k, name in FINDERS.items():
        try:
            getattr(og, name)()
            ok = True
        except OpenGraphError:
            ok = False
        ctx.check(ok == found[k], "raising-finder", f"{name}() and {name}_or_none() disagree on existence", og=dict(og.measurements))
        # a flow of the wider class validates as such
    if found["causal"]:
        f = og.to_causalflow()
        errs = flowref.flow_errors(og, f.correction_function, f.partial_order_layers, "gflow")
        ctx.check(not errs, "hierarchy", f"causal flow is not a gflow: {errs}")


FAMILIES = [
    Family("tiny", tiny, len(TINY), len(TINY), exhaustive=True),
    Family("four", four, 5000, len(FOUR)),
    Family("random", random, 9000, 500000),
    Family("near_miss", near_miss, 6000, 400000),
    Family("planted", planted, 1500, 60000),
    Family("hierarchy", hierarchy, 2000, 60000),
]
