"""Every flow graphix returns satisfies its definition; gflows and Pauli flows are focused and of minimal depth."""

import flowref
import gen
from core import Family, Skip
from graphix.measurements import PauliMeasurement

ID = "P12"
QUICK_SCALE = 3
RULE = (
    "Open graphs from five sources (uniform random, planted gflow/Pauli flow up to 30 nodes, layered causal, transpiled circuits, axis/plane-labelled). "
    "Oracle: an independent implementation of the definitions C0-C3, G1-G5, P1-P9, of the order's well-formedness and of focusing; minimal depth against "
    "brute force over all correction sets (<= 12 non-inputs). Non-trivial: a flow with at least two measured layers or an anachronical correction was returned; distinct = flow."
)
ASSUMPTIONS = ["depth minimality is checked up to 12 non-input nodes", "propositions are those of Browne et al. 2007 / Backens et al. 2021; focusing is Definition 4.3 of Simmons 2021"]
FLOORS = {"flows_checked": 900, "pauli_flows": 250, "gflows": 250, "causal_flows": 150, "deep_flows": 300, "anachronical": 40, "depth_compared": 400}
WARM = ()
FINDERS = {"causal": "to_causalflow", "gflow": "to_gflow", "pauli": "to_pauliflow"}
CLASSES = {"causal": "CausalFlow", "gflow": "GFlow", "pauli": "PauliFlow"}


def key(og):
    return repr((sorted(og.graph.nodes), sorted(tuple(sorted(e)) for e in og.graph.edges), og.input_nodes, og.output_nodes, sorted(og.measurements.items(), key=lambda t: t[0]), og.output_cliffords))


def examine(ctx, og, kind, *, brute=12):
    """Call the finder and check whatever it returns."""
    before = key(og)
    f = getattr(og, FINDERS[kind] + "_or_none")()
    ctx.check(key(og) == before, "finder-mutates", f"{kind} flow finding changed the open graph", before=before, after=key(og))
    if f is None:
        ctx.count("no_flow")
        return None
    what = f"{kind} flow {dict(f.correction_function)} layers {f.partial_order_layers} of {before}"
    ctx.check(type(f).__name__ == CLASSES[kind], "flow-class", f"{type(f).__name__} returned for {kind}")
    ctx.check(f.og is og or key(f.og) == before, "flow-og", "flow refers to another open graph", flow=what)
    errs = flowref.flow_errors(og, f.correction_function, f.partial_order_layers, kind)
    ctx.check(not errs, "definition", f"returned flow violates {sorted(errs)}", flow=what)
    if kind != "causal":
        ctx.check(flowref.is_focused(og, f.correction_function, kind), "not-focused", "returned flow is not focused", flow=what)
    ctx.count("flows_checked")
    ctx.count({"causal": "causal_flows", "gflow": "gflows", "pauli": "pauli_flows"}[kind])
    measured_layers = len(f.partial_order_layers) - bool(og.output_nodes)
    anachronical = False
    if kind == "pauli":
        d = flowref.depth(f.partial_order_layers)
        anachronical = any(v != u and d[v] >= d[u] for u, p in f.correction_function.items() for v in p)
        ctx.count("anachronical", anachronical)
    if measured_layers >= 2:
        ctx.count("deep_flows")
    if measured_layers >= 2 or anachronical:
        ctx.nontrivial(what)
    ctx.distinct("layers_seen", [len(x) for x in f.partial_order_layers])
    if len(og.graph.nodes) - len(og.input_nodes) <= brute:
        best = flowref.maximal_layers(og, kind)
        ctx.check(best is not None and len(best) == len(f.partial_order_layers), "depth", f"{len(f.partial_order_layers)} layers, {None if best is None else len(best)} suffice", flow=what)
        ctx.count("depth_compared")
    return f


def small(ctx, rng, i):
    kind = gen.pick(rng, tuple(FINDERS))
    n = int(rng.integers(1, 10))
    no = int(rng.integers(0, min(n, 5) + 1))
    ni = int(rng.integers(0, min(n, 3) + 1))
    planes = gen.PLANES if kind != "causal" else gen.PLANES[:1]
    po = float(gen.pick(rng, (0.3, 0.6, 1.0))) if kind == "pauli" else 0
    og = gen.random_opengraph(rng, n, ni, no, pauli_obj=po, edge_p=float(gen.pick(rng, (0.15, 0.3, 0.5))), planes=planes)
    if rng.random() < 0.3:
        og = gen.as_labels(og)
    ctx.sample(key(og))
    examine(ctx, og, kind)


def planted(ctx, rng, i):
    pauli = rng.random() < 0.5
    big = rng.random() < 0.25
    og, cf, layers = gen.planted_opengraph(
        rng, int(rng.integers(1, 26 if big else 9)), int(rng.integers(0, 6)), xy=float(gen.pick(rng, (0.3, 0.6, 1.0))), density=float(gen.pick(rng, (0.2, 0.5))),
        pauli_obj=float(gen.pick(rng, (0.3, 0.7, 1.0))) if pauli else 0, objects=rng.random() < 0.6,
    )  # fmt: skip
    if big:
        ctx.count("big_graphs")
    if not pauli:
        examine(ctx, og, "gflow")
    examine(ctx, og, "pauli")


def layered(ctx, rng, i):
    og = gen.layered_opengraph(rng, int(rng.integers(1, 6)), int(rng.integers(1, 25)))
    examine(ctx, og, "causal", brute=9)
    examine(ctx, og, "gflow", brute=9)


def circuits(ctx, rng, i):
    c = gen.circuit(rng, int(rng.integers(1, 5)), int(rng.integers(1, 10)), exclude=("ccx",) if rng.random() < 0.8 else ())
    og = c.transpile().pattern.to_opengraph()
    if rng.random() < 0.5:
        og = og.infer_pauli_measurements()
    kinds = ["pauli"] if any(isinstance(m, PauliMeasurement) for m in og.measurements.values()) else ["causal", "gflow"]
    if len(og.graph.nodes) > 60:
        raise Skip("large")
    for k in kinds:
        f = examine(ctx, og, k, brute=9)
        ctx.check(f is not None, "circuit-flow-missing", f"a transpiled circuit has no {k} flow", circuit=gen.describe(c))


FAMILIES = [
    Family("small", small, 12000, 900000),
    Family("planted", planted, 2500, 150000),
    Family("layered", layered, 1500, 30000),
    Family("circuits", circuits, 300, 8000),
]
