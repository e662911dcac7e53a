"""Patterns generated from flows are uniformly deterministic and implement the open graph's map."""

import numpy as np

import flowref
import gen
import mon
import ref
from core import Family, Skip
from graphix.clifford import Clifford
from graphix.measurements import PauliMeasurement
from graphix.opengraph import OpenGraph, OpenGraphError

ID = "P03"
RULE = (
    "Open graphs with planted or found causal/g/Pauli flows (all planes, signed Pauli axes, isolated and overlapping inputs/outputs, Cliffords on outputs), measured in random orders compatible with the flow. "
    "Oracle: the linear map obtained by projecting the graph state on the outcome-0 eigenstates; every branch equals it up to phase with the same weight, and it is proportional to an isometry. "
    "The real simulator's output state is compared too. Non-trivial: >= 2 measured nodes; distinct = open graph + order."
)
ASSUMPTIONS = ["branches beyond 24 per pattern are sampled"]
FLOORS = {"branches_compared": 6000, "patterns": 600, "pauli_kind": 200, "gflow_kind": 150, "causal_kind": 80, "simulated": 60, "refusals": 60}
WARM = "all"


def decorate(rng, og):
    oc = {v: Clifford(int(rng.integers(24))) for v in og.output_nodes if rng.random() < 0.4}
    return OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements, oc)


def sample_flow(rng):
    kind = gen.pick(rng, ("causal", "gflow", "gflow", "pauli", "pauli", "pauli"))
    if kind == "causal":
        og = gen.layered_opengraph(rng, int(rng.integers(1, 5)), int(rng.integers(1, 12 if rng.random() < 0.85 else 28)))
    elif rng.random() < 0.75:
        pauli = float(gen.pick(rng, (0.3, 0.7, 1.0))) if kind == "pauli" else 0
        og, _, _ = gen.planted_opengraph(
            rng, int(rng.integers(1, 9)) if rng.random() < 0.85 else int(rng.integers(9, 17)), int(rng.integers(0, 5)), xy=float(gen.pick(rng, (0.3, 0.7, 1.0))), pauli_obj=pauli, inputs="all" if rng.random() < 0.4 else None
        )
    else:
        r = gen.pauliflow_opengraph(rng, 3, 8, kind=kind)
        if r is None:
            raise Skip
        og = r[0]
    if rng.random() < 0.4:
        og = decorate(rng, og)
    f = {"causal": og.to_causalflow_or_none, "gflow": og.to_gflow_or_none, "pauli": og.to_pauliflow_or_none}[kind]()
    if f is None:
        raise Skip("completeness is P13")
    return kind, og, f


def deterministic(ctx, rng, og, p, what, limit=24):
    k0 = mon.og_map(og)
    n = len(og.measurements)
    gram = k0.conj().T @ k0
    c = 2.0**-n
    ctx.check(np.allclose(gram, c * np.eye(len(gram)), atol=1e-6 * c), "not-isometry", f"{what}: outcome-0 map of an open graph with flow is not proportional to an isometry", og=repr(og), edges=sorted(og.graph.edges))
    ctx.check(p.input_nodes == list(og.input_nodes) and p.output_nodes == list(og.output_nodes), "arity", f"{what}: inputs/outputs differ from the open graph", og=repr(og))
    ctx.check(set(ref.measured_nodes(p)) == set(og.measurements), "measured", f"{what}: measured nodes differ", og=repr(og))
    for res in ref.branches(ref.measured_nodes(p), rng, limit):
        k = mon.ref_kraus(p, res, what)
        ctx.count("branches_compared")
        d = ref.phase_dist(k * 2 ** (n / 2), k0 * 2 ** (n / 2))
        ctx.check(d < ref.TOL, "branch", f"{what}: branch differs from the open graph's map (distance {d:.3g})", outcomes=res, pattern=repr(p), og=repr(og))
    ctx.count("patterns")
    if n > 1:
        ctx.nontrivial(repr((p, og.measurements)))
    return k0


def flows(ctx, rng, i):
    kind, og, f = sample_flow(rng)
    ctx.count(f"{kind}_kind")
    order = [v for layer in reversed(f.partial_order_layers[bool(og.output_nodes) :]) for v in rng.permutation(sorted(layer)).tolist()]
    p = f.to_xzcorrections().to_pattern(order)
    ctx.check([c.node for c in p if c.kind.name == "M"] == order, "order", "requested measurement order not followed", order=order, pattern=repr(p))
    ctx.sample(repr(p))
    k0 = deterministic(ctx, rng, og, p, f"{kind} flow")
    if i % 8 == 0 and len(og.graph.nodes) <= 14 and og.output_nodes:
        psi = ref.haar_state(rng, len(og.input_nodes)) if og.input_nodes else np.ones(1, dtype=complex)
        st = p.simulate("statevector", input_state=psi, rng=rng) if og.input_nodes else p.simulate("statevector", rng=rng)
        d = ref.ray_dist(np.asarray(st.psi).reshape(-1), k0 @ psi)
        ctx.check(d < ref.TOL, "simulated", f"simulated output differs from the open graph's map ({d:.3g})", pattern=repr(p))
        ctx.count("simulated")


def to_pattern(ctx, rng, i):
    """OpenGraph.to_pattern: deterministic when it answers, refused exactly when there is no Pauli flow."""
    n = int(rng.integers(1, 8))
    no = int(rng.integers(0 if rng.random() < 0.1 else 1, min(n, 4) + 1))
    og = gen.random_opengraph(
        rng, n, int(rng.integers(0, no + 1)), no, pauli_obj=float(gen.pick(rng, (0, 0.5, 0.9))), edge_p=float(gen.pick(rng, (0.2, 0.4))),
        cliffords=0.3, planes=gen.PLANES if rng.random() < 0.6 else gen.PLANES[:1],
    )  # fmt: skip
    exists = flowref.maximal_layers(og, "pauli") is not None
    try:
        p = og.to_pattern()
    except OpenGraphError:
        ctx.check(not exists, "refused", "to_pattern refused an open graph with flow", og=repr(og), edges=sorted(og.graph.edges))
        ctx.count("refusals")
        return
    ctx.check(exists, "accepted", "to_pattern answered for an open graph without flow", og=repr(og), edges=sorted(og.graph.edges))
    deterministic(ctx, rng, og, p, "to_pattern")
    # the same computation after changing the representation of Pauli measurements
    if rng.random() < 0.5:
        q = og.infer_pauli_measurements()
        if any(isinstance(m, PauliMeasurement) for m in q.measurements.values()):
            deterministic(ctx, rng, og, q.to_pattern(), "infer_pauli_measurements then to_pattern", limit=8)
    b = og.to_bloch()
    ctx.check(not any(isinstance(m, PauliMeasurement) for m in b.measurements.values()), "to-bloch", "to_bloch left Pauli measurements", og=repr(og))
    d = ref.phase_dist(mon.og_map(b), mon.og_map(og))
    ctx.check(d < ref.TOL, "to-bloch", "to_bloch changed the computation", og=repr(og))


def circuits(ctx, rng, i):
    """Open graphs of transpiled circuits, regenerated through each kind of flow."""
    c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 6)), exclude=("ccx",))
    og = c.transpile().pattern.to_opengraph()
    if len(og.graph.nodes) > 30:
        raise Skip("large")
    if rng.random() < 0.5:
        og = og.infer_pauli_measurements()
        f = og.to_pauliflow()
    else:
        og = og.to_bloch()
        f = og.to_causalflow() if rng.random() < 0.5 else og.to_gflow()
    deterministic(ctx, rng, og, f.to_xzcorrections().to_pattern(), "circuit open graph", limit=6)


FAMILIES = [
    Family("flows", flows, 2500, 120000),
    Family("to_pattern", to_pattern, 1500, 60000),
    Family("circuits", circuits, 150, 6000),
]
