"""Circuit extraction: the extracted Clifford map, exponentials and circuit implement the open graph."""

import numpy as np

import flowref
import gen
import mon
import ref
from core import Family, Skip
from graphix.circ_ext.extraction import CliffordMap, ExtractionResult, PauliExponentialDAG
from graphix.clifford import Clifford
from graphix.fundamentals import Plane
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.opengraph import OpenGraph, OpenGraphError

ID = "P17"
QUICK_SCALE = 4
RULE = (
    "Open graphs with planted, found or transpiled flows (all planes, signed Pauli axes, as many outputs as inputs or more), extracted from gflows and Pauli flows. "
    "Oracle: the outcome-0 map M of the open graph; with E the product of the exponentials (any order compatible with the layers), W = E^dagger M must satisfy W X_i = x_map_i W and W Z_i = z_map_i W exactly; "
    "the circuit's dense matrix equals M up to phase; exponentials of one layer commute. Non-trivial: at least one exponential with non-zero angle; distinct = open graph."
)
ASSUMPTIONS = ["open graphs up to 14 nodes (dense reference)"]
FLOORS = {"extractions": 1200, "circuits": 500, "isometries": 300, "exponentials": 2500, "pauli_measurements": 800, "refusals": 150, "input_pauli_minus": 60}
WARM = ()


def ps_matrix(ps):
    m = ref.kron(*(ref.PAULI[ps.axes[i].name] if i in ps.axes else ref.I2 for i in range(ps.dim)))
    return m * (1 if ps.sign.name == "PLUS" else -1)


def exponentials(er, order):
    dim = len(er.pexp_dag.output_nodes)
    u = np.eye(2**dim, dtype=complex)
    for v in order:
        e = er.pexp_dag.pauli_exponentials[v]
        a = float(e.angle) * np.pi  # exp(i alpha P): alpha is half the measurement angle
        u = (np.cos(a) * np.eye(2**dim) + 1j * np.sin(a) * ps_matrix(e.pauli_string)) @ u
    return u


def dag_order(dag, outputs, rng):
    layers = dag.partial_order_layers
    return [v for layer in reversed(layers) for v in rng.permutation(sorted(set(layer) - set(outputs))).astype(int).tolist()]


def judge(ctx, rng, og, flow, what):
    er = flow.extract_circuit()
    m = mon.og_map(og) * 2 ** (len(og.measurements) / 2)
    desc = dict(og=mon.og_key(og), what=what, flow=repr(getattr(flow, "correction_function", None)))
    ctx.count("extractions")
    dag, cm = er.pexp_dag, er.clifford_map
    ctx.check(set(dag.pauli_exponentials) == set(og.measurements), "exponentials", "exponentials do not cover the measured nodes", **desc)
    ctx.check(list(dag.output_nodes) == list(og.output_nodes) == list(cm.output_nodes) and list(cm.input_nodes) == list(og.input_nodes), "ports", "inputs/outputs of the extraction", **desc)
    dim = len(og.output_nodes)
    ctx.check(all(ps.dim == dim for ps in [*cm.x_map, *cm.z_map, *(e.pauli_string for e in dag.pauli_exponentials.values())]), "dimension", "dimension of the Pauli strings", **desc)
    for v, e in dag.pauli_exponentials.items():
        me = og.measurements[v]
        ctx.count("exponentials")
        if isinstance(me, PauliMeasurement):
            ctx.check(e.angle == 0, "pauli-angle", f"Pauli-measured node {v} has a rotation", **desc)
            ctx.count("pauli_measurements")
            if v in og.input_nodes and me.sign.name == "MINUS":
                ctx.count("input_pauli_minus")
    u = exponentials(er, dag_order(dag, og.output_nodes, rng))
    w = u.conj().T @ m
    n = len(og.input_nodes)
    for k in range(n):
        for p, image in (("X", cm.x_map[k]), ("Z", cm.z_map[k])):
            op = ref.kron(*(ref.PAULI[p] if j == k else ref.I2 for j in range(n)))
            d = np.linalg.norm(w @ op - ps_matrix(image) @ w) / np.linalg.norm(w)
            ctx.check(d < 1e-6, "clifford-map", f"{what}: image of {p}_{k} is not {image} ({d:.3g})", **desc)
    for layer in dag.partial_order_layers:
        strings = [dag.pauli_exponentials[v].pauli_string for v in sorted(set(layer) - set(og.output_nodes))]
        for a in range(len(strings)):
            for b in range(a):
                anti = sum(1 for q in strings[a].axes if q in strings[b].axes and strings[a].axes[q] != strings[b].axes[q])
                va, vb = [x for x in sorted(set(layer) - set(og.output_nodes))][a], sorted(set(layer) - set(og.output_nodes))[b]
                trivial = dag.pauli_exponentials[va].angle == 0 or dag.pauli_exponentials[vb].angle == 0
                ctx.check(trivial or anti % 2 == 0, "layer-commutes", f"{what}: exponentials of {va} and {vb} in one layer do not commute", **desc)
    if any(e.angle != 0 and e.pauli_string.axes for e in dag.pauli_exponentials.values()):
        ctx.nontrivial(desc["og"])
    if n != dim:
        ctx.count("isometries")
        try:
            er.to_circuit()
            ctx.fail("isometry-accepted", "an isometry was compiled to a circuit", **desc)
        except NotImplementedError:
            pass
        return er, None
    c = er.to_circuit()
    ctx.check(c.width == n, "width", "circuit width", **desc)
    k, _ = ref.circuit_kraus(c.instruction, n, ())
    d = ref.phase_dist(k, m)
    ctx.check(d < ref.TOL, "circuit", f"{what}: extracted circuit differs from the open graph's unitary ({d:.3g})", circuit=gen.describe(c), **desc)
    ctx.count("circuits")
    ctx.sample(gen.describe(c))
    return er, c


def planted(ctx, rng, i):
    unitary = rng.random() < 0.5
    pauli = float(gen.pick(rng, (0, 0.4, 0.8)))
    big = rng.random() < 0.2
    for _ in range(30):
        og, _, _ = gen.planted_opengraph(
            rng, int(rng.integers(1, 9)) if not big else int(rng.integers(9, 17)), int(rng.integers(1, 7 if big else 5)), xy=float(gen.pick(rng, (0.5, 0.8, 1.0))), density=float(gen.pick(rng, (0.2, 0.5))), pauli_obj=pauli, pauli=0.15, inputs="all" if unitary or rng.random() < 0.6 else None
        )
        if not unitary or len(og.input_nodes) == len(og.output_nodes):
            break
    f = og.to_pauliflow_or_none() if pauli or rng.random() < 0.5 else og.to_gflow_or_none()
    if f is None:
        raise Skip("completeness is P13")
    judge(ctx, rng, og, f, "planted")
    if pauli == 0 and len(og.input_nodes) == len(og.output_nodes):
        q = og.infer_pauli_measurements()
        judge(ctx, rng, q, q.to_pauliflow(), "inferred")


def found(ctx, rng, i):
    """Small dense graphs; inputs forced as many as outputs."""
    for _ in range(200):
        no = int(rng.integers(1, 4))
        n = int(rng.integers(no, 8))
        ni = no if rng.random() < 0.7 else int(rng.integers(0, no + 1))
        og = gen.random_opengraph(rng, n, ni, no, pauli_obj=float(gen.pick(rng, (0, 0.4, 0.8))), pauli=0.15, edge_p=float(gen.pick(rng, (0.3, 0.5))), planes=gen.PLANES if rng.random() < 0.5 else gen.PLANES[:1])
        f = og.to_pauliflow_or_none()
        if f is not None:
            break
    else:
        raise Skip("no flow found")
    judge(ctx, rng, og, f, "found")


def inputs_pauli(ctx, rng, i):
    """Measured inputs with signed Pauli measurements, on layered graphs (Clifford-dominated)."""
    width = int(rng.integers(1, 4)) if rng.random() < 0.85 else int(rng.integers(4, 7))
    og = gen.layered_opengraph(rng, width, int(rng.integers(width, 6 + width)), pauli_obj=0.0, pauli=0.2)
    meas = {}
    for v, m in og.measurements.items():
        if rng.random() < 0.6:
            axis = gen.pick(rng, gen.AXES[:2])
            meas[v] = PauliMeasurement(axis, gen.pick(rng, (gen.Sign.PLUS, gen.Sign.MINUS)))
        else:
            meas[v] = m
    og = OpenGraph(og.graph, og.input_nodes, og.output_nodes, meas)
    judge(ctx, rng, og, og.to_pauliflow(), "layered")


def circuits(ctx, rng, i):
    """Circuit -> pattern -> open graph -> circuit."""
    c = gen.circuit(rng, int(rng.integers(1, 4)) if rng.random() < 0.85 else int(rng.integers(4, 7)), int(rng.integers(1, 9)), exclude=("ccx",))
    p = c.transpile().pattern
    og = p.to_opengraph()
    if len(og.graph.nodes) > 34:
        raise Skip("large")
    if rng.random() < 0.5:
        og = og.infer_pauli_measurements()
    elif rng.random() < 0.5:
        og = og.to_bloch()
    c2 = og.to_circuit()
    k, _ = ref.circuit_kraus(c.instruction, c.width, ())
    k2, _ = ref.circuit_kraus(c2.instruction, c2.width, ())
    d = ref.phase_dist(k, k2)
    ctx.count("circuits")
    ctx.check(d < ref.TOL, "round-trip", f"extracted circuit differs from the original ({d:.3g})", before=gen.describe(c), after=gen.describe(c2))
    ctx.nontrivial(gen.describe(c))


def refusals(ctx, rng, i):
    """No flow, Clifford decorations, unfocused flows and incompatible results are refused."""
    a = int(rng.integers(4))
    if a == 0:
        og = gen.random_opengraph(rng, int(rng.integers(2, 6)), 1, 1, edge_p=0.4)
        if flowref.maximal_layers(og, "pauli") is not None:
            raise Skip
        try:
            og.to_circuit()
        except OpenGraphError:
            ctx.count("refusals")
            return
        ctx.fail("no-flow", "circuit extracted without flow", og=mon.og_key(og))
    og, cf, layers = gen.planted_opengraph(rng, int(rng.integers(2, 7)), int(rng.integers(1, 4)), inputs="all", xy=0.8)
    f = og.to_gflow_or_none()
    if f is None:
        raise Skip
    if a == 1:
        v = gen.pick(rng, sorted(og.output_nodes))
        try:
            OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements, {v: Clifford(int(rng.integers(24)))}).to_gflow().extract_circuit()
        except NotImplementedError:
            ctx.count("refusals")
            return
        ctx.fail("cliffords", "open graph with Cliffords extracted", og=mon.og_key(og))
    elif a == 2:
        # a planted flow is a gflow but usually not focused
        from graphix.flow.core import GFlow

        g = GFlow(og, cf, layers)
        if flowref.proposition_errors(og, cf, layers, "gflow"):
            raise Skip
        focused = flowref.is_focused(og, cf, "gflow")
        try:
            judge(ctx, rng, og, g, "planted gflow")
            ctx.check(focused, "unfocused-accepted", "unfocused flow extracted", og=mon.og_key(og), cf=repr(cf))
        except ValueError:
            ctx.check(not focused, "focused-refused", "focused flow refused", og=mon.og_key(og), cf=repr(cf))
            ctx.count("refusals")
    else:
        er = f.extract_circuit()
        if len(og.output_nodes) < 2:
            raise Skip
        cm = er.clifford_map
        bad = CliffordMap(cm.x_map, cm.z_map, cm.input_nodes, list(og.output_nodes)[::-1])
        try:
            ExtractionResult(PauliExponentialDAG(er.pexp_dag.pauli_exponentials, er.pexp_dag.partial_order_layers, og.output_nodes), bad).to_circuit()
        except ValueError:
            ctx.count("refusals")
            return
        ctx.fail("incompatible", "incompatible extraction result compiled", og=mon.og_key(og))


FAMILIES = [
    Family("planted", planted, 1500, 80000),
    Family("found", found, 500, 25000),
    Family("inputs_pauli", inputs_pauli, 400, 20000),
    Family("circuits", circuits, 250, 12000),
    Family("refusals", refusals, 600, 20000),
]
