"""Well-formedness verdicts on flows and XZ-corrections are exact, for good and for damaged objects."""

import contextlib
import io

import networkx as nx

import flowref
import gen
from core import Family, Skip
from graphix.flow.core import CausalFlow, GFlow, PauliFlow, XZCorrections
from graphix.flow.exceptions import FlowError, XZCorrectionsError, XZCorrectionsGenericError, XZCorrectionsGenericErrorReason
from graphix.fundamentals import Plane

ID = "P14"
QUICK_SCALE = 3
RULE = (
    "Well-formed flows (planted or found) and XZ-corrections, then 0-3 random mutations: nodes added to / removed from correction sets, keys dropped or added, inputs corrected, "
    "nodes moved, duplicated or dropped in the order, layers merged, split, emptied or swapped, edges toggled, labels changed. Oracle: independent definitions; the verdict must agree and the reported "
    "proposition and node must really be violated. Random correction mappings and orders are judged by an independent DAG analysis. Non-trivial: the mutated object differs from the original; distinct = object."
)
ASSUMPTIONS = ["check_well_formed of XZ-corrections is not asked about correction targets that are not graph nodes (documented only for from_measured_nodes_mapping)"]
FLOORS = {"flows_accepted": 400, "flows_rejected": 1500, "reasons_checked": 800, "xz_accepted": 300, "xz_rejected": 400, "mappings_accepted": 300, "mappings_rejected": 200, "orders_accepted": 200, "orders_rejected": 300, "patterns": 150}
WARM = ()
CLS = {"causal": CausalFlow, "gflow": GFlow, "pauli": PauliFlow}


def base_flow(rng):
    kind = gen.pick(rng, tuple(CLS))
    if kind == "causal":
        og = gen.layered_opengraph(rng, int(rng.integers(1, 4)), int(rng.integers(1, 8)))
        f = og.to_causalflow_or_none()
        cf, layers = dict(f.correction_function), list(f.partial_order_layers)
    else:
        pauli = float(gen.pick(rng, (0.3, 0.7, 1.0))) if kind == "pauli" else 0
        og, cf, layers = gen.planted_opengraph(rng, int(rng.integers(1, 8 if rng.random() < 0.85 else 20)), int(rng.integers(0, 5)), xy=float(gen.pick(rng, (0.3, 0.7, 1.0))), pauli_obj=pauli, objects=rng.random() < 0.5)
        if rng.random() < 0.7:
            f = og.to_pauliflow_or_none() if kind == "pauli" else og.to_gflow_or_none()
            if f is None:
                raise Skip("completeness is P13")
            cf, layers = dict(f.correction_function), list(f.partial_order_layers)
    return kind, og, {k: set(v) for k, v in cf.items()}, [set(x) for x in layers]


def mutate_order(rng, layers, nodes):
    """One mutation of a list of sets."""
    a = int(rng.integers(9))
    L = len(layers)
    if L == 0:
        layers.append({gen.pick(rng, nodes)} if nodes else set())
    elif a in (0, 1):  # move a node to another layer
        i, j = int(rng.integers(L)), int(rng.integers(L))
        if layers[i]:
            v = gen.pick(rng, sorted(layers[i]))
            layers[i].discard(v)
            layers[j].add(v)
            if not layers[i] and rng.random() < 0.8:
                layers.pop(i)
    elif a == 2:  # duplicate
        layers[int(rng.integers(L))].add(gen.pick(rng, nodes))
    elif a == 3:  # drop
        i = int(rng.integers(L))
        if layers[i]:
            layers[i].discard(gen.pick(rng, sorted(layers[i])))
            if not layers[i] and rng.random() < 0.5:
                layers.pop(i)
    elif a == 4:
        layers.insert(int(rng.integers(L + 1)), set())
    elif a == 5 and L > 1:
        i, j = int(rng.integers(L)), int(rng.integers(L))
        layers[i], layers[j] = layers[j], layers[i]
    elif a in (6, 7) and L > 1:  # merge adjacent
        i = int(rng.integers(L - 1))
        layers[i] |= layers.pop(i + 1)
    else:  # split
        i = int(rng.integers(L))
        if len(layers[i]) > 1:
            part = gen.subset(rng, layers[i], 0.5)
            if part and part != layers[i]:
                layers[i] -= part
                layers.insert(i + int(rng.integers(2)), part)


def flows(ctx, rng, i):
    kind, og, cf, layers = base_flow(rng)
    nodes = sorted(og.graph.nodes)
    if not nodes:
        raise Skip
    cls = CLS[kind]
    k = int(gen.pick(rng, (0, 1, 1, 1, 2, 3)))
    before = repr((cf, layers))
    for _ in range(k):
        a = rng.random()
        if a < 0.35 and cf:
            u = gen.pick(rng, sorted(cf))
            pool = nodes if rng.random() < 0.5 else sorted(set(nodes) - set(og.input_nodes))
            if pool:
                cf[u] ^= {gen.pick(rng, pool)}
        elif a < 0.42 and cf:
            u = gen.pick(rng, sorted(cf))
            if rng.random() < 0.5:
                del cf[u]
            else:
                cf[gen.pick(rng, [*nodes, max(nodes) + 1])] = set(cf[u])
        elif a < 0.45 and cf:
            cf[gen.pick(rng, sorted(cf))] ^= {max(nodes) + 1}
        elif a < 0.55 and len(cf) > 1:
            u, v = gen.pick(rng, sorted(cf)), gen.pick(rng, sorted(cf))
            cf[u], cf[v] = cf[v], cf[u]
        elif a < 0.65 and og.measurements:
            g = og.graph.copy()
            if len(nodes) > 1:
                x, y = (int(t) for t in rng.permutation(nodes)[:2])
                (g.remove_edge if g.has_edge(x, y) else g.add_edge)(x, y)
            og = type(og)(g, og.input_nodes, og.output_nodes, og.measurements, og.output_cliffords)
        elif a < 0.72 and og.measurements:
            meas = dict(og.measurements)
            u = gen.pick(rng, sorted(meas))
            if kind == "pauli":
                meas[u] = gen.measurement(rng, 0.5)
            else:
                meas[u] = gen.pick(rng, tuple(Plane)) if isinstance(meas[u], Plane) else gen.measurement(rng, 0)
            og = type(og)(og.graph, og.input_nodes, og.output_nodes, meas, og.output_cliffords)
        else:
            mutate_order(rng, layers, nodes)
    wrap = frozenset if rng.random() < 0.5 else set
    f = cls(og, {u: wrap(v) for u, v in cf.items()}, tuple(wrap(x) for x in layers))
    gen_err = flowref.general_errors(og, cf, layers)
    prop = {} if gen_err else flowref.proposition_errors(og, cf, layers, kind)
    ok = not gen_err and not prop
    desc = dict(kind=kind, cf=cf, layers=layers, graph=sorted(og.graph.edges), inputs=og.input_nodes, outputs=og.output_nodes, measurements=og.measurements)
    ctx.sample(repr((kind, cf, layers)))
    got = f.is_well_formed()
    ctx.check(got == ok, "flow-verdict", f"is_well_formed() is {got}; violated: {sorted(gen_err) or {p: sorted(v) for p, v in prop.items()}}", **desc)
    err = None
    try:
        f.check_well_formed()
    except FlowError as e:
        err = e
    ctx.check((err is None) == ok, "check-vs-is", "check_well_formed and is_well_formed disagree", **desc)
    ctx.count("flows_accepted" if ok else "flows_rejected")
    if err is not None:
        str(err)
        reason = getattr(err, "reason", None)
        if not gen_err:
            name = reason.name if reason is not None else None
            name = "plane" if name == "XYPlane" else name
            ctx.check(name in prop, "reason", f"reported {name}, violated {sorted(prop)}", **desc)
            node = getattr(err, "node", None)
            ctx.check(node is None or node in prop[name], "reason-node", f"{name} reported for node {node}, violated at {sorted(prop[name])}", **desc)
            ctx.count("reasons_checked")
            ctx.distinct("reasons", name)
        else:
            if hasattr(err, "layer_index"):
                ctx.check(0 <= err.layer_index < len(layers) and set(layers[err.layer_index]) == set(err.layer), "reason-layer", f"layer {err.layer_index} reported as {err.layer}", **desc)
            ctx.distinct("general_reasons", (type(err).__name__, str(reason)))
    if k and repr((cf, layers)) != before:
        ctx.nontrivial(repr(desc))
    # focusing is exact too (whatever the flow)
    if set(cf) == set(og.measurements) and set().union(*cf.values()) <= set(nodes):
        foc = flowref.is_focused(og, cf, kind)
        ctx.check(f.is_focused() == foc, "is-focused", f"is_focused() is {not foc}", **desc)
        ctx.count("focused" if foc else "unfocused")


def random_corrections(rng, og, style):
    """Mappings on the open graph; `style` chooses acyclic / arbitrary / bad keys / bad values."""
    meas, nodes = sorted(og.measurements), sorted(og.graph.nodes)
    order = [int(v) for v in rng.permutation(meas)]
    x, z = {}, {}
    for corr in (x, z):
        for k, u in enumerate(order):
            if rng.random() < 0.6:
                pool = order[k + 1 :] + list(og.output_nodes) if style != "any" or rng.random() < 0.85 else nodes
                s = gen.subset(rng, pool, float(gen.pick(rng, (0.2, 0.5))))
                if s or rng.random() < 0.2:
                    corr[u] = s
    tgt = x if rng.random() < 0.5 else z
    if style == "keys":
        tgt[gen.pick(rng, [*og.output_nodes, max(nodes) + 1])] = {gen.pick(rng, nodes)}
    if style == "values" and meas:
        tgt.setdefault(gen.pick(rng, meas), set()).add(max(nodes) + 2)
    if style == "loop" and meas:
        u = gen.pick(rng, meas)
        tgt.setdefault(u, set()).add(u)
    return x, z


def small_og(rng):
    n = int(rng.integers(1, 8)) if rng.random() < 0.85 else int(rng.integers(8, 20))
    no = int(rng.integers(0, n + 1)) if rng.random() < 0.5 else int(rng.integers(0, min(n, 2) + 1))
    return gen.random_opengraph(rng, n, int(rng.integers(0, min(n, 2) + 1)), no, pauli_obj=0.3, cliffords=0.3 if rng.random() < 0.3 else 0)


def dag_of(x, z):
    g = nx.DiGraph()
    g.add_edges_from((u, v) for c in (x, z) for u, vs in c.items() for v in vs)
    return g


def mappings(ctx, rng, i):
    og = small_og(rng)
    style = gen.pick(rng, ("dag", "dag", "dag", "any", "keys", "values", "loop"))
    x, z = random_corrections(rng, og, style)
    snapshot = repr((x, z))
    desc = dict(x=x, z=z, nodes=sorted(og.graph.nodes), outputs=og.output_nodes)
    bad_keys = not (set(x) | set(z)) <= set(og.measurements)
    g = dag_of(x, z)
    cyclic = not nx.is_directed_acyclic_graph(g)
    bad_values = not set(g.nodes) <= set(og.graph.nodes)
    R = XZCorrectionsGenericErrorReason
    allowed = {R.IncorrectKeys} if bad_keys else {r for r, b in ((R.ClosedLoop, cyclic), (R.IncorrectValues, bad_values)) if b}
    try:
        xz = XZCorrections.from_measured_nodes_mapping(og, x or None, z or None) if rng.random() < 0.3 else XZCorrections.from_measured_nodes_mapping(og, x, z)
    except XZCorrectionsGenericError as e:
        ctx.check(e.reason in allowed, "mapping-reason", f"reported {e.reason}, expected one of {allowed}", **desc)
        ctx.count("mappings_rejected")
        return
    ctx.check(not allowed, "mapping-accepted", f"ill-formed corrections accepted (expected {allowed})", **desc)
    ctx.check(repr((x, z)) == snapshot, "mapping-mutated", "argument mappings modified", **desc)
    ctx.count("mappings_accepted")
    layers = xz.partial_order_layers
    errs = flowref.order_errors(set(og.graph.nodes), set(og.output_nodes), layers)
    d = flowref.depth(layers)
    later = all(d[v] < d[u] for u, v in g.edges) if not errs else False
    ctx.check(not errs and later, "mapping-order", f"layers {layers} {errs} do not respect the corrections", **desc)
    sub = g.subgraph(og.measurements)
    depth = nx.dag_longest_path_length(sub) + 1 if len(sub) else (1 if og.measurements else 0)
    ctx.check(len(layers) - bool(og.output_nodes) == depth, "mapping-depth", f"{layers}: expected {depth} measured layers", **desc)
    free = {v for v in og.measurements if v not in g or not g.in_degree(v)}
    ctx.check(not og.measurements or free <= set(layers[-1]), "mapping-last-layer", f"non-corrected measured nodes {free} not all in the last layer {layers}", **desc)
    dag = xz.to_dag()
    ctx.check(set(dag.edges) == set(g.edges) and set(dag.nodes) == set(g.nodes), "to-dag", "to_dag is not the graph of the corrections", **desc)
    xz.check_well_formed()
    if len(g.edges) > 1:
        ctx.nontrivial(repr(desc))


def xz_verdict(ctx, rng, i):
    og = small_og(rng)
    x, z = random_corrections(rng, og, "dag")
    base = XZCorrections.from_measured_nodes_mapping(og, x, z)
    layers = [set(s) for s in base.partial_order_layers]
    nodes = sorted(og.graph.nodes)
    for _ in range(int(gen.pick(rng, (0, 1, 1, 2)))):
        a = rng.random()
        if a < 0.3 and og.measurements:
            c = x if rng.random() < 0.5 else z
            u = gen.pick(rng, sorted(og.measurements))
            c[u] = c.get(u, set()) ^ {gen.pick(rng, nodes)}
        elif a < 0.4:
            (x if rng.random() < 0.5 else z)[gen.pick(rng, nodes)] = gen.subset(rng, nodes, 0.2)
        else:
            mutate_order(rng, layers, nodes)
    keys_ok = (set(x) | set(z)) <= set(og.measurements)
    errs = flowref.order_errors(set(nodes), set(og.output_nodes), layers)
    d = flowref.depth(layers)
    ok = keys_ok and not errs and all(d[v] < d[u] for c in (x, z) for u, vs in c.items() for v in vs)
    xz = XZCorrections(og, x, z, tuple(layers))
    try:
        xz.check_well_formed()
        got = True
    except XZCorrectionsError as e:
        str(e)
        got = False
    ctx.check(got == ok, "xz-verdict", f"check_well_formed {'accepts' if got else 'rejects'}; keys ok {keys_ok}, order errors {errs}", x=x, z=z, layers=layers, nodes=nodes, outputs=og.output_nodes)
    ctx.count("xz_accepted" if ok else "xz_rejected")
    ctx.nontrivial(repr((x, z, layers)))


def orders(ctx, rng, i):
    og = small_og(rng)
    x, z = random_corrections(rng, og, "dag")
    xz = XZCorrections.from_measured_nodes_mapping(og, x, z)
    d = flowref.depth(xz.partial_order_layers)
    total = list(xz.generate_total_measurement_order())

    def compatible(t):
        return sorted(t) == sorted(og.measurements) and all(d[a] >= d[b] for a, b in zip(t, t[1:]))

    ctx.check(compatible(total), "generated-order", f"{total} is not compatible with {xz.partial_order_layers}", x=x, z=z)
    t = list(total)
    for _ in range(int(rng.integers(0, 3))):
        a = rng.random()
        if a < 0.6 and len(t) > 1:
            k = int(rng.integers(len(t) - 1))
            t[k], t[k + 1] = t[k + 1], t[k]
        elif a < 0.75 and t:
            t.pop(int(rng.integers(len(t))))
        elif a < 0.9 and t:
            t.insert(int(rng.integers(len(t) + 1)), gen.pick(rng, t))
        elif og.output_nodes:
            t.append(gen.pick(rng, og.output_nodes))
    ok = compatible(t)
    with contextlib.redirect_stdout(io.StringIO()):
        got = xz.is_compatible(t)
        ctx.check(got == ok, "is-compatible", f"is_compatible({t}) is {got} for layers {xz.partial_order_layers}")
        ctx.count("orders_accepted" if ok else "orders_rejected")
        try:
            p = xz.to_pattern(t)
        except XZCorrectionsGenericError as e:
            ctx.check(not ok and e.reason is XZCorrectionsGenericErrorReason.IncompatibleOrder, "to-pattern-order", f"compatible order {t} refused: {e.reason}")
            return
    ctx.check(ok, "to-pattern-order", f"to_pattern accepted the incompatible order {t}", layers=xz.partial_order_layers)
    check_pattern(ctx, p, og, x, z, t)
    check_pattern(ctx, xz.to_pattern(), og, x, z, None)
    if len(t) > 1:
        ctx.nontrivial(repr((t, x, z)))


def check_pattern(ctx, p, og, x, z, order):
    """The pattern's commands are exactly the open graph plus the corrections, in a runnable order."""
    ctx.count("patterns")
    desc = dict(pattern=repr(p), x=x, z=z)
    ctx.check(p.input_nodes == list(og.input_nodes) and p.output_nodes == list(og.output_nodes), "pattern-io", "inputs/outputs differ from the open graph", **desc)
    ns = [c.node for c in p if c.kind.name == "N"]
    ctx.check(sorted(ns) == sorted(set(og.graph.nodes) - set(og.input_nodes)), "pattern-nodes", "prepared nodes", **desc)
    es = [frozenset(c.nodes) for c in p if c.kind.name == "E"]
    ctx.check(len(es) == len(set(es)) and set(es) == {frozenset(e) for e in og.graph.edges}, "pattern-edges", "entanglement commands", **desc)
    ms = [c for c in p if c.kind.name == "M"]
    ctx.check({c.node: c.measurement for c in ms} == dict(og.measurements) and all(not c.s_domain and not c.t_domain for c in ms) and len(ms) == len(og.measurements), "pattern-measurements", "measurements", **desc)
    if order is not None:
        ctx.check([c.node for c in ms] == list(order), "pattern-order", f"measurement order {order} not followed", **desc)
    for k, corr in (("X", x), ("Z", z)):
        got = sorted((c.node, d) for c in p if c.kind.name == k for d in c.domain)
        ctx.check(got == sorted((v, u) for u, vs in corr.items() for v in vs), "pattern-corrections", f"{k} corrections", **desc)
    cl = {c.node: c.clifford for c in p if c.kind.name == "C"}
    ctx.check(cl == dict(og.output_cliffords), "pattern-cliffords", "output Cliffords", **desc)
    p.check_runnability()


FAMILIES = [
    Family("flows", flows, 12000, 1500000),
    Family("mappings", mappings, 4000, 300000),
    Family("xz_verdict", xz_verdict, 4000, 300000),
    Family("orders", orders, 3000, 250000),
]
