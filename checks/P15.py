"""Flows, XZ-corrections, patterns and open graphs convert into each other without loss."""

from itertools import combinations

import flowref
import gen
import mon
from core import Family, Skip
from graphix import command, optimization
from graphix.flow.core import XZCorrections
from graphix.flow.exceptions import FlowError
from graphix.fundamentals import Plane
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.pattern import Pattern
from graphix.states import BasicStates

ID = "P15"
QUICK_SCALE = 2
RULE = (
    "Planted and found flows of the three kinds, random and mutated XZ-corrections, raw patterns with arbitrary domains. Oracles: corrections recomputed from the definitions (p(u) and Odd(p(u)) restricted to the future); "
    "the pattern's extracted open graph, corrections and flow equal the originals; the reconstructed Pauli flow satisfies P1-P9 and induces exactly the given corrections, and exists exactly when the definition admits one; "
    "branch maps before and after pattern -> corrections -> pattern agree. Non-trivial: at least two corrections; distinct = corrections."
)
ASSUMPTIONS = ["existence of a compatible Pauli flow is decided by GF(2) algebra, cross-checked by enumeration up to 9 non-input nodes", "to_gflow/to_causalflow judge the X-corrections only, as documented"]
FLOORS = {"flows": 500, "flow_roundtrips": 500, "reconstructed": 400, "no_flow_compatible": 300, "patterns": 500, "big_patterns": 150, "big_reconstructions": 150, "branches_compared": 2500, "layers_checked": 500, "gflow_accept": 150, "gflow_reject": 150, "causal_accept": 100}
WARM = ()
KINDS = ("causal", "gflow", "pauli")


def clean(m):
    return {k: frozenset(v) for k, v in m.items() if v}


def expected_corrections(og, cf, layers):
    adj, d = flowref.adjacency(og.graph), flowref.depth(layers)
    x = {u: frozenset(v for v in p if d[v] < d[u]) for u, p in cf.items()}
    z = {u: frozenset(v for v in flowref.odd(adj, p) if d[v] < d[u]) for u, p in cf.items()}
    return clean(x), clean(z)


def make_flow(rng, kind, objects=True, big=0.15):
    big = rng.random() < big
    if kind == "causal":
        og = gen.layered_opengraph(rng, int(rng.integers(1, 5)), int(rng.integers(1, 30 if big else 10)))
        if not og.measurements:
            raise Skip
        return og, og.to_causalflow()
    pauli = float(gen.pick(rng, (0.3, 0.7, 1.0))) if kind == "pauli" else 0
    og, _, _ = gen.planted_opengraph(rng, int(rng.integers(1, 22 if big else 9)), int(rng.integers(0 if kind == "pauli" else 1, 5)), xy=float(gen.pick(rng, (0.3, 0.7, 1.0))), pauli_obj=pauli, objects=objects)
    f = og.to_pauliflow_or_none() if kind == "pauli" else og.to_gflow_or_none()
    if f is None:
        raise Skip("completeness is P13")
    return og, f


def same_og(ctx, a, b, what):
    ok = (
        set(a.graph.nodes) == set(b.graph.nodes)
        and {frozenset(e) for e in a.graph.edges} == {frozenset(e) for e in b.graph.edges}
        and list(a.input_nodes) == list(b.input_nodes)
        and list(a.output_nodes) == list(b.output_nodes)
        and dict(a.measurements) == dict(b.measurements)
        and dict(a.output_cliffords) == dict(b.output_cliffords)
    )
    ctx.check(ok, "opengraph-roundtrip", what, before=repr(a), after=repr(b), edges=(sorted(a.graph.edges), sorted(b.graph.edges)))


def flows(ctx, rng, i):
    kind = gen.pick(rng, KINDS)
    og, f = make_flow(rng, kind)
    desc = dict(kind=kind, cf=dict(f.correction_function), layers=f.partial_order_layers, edges=sorted(og.graph.edges), measurements=og.measurements)
    ctx.count("flows")
    xz = f.to_xzcorrections()
    ex, ez = expected_corrections(og, f.correction_function, f.partial_order_layers)
    ctx.check(clean(xz.x_corrections) == ex, "x-corrections", f"{dict(xz.x_corrections)} instead of {ex}", **desc)
    ctx.check(clean(xz.z_corrections) == ez, "z-corrections", f"{dict(xz.z_corrections)} instead of {ez}", **desc)
    ctx.check(tuple(map(set, xz.partial_order_layers)) == tuple(map(set, f.partial_order_layers)), "xz-layers", "partial order changed", **desc)
    ctx.check(all(xz.x_corrections.values()) and all(xz.z_corrections.values()), "empty-corrections", "empty correction sets stored", **desc)
    xz.check_well_formed()
    total = [v for layer in reversed(f.partial_order_layers[bool(og.output_nodes) :]) for v in rng.permutation(sorted(layer)).tolist()]
    p = xz.to_pattern(total if rng.random() < 0.7 else None)
    same_og(ctx, og, p.to_opengraph(), "pattern.to_opengraph differs from the flow's open graph")
    if rng.random() < 0.4:
        p.standardize()
        same_og(ctx, og, p.to_opengraph(), "standardised pattern's open graph differs")
    back = p.to_xzcorrections()
    ctx.check(clean(back.x_corrections) == ex and clean(back.z_corrections) == ez, "corrections-roundtrip", f"pattern corrections {dict(back.x_corrections)} {dict(back.z_corrections)} instead of {ex} {ez}", **desc)
    back.check_well_formed()
    if kind == "pauli":
        g = p.to_pauliflow()
        check_reconstruction(ctx, g, back, desc)
    else:
        g = p.to_causalflow() if kind == "causal" else p.to_gflow()
        ctx.check(clean(g.correction_function) == clean(f.correction_function), "flow-roundtrip", f"{dict(g.correction_function)} extracted from the pattern of {dict(f.correction_function)}", **desc)
        errs = flowref.flow_errors(g.og, g.correction_function, g.partial_order_layers, kind)
        ctx.check(not errs, "flow-roundtrip", f"extracted flow violates {errs}", **desc)
        h = (xz.to_causalflow() if kind == "causal" else xz.to_gflow()).correction_function
        ctx.check(clean(h) == clean(f.correction_function), "flow-roundtrip", "xz.to_flow differs", **desc)
    ctx.count("flow_roundtrips")
    if len(ex) + len(ez) > 1:
        ctx.nontrivial(repr(desc))
    ctx.sample(repr(desc))


def check_reconstruction(ctx, g, xz, desc):
    errs = flowref.flow_errors(g.og, g.correction_function, g.partial_order_layers, "pauli")
    ctx.check(not errs, "reconstruction-ill-formed", f"reconstructed Pauli flow {dict(g.correction_function)} violates {errs}", **desc)
    x, z = expected_corrections(g.og, g.correction_function, g.partial_order_layers)
    ctx.check(x == clean(xz.x_corrections) and z == clean(xz.z_corrections), "reconstruction-corrections", f"reconstructed flow induces {x} {z}", **desc)
    ctx.count("reconstructed")


def compatible_flow(og, x, z, layers):
    """Enumerate, per node, the correction sets inducing exactly these corrections."""
    adj, d = flowref.adjacency(og.graph), flowref.depth(layers)
    nonin = [v for v in og.graph.nodes if v not in set(og.input_nodes)]
    lam = flowref.labels(og, "pauli")
    for u in lam:
        fut = {v for v in d if d[v] < d[u]}
        xu, zu = set(x.get(u, ())), set(z.get(u, ()))
        if not xu <= set(nonin):
            return False
        free = [v for v in nonin if v not in fut and (v == u or lam.get(v) in ("X", "Y"))]
        ok = False
        for r in range(len(free) + 1):
            for extra in combinations(free, r):
                p = xu | set(extra)
                if flowref.odd(adj, p) & fut != zu:
                    continue
                one = {w: set() for w in lam}
                one[u] = p
                if not any(u in nodes for nodes in flowref.proposition_errors(og, one, layers, "pauli").values()):
                    ok = True
                    break
            if ok:
                break
        if not ok:
            return False
    return True


def solvable_flow(og, x, z, layers):
    """The same question for any size: the conditions on each p(u) are affine over GF(2)."""
    adj, d = flowref.adjacency(og.graph), flowref.depth(layers)
    nonin = [v for v in og.graph.nodes if v not in set(og.input_nodes)]
    col = {v: k for k, v in enumerate(nonin)}
    lam = flowref.labels(og, "pauli")

    def row(member, neighbours, value):
        r = value << len(nonin)
        for v in member:
            if v in col:
                r ^= 1 << col[v]
        for v in neighbours:
            for w in adj[v]:
                if w in col:
                    r ^= 1 << col[w]
        return r

    for u, l in lam.items():
        fut = {v for v in d if d[v] < d[u]}
        xu, zu = set(x.get(u, ())), set(z.get(u, ()))
        if not xu <= set(nonin):
            return False
        rows = [row([v], [], int(v in xu)) for v in fut] + [row([], [v], int(v in zu)) for v in fut]
        for v in og.graph.nodes:
            m = lam.get(v)
            if v == u or v in fut:
                continue
            if m == "Y":
                rows.append(row([v], [v], 0))
            if m not in ("X", "Y"):
                rows.append(row([v], [], 0))
            if m not in ("Y", "Z"):
                rows.append(row([], [v], 0))
        if l in ("XY", "XZ", "YZ"):
            rows += [row([u], [], int(l != "XY")), row([], [u], int(l != "YZ"))]
        else:
            rows.append(row([u] if l in "YZ" else [], [u] if l in "XY" else [], 1))
        basis = {}
        for r in rows:
            while r:
                low = r & -r
                if low == 1 << len(nonin):
                    return False
                if low not in basis:
                    basis[low] = r
                    break
                r ^= basis[low]
    return True


def reconstruct(ctx, rng, i):
    """XZ-corrections of a (weakened, mutated or random) origin: a Pauli flow is found iff one is compatible."""
    a = rng.random()
    if a < 0.75:
        og, f = make_flow(rng, gen.pick(rng, ("gflow", "pauli", "pauli")), objects=rng.random() < 0.5)
        xz = f.to_xzcorrections()
        x, z, layers = {k: set(v) for k, v in xz.x_corrections.items()}, {k: set(v) for k, v in xz.z_corrections.items()}, [set(s) for s in xz.partial_order_layers]
        d = flowref.depth(layers)
        for _ in range(int(gen.pick(rng, (0, 0, 1, 1, 2)))):
            u = gen.pick(rng, sorted(og.measurements))
            fut = sorted(v for v in d if d[v] < d[u])
            if fut:
                c = x if rng.random() < 0.5 else z
                c[u] = c.get(u, set()) ^ {gen.pick(rng, fut)}
        if rng.random() < 0.3:
            xz = XZCorrections.from_measured_nodes_mapping(og, clean(x), clean(z))
        else:
            xz = XZCorrections(og, clean(x), clean(z), tuple(layers))
    else:
        n = int(rng.integers(2, 6))
        og = gen.random_opengraph(rng, n, int(rng.integers(0, 3)), int(rng.integers(0, n)), pauli_obj=0.8)
        order = rng.permutation(sorted(og.measurements)).tolist()
        x, z = ({u: gen.subset(rng, order[k + 1 :] + og.output_nodes, 0.4) for k, u in enumerate(order)} for _ in range(2))
        xz = XZCorrections.from_measured_nodes_mapping(og, clean(x), clean(z))
    x, z, layers = xz.x_corrections, xz.z_corrections, xz.partial_order_layers
    desc = dict(x=dict(x), z=dict(z), layers=layers, edges=sorted(og.graph.edges), inputs=og.input_nodes, outputs=og.output_nodes, measurements=og.measurements)
    want = solvable_flow(og, x, z, layers)
    if len(og.graph.nodes) - len(og.input_nodes) <= 9:
        assert want == compatible_flow(og, x, z, layers), desc
    else:
        ctx.count("big_reconstructions")
    try:
        g = xz.to_pauliflow()
    except FlowError:
        ctx.check(not want, "reconstruction-missed", "a compatible Pauli flow exists but FlowError was raised", **desc)
        ctx.count("no_flow_compatible")
        return
    ctx.check(want, "reconstruction-spurious", f"no Pauli flow is compatible with the corrections, yet {dict(g.correction_function)} was returned", **desc)
    check_reconstruction(ctx, g, xz, desc)
    ctx.nontrivial(repr(desc))


def planar_verdicts(ctx, rng, i):
    """to_gflow / to_causalflow accept exactly the X-corrections that form a gflow / causal flow for the order."""
    og, f = make_flow(rng, gen.pick(rng, ("causal", "gflow")))
    xz = f.to_xzcorrections()
    x = {k: set(v) for k, v in xz.x_corrections.items()}
    z = dict(xz.z_corrections)
    d = flowref.depth(xz.partial_order_layers)
    for _ in range(int(gen.pick(rng, (0, 1, 1, 2)))):
        u = gen.pick(rng, sorted(og.measurements))
        fut = sorted(v for v in d if d[v] < d[u])
        if fut:
            x[u] = x.get(u, set()) ^ {gen.pick(rng, fut)}
    xz = XZCorrections(og, clean(x), z, xz.partial_order_layers)
    cg = {u: frozenset(x.get(u, ())) | ({u} if m.plane != Plane.XY else set()) for u, m in og.measurements.items()}
    for kind, cf in (("gflow", cg), ("causal", clean(x))):
        errs = flowref.flow_errors(og, cf, xz.partial_order_layers, kind)
        try:
            g = xz.to_gflow() if kind == "gflow" else xz.to_causalflow()
        except FlowError as e:
            ctx.check(errs, "planar-missed", f"{kind}: refused ({e}) although the corrections form one", x=x, layers=xz.partial_order_layers)
            ctx.count(f"{kind}_reject")
            continue
        ctx.check(not errs, "planar-spurious", f"{kind}: accepted although it violates {errs}", x=x, layers=xz.partial_order_layers)
        ctx.check(clean(g.correction_function) == clean(cf), "planar-function", f"{kind}: correction function {dict(g.correction_function)} instead of {cf}")
        ctx.count(f"{kind}_accept")


def longest_layers(deps, nodes):
    lay = {}

    def depth(v):
        if v not in lay:
            lay[v] = 1 + max((depth(u) for u in deps[v]), default=-1)
        return lay[v]

    return max((depth(v) for v in nodes), default=-1) + 1


def patterns(ctx, rng, i):
    n = int(rng.integers(1, 9))
    states = 0.2 if rng.random() < 0.15 else 0
    if rng.random() < 0.15:
        p = gen.big_pattern(rng, states=states)
        ctx.count("big_patterns")
    else:
        p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=float(gen.pick(rng, (0, 0.3))), corrections=0.4, states=states)
    before, rep = mon.cmds_key(p), repr(p)
    ctx.count("patterns")
    if any(c.kind.name == "N" and c.state != BasicStates.PLUS for c in p):
        for name in ("to_opengraph", "to_xzcorrections", "to_pauliflow"):
            try:
                getattr(p, name)()
            except ValueError:
                ctx.count("non_plus_refused")
            else:
                ctx.fail("non-plus-accepted", f"{name} accepted a pattern with a node not prepared in |+>", pattern=rep)
        return
    xz = p.to_xzcorrections()
    ctx.check(mon.cmds_key(p) == before, "extraction-mutates", "to_xzcorrections changed the pattern", pattern=rep)
    xz.check_well_formed()
    q = xz.to_pattern()
    ctx.check(q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes, "arity", "inputs/outputs changed", pattern=rep)
    mon.same_branches(ctx, p, q, rng, limit=8, mech="pattern-roundtrip", what="pattern -> XZ-corrections -> pattern")
    # layers
    s = optimization.standardize(p)
    deps = {c.node: set(c.s_domain | c.t_domain) for c in s if c.kind.name == "M"}
    layers = p.partial_order_layers()
    outs = set(p.output_nodes)
    errs = flowref.order_errors(p.nodes(), outs, layers)
    d = flowref.depth(layers)
    ctx.check(not errs and all(d[u] > d[v] for v, us in deps.items() for u in us), "pattern-layers", f"layers {layers} {errs} do not respect {deps}", pattern=rep)
    ctx.check(len(layers) - bool(outs) == longest_layers(deps, deps), "pattern-layers-depth", f"layers {layers} for dependencies {deps}", pattern=rep)
    ctx.count("layers_checked")
    # whatever flow is accepted is one
    if rng.random() < 0.3:
        try:
            g = p.to_pauliflow()
        except FlowError:
            ctx.count("pattern_without_pauliflow")
        else:
            check_reconstruction(ctx, g, xz, dict(pattern=rep))
    if any(isinstance(m, PauliMeasurement) for m in xz.og.measurements.values()):
        for name in ("to_causalflow", "to_gflow"):
            try:
                getattr(p, name)()
            except (TypeError, FlowError):
                ctx.count("pauli_downcast_refused")
            else:
                ctx.fail("pauli-downcast", f"{name} accepted Pauli measurements", pattern=rep)
    if len(deps) > 1:
        ctx.nontrivial(rep)


def circuits(ctx, rng, i):
    """Transpiled patterns: extraction finds the causal flow again and regenerates the same computation."""
    c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 8)))
    p = c.transpile().pattern
    if len(p.nodes()) > 40:
        raise Skip("large")
    if rng.random() < 0.5:
        p.standardize()
    pb = p.to_bloch()
    f = pb.to_causalflow()
    errs = flowref.flow_errors(f.og, f.correction_function, f.partial_order_layers, "causal")
    ctx.check(not errs, "circuit-causal", f"flow extracted from a transpiled pattern violates {errs}", pattern=repr(p))
    q = f.to_xzcorrections().to_pattern()
    mon.same_branches(ctx, pb, q, rng, limit=6, mech="circuit-roundtrip", what="pattern -> causal flow -> pattern")
    g = pb.to_gflow()
    ctx.check(clean(g.correction_function) == clean(f.correction_function), "circuit-causal", "gflow and causal flow of the same pattern differ", pattern=repr(p))
    h = p.to_pauliflow()
    check_reconstruction(ctx, h, p.to_xzcorrections(), dict(pattern=repr(p)))
    ctx.nontrivial(repr(p))


FAMILIES = [
    Family("flows", flows, 4000, 300000),
    Family("reconstruct", reconstruct, 5000, 350000),
    Family("planar_verdicts", planar_verdicts, 1500, 100000),
    Family("patterns", patterns, 2500, 200000),
    Family("circuits", circuits, 200, 10000),
]
