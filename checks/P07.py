"""Space minimisation, measurement reordering and space accounting."""

import itertools

import numpy as np

import gen
import mon
import ref
from core import Family, Skip
from graphix.optimization import StandardizedPattern
from graphix.sim.statevec import StatevectorBackend
from graphix.space_minimization import SpaceMinimizationHeuristics as H

ID = "P07"
RULE = (
    "Random runnable patterns, patterns of random open graphs with causal/g/Pauli flow (also without outputs), transpiled circuits. Oracle: minimize_space, parallelize_pattern, to_space_optimal_pattern "
    "and every heuristic keep each branch map and each measured node; max_space/space_list equal the number of live qubits recounted from the commands and observed in the running statevector backend; "
    "default minimisation never needs more qubits; the space for a fixed order equals the independent lower bound; the order chosen for causal-flow patterns is optimal over all valid orders of small patterns. "
    "Non-trivial: at least two measurements; distinct = command list."
)
ASSUMPTIONS = ["optimality of the causal-flow order is checked by enumeration for at most 6 measurements", "branches beyond 8 per pattern are sampled"]
FLOORS = {"large": 400, "branches_compared": 3000, "space_recounts": 2000, "backend_peaks": 60, "lower_bounds": 500, "causal_optimality": 40, "parallelized": 300}
WARM = "all"


def recount(p):
    n = len(p.input_nodes)
    peak, lst = n, []
    for c in p:
        if c.kind.name == "N":
            n += 1
        elif c.kind.name == "M":
            n -= 1
        else:
            continue
        lst.append(n)
        peak = max(peak, n)
    return peak, lst


def accounts(ctx, p):
    peak, lst = recount(p)
    ctx.check(p.max_space() == peak, "max-space", f"max_space() is {p.max_space()}, recount {peak}", pattern=repr(p))
    ctx.check(list(p.space_list()) == lst, "space-list", f"space_list() is {p.space_list()}, recount {lst}", pattern=repr(p))
    ctx.count("space_recounts")
    return peak


def adjacency(p):
    """Neighbours after cancelling repeated edges (what a standardised pattern needs)."""
    par = {}
    for c in p:
        if c.kind.name == "E":
            e = frozenset(c.nodes)
            par[e] = par.get(e, 0) ^ 1
    adj = {v: set() for v in p.nodes()}
    for e, k in par.items():
        if k:
            a, b = e
            adj[a].add(b)
            adj[b].add(a)
    return adj


def bound(inputs, outputs, adj, order):
    """Fewest live qubits for a fixed measurement order: a node and its neighbours must be present."""
    live, dead = set(inputs), set()
    peak = len(live)
    for m in order:
        live |= ({m} | adj[m]) - dead
        peak = max(peak, len(live))
        live.discard(m)
        dead.add(m)
    for o in outputs:
        live |= ({o} | adj[o]) - dead
        peak = max(peak, len(live))
    return peak


class PeakBackend(StatevectorBackend):
    """The real backend, watched: the largest number of simultaneously active nodes."""

    peak = 0

    def _see(self):
        object.__setattr__(self, "peak", max(self.peak, len(self.node_index)))

    def add_nodes(self, nodes, *a, **kw):
        super().add_nodes(nodes, *a, **kw)
        self._see()


def peak_of(ctx, p, rng):
    b = PeakBackend()
    p.simulate(b, rng=rng)
    ctx.count("backend_peaks")
    return b.peak


def order_of(p):
    return [c.node for c in p if c.kind.name == "M"]


def check_order(ctx, p, what):
    try:
        p.check_runnability()
    except Exception as e:  # noqa: BLE001
        ctx.fail("order-unrunnable", f"{what}: {e}", pattern=repr(p))


def check(ctx, rng, p, simulate=False):
    rep = repr(p)
    nodes = ref.measured_nodes(p)
    if len(nodes) >= 2:
        ctx.nontrivial(rep)
    before = accounts(ctx, p)
    frozen = mon.Frozen(p)
    try:
        std = StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        raise Skip("not standardizable") from None
    adj = adjacency(p)
    ins, outs = p.input_nodes, p.output_nodes

    # fixed order
    so = std.to_space_optimal_pattern()
    check_order(ctx, so, "to_space_optimal_pattern")
    ctx.check(order_of(so) == nodes, "fixed-order", "measurement order changed", pattern=rep)
    mon.same_branches(ctx, p, so, rng, limit=8, mech="space-optimal-semantics", what="to_space_optimal_pattern")
    lb = bound(ins, outs, adj, nodes)
    so_peak = accounts(ctx, so)
    ctx.check(so_peak == lb == std.max_space(), "space-optimal", f"fixed-order space {so_peak}, StandardizedPattern.max_space {std.max_space()}, lower bound {lb}", pattern=rep)
    ctx.count("lower_bounds")

    # default minimisation, in place and copying
    q = p.minimize_space(copy=True)
    frozen.check(ctx, "minimize-mutates", "minimize_space(copy=True) changed the pattern")
    r = p.copy()
    ctx.check(r.minimize_space() is r, "inplace-return", "minimize_space() does not return self")
    ctx.check(order_of(r) == order_of(q), "inplace-differs", "in-place minimisation differs", pattern=rep)
    for x, what in ((q, "minimize_space"), (r, "minimize_space in place")):
        check_order(ctx, x, what)
        ctx.check(set(order_of(x)) == set(nodes) and len(order_of(x)) == len(nodes), "measured-nodes", f"{what}: measurements lost or added", pattern=rep, after=repr(x))
        ctx.check(x.input_nodes == ins and x.output_nodes == outs, "arity", f"{what}: inputs/outputs changed", pattern=rep)
        peak = accounts(ctx, x)
        ctx.check(peak <= so_peak and peak <= before, "space-increased", f"{what}: {before} -> {peak} qubits (fixed order: {so_peak})", pattern=rep, after=repr(x))
    mon.same_branches(ctx, p, q, rng, limit=8, mech="minimize-semantics", what="minimize_space")
    mon.same_branches(ctx, p, r, rng, limit=2, mech="minimize-semantics", what="minimize_space in place")
    if simulate:
        ctx.check(peak_of(ctx, q, rng) == q.max_space(), "backend-peak", "max_space is not the number of qubits the simulator needed", pattern=repr(q))
        ctx.check(peak_of(ctx, p, rng) == before, "backend-peak", "max_space is not the number of qubits the simulator needed", pattern=rep)

    # every heuristic on its own and in random combinations
    for hs in ([H.causal_flow], [H.greedy_degree], [H.order_unchanged], []) + ([H.greedy_degree, H.order_unchanged], [H.order_unchanged, H.greedy_degree]):
        if rng.random() < 0.5:
            continue
        x = p.minimize_space(hs, copy=True)
        names = [h.__name__ for h in hs]
        check_order(ctx, x, f"minimize_space({names})")
        mon.same_branches(ctx, p, x, rng, limit=3, mech="heuristic-semantics", what=f"minimize_space({names})")
        pk = accounts(ctx, x)
        if H.order_unchanged in hs:
            ctx.check(pk <= so_peak, "space-increased", f"minimize_space({names}) increased the space", pattern=rep)
        if not hs or hs == [H.order_unchanged]:
            ctx.check(order_of(x) == nodes, "fixed-order", f"minimize_space({names}) changed the order", pattern=rep)
    got = H.causal_flow(std)
    if got is not None and len(nodes) <= 6:
        # optimal over every order compatible with the domains
        deps = {m.node: set(m.s_domain) | set(m.t_domain) for m in std.m_list}
        best = min(
            bound(ins, outs, adj, o)
            for o in itertools.permutations(nodes)
            if all(deps[v] <= set(o[:k]) for k, v in enumerate(o))
        )
        mine = bound(ins, outs, adj, list(got.new_order))
        ctx.count("causal_optimality")
        ctx.check(not got.known_optimal or mine == best, "causal-not-optimal", f"order claimed optimal needs {mine} qubits, best is {best}", pattern=rep, order=got.new_order)

    # parallelisation
    s = p.copy()
    s.parallelize_pattern()
    ctx.count("parallelized")
    check_order(ctx, s, "parallelize_pattern")
    ctx.check(sorted(order_of(s)) == sorted(nodes), "measured-nodes", "parallelize_pattern lost or added measurements", pattern=rep, after=repr(s))
    mon.same_branches(ctx, p, s, rng, limit=6, mech="parallelize-semantics", what="parallelize_pattern")
    accounts(ctx, s)
    frozen.check(ctx, "copy-aliases", "transforming a copy changed the original")
    # depth: measurements appear in non-decreasing dependency depth of the standardised pattern
    deps = {m.node: set(m.s_domain) | set(m.t_domain) for m in std.m_list}
    depth = {}
    for m in std.m_list:
        depth[m.node] = 1 + max((depth[d] for d in deps[m.node] if d in depth), default=0)
    ds = [depth[v] for v in order_of(s)]
    layers = p.partial_order_layers()
    ml = layers[1:] if outs else layers
    ctx.check(len(ml) == max(ds, default=0), "parallel-depth", f"{len(ml)} measurement layers, dependency depth {max(ds, default=0)}", pattern=rep, layers=layers)
    pos = {v: k for k, l in enumerate(reversed(ml)) for v in l}
    ctx.check(set(pos) == set(nodes) and all(pos[d] < pos[v] for v in nodes for d in deps[v]), "layers-order", "partial_order_layers do not respect the domains", pattern=rep, layers=layers)
    ks = [pos[v] for v in order_of(s)]
    ctx.check(ks == sorted(ks), "parallel-order", "parallelize_pattern does not follow the layers", pattern=rep)


def raw(ctx, rng, i):
    n = int(rng.integers(1, 9))
    p = gen.raw_pattern(
        rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=float(gen.pick(rng, (0.0, 0.2))), states=float(gen.pick(rng, (0, 0.3))),
        domains=float(gen.pick(rng, (0.15, 0.35))), edges=float(gen.pick(rng, (0.8, 1.3))), n_outputs=0 if rng.random() < 0.15 else None,
    )  # fmt: skip
    ctx.sample(repr(p))
    check(ctx, rng, p, simulate=rng.random() < 0.15)


def flows(ctx, rng, i):
    kind = gen.pick(rng, ("causal", "causal", "gflow", "pauli"))
    if rng.random() < 0.5:
        og = gen.layered_opengraph(rng, int(rng.integers(1, 4)), int(rng.integers(1, 9)))
    else:
        got = gen.pauliflow_opengraph(rng, 3, 8, kind=kind)
        if got is None:
            raise Skip("no flow found")
        og = got[0]
    check(ctx, rng, og.to_pattern(), simulate=rng.random() < 0.4)


def circuits(ctx, rng, i):
    c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 7)), ccx=0.0, measure=0.15 if rng.random() < 0.3 else 0)
    p = c.transpile().pattern
    if len(ref.measured_nodes(p)) > 14:
        raise Skip("large")
    check(ctx, rng, p, simulate=True)


def large(ctx, rng, i):
    """Long measurement sequences with many dependencies."""
    p = gen.big_pattern(rng, 10, 16)
    ctx.count("large")
    check(ctx, rng, p)


def large_flows(ctx, rng, i):
    r = rng.random()
    if r < 0.4:
        og = gen.layered_opengraph(rng, int(rng.integers(2, 5)), int(rng.integers(10, 25)))
    else:
        og = gen.planted_opengraph(rng, int(rng.integers(8, 14)), int(rng.integers(0, 4)), xy=0.7, density=float(gen.pick(rng, (0.2, 0.4))), pauli_obj=0.2)[0]
    ctx.count("large")
    check(ctx, rng, og.to_pattern())


FAMILIES = [
    Family("raw", raw, 700, 20000),
    Family("large", large, 400, 8000),
    Family("large_flows", large_flows, 200, 4000),
    Family("flows", flows, 250, 6000),
    Family("circuits", circuits, 120, 2500),
]
