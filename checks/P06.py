"""Pauli pushing and Pauli-measurement removal."""

import re
import warnings

import numpy as np

import gen
import mon
import ref
from core import Family, Skip
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.optimization import StandardizedPattern
from graphix.pattern import shift_outcomes
from graphix.remove_pauli_measurements import PauliPushingCut, remove_pauli_measurements
from graphix.states import BasicStates

ID = "P06"
RULE = (
    "Random runnable (non-deterministic) patterns rich in signed Pauli measurements, patterns of random open graphs with Pauli flow, and transpiled Clifford+rotation circuits. "
    "Oracle: pushing preserves each branch map under the documented outcome relabelling and puts Pauli measurements first with empty domains; removal preserves every branch of deterministic patterns, "
    "the zero branch of the others, and leaves no removable Pauli measurement. Non-trivial: at least one Pauli measurement moved or removed; distinct = command list."
)
ASSUMPTIONS = ["the zero branch is compared up to its norm, and only when it is possible", "branches beyond 12 per pattern are sampled"]
FLOORS = {"large": 400, "branches_compared": 2500, "zero_branches_compared": 300, "pauli_removed": 400, "nodes_pushed": 300, "deterministic_removals": 60, "removal_warnings": 30, "push_warnings": 100}
WARM = ()


def paulis(p):
    return [c for c in p if c.kind.name == "M" and isinstance(c.measurement, PauliMeasurement)]


def told(ctx, p, ws, useless):
    """What pushing warns of: Pauli angles that were not inferred, and nodes it cannot leave."""
    hidden = any(c.kind.name == "M" and isinstance(c.measurement, BlochMeasurement) and c.measurement.to_pauli_or_none() is not None for c in p)
    texts = [str(w.message) for w in ws]
    ctx.check(sum("non-inferred" in t for t in texts) == hidden, "push-warnings", f"non-inferred Pauli measurements: {hidden}, warnings {texts}", pattern=repr(p))
    left = [t for t in texts if "leave_nodes" in t]
    ctx.check(len(left) == bool(useless) and all(sorted(int(x) for x in re.findall(r"-?\d+", t)) == sorted(useless) for t in left), "push-warnings", f"nodes that are not Pauli: {useless}, warnings {texts}", pattern=repr(p))
    ctx.count("push_warnings", len(ws))


def push(ctx, rng, p):
    nodes = ref.measured_nodes(p)
    std = StandardizedPattern.from_pattern(p)
    pl = [c.node for c in std.m_list if isinstance(c.measurement, PauliMeasurement)]
    leave = None
    useless = set()
    if rng.random() < 0.4:
        leave = gen.subset(rng, pl, 0.4) or None
        if rng.random() < 0.4:  # nodes that are not Pauli: no effect, but a warning
            useless = gen.subset(rng, [c.node for c in std.m_list if c.node not in pl], 0.5)
    frozen = mon.Frozen(p)
    asked = (leave or set()) | useless or None
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        cut = PauliPushingCut.from_standardizedpattern(std, asked)
    told(ctx, p, ws, useless)
    q = cut.to_standardizedpattern().to_pattern()
    frozen.check(ctx, "push-mutates", "Pauli pushing changed its argument")
    ms = [c for c in q if c.kind.name == "M"]
    k = len(pl) - len(leave or ())
    ctx.check(len(ms) == len(nodes) and {c.node for c in ms} == set(nodes), "push-nodes", "measured nodes changed", pattern=repr(p))
    ctx.check(all(isinstance(c.measurement, PauliMeasurement) and not c.s_domain and not c.t_domain and c.node not in (leave or ()) for c in ms[:k]), "push-order", "Pauli measurements are not first with empty domains", pattern=repr(p), after=repr(q), leave=leave)
    order = [c.node for c in std.m_list if c.node not in {m.node for m in ms[:k]}]
    ctx.check([c.node for c in ms[k:]] == order, "push-order-rest", "order of the remaining measurements changed", pattern=repr(p), after=repr(q))
    ctx.check(not (set(cut.shifted_domains) & (leave or set())), "push-left-node", "a node of leave_nodes was shifted", leave=leave)
    for r in ref.branches(nodes, rng, 12):
        orig = shift_outcomes(r, cut.shifted_domains)
        d = ref.phase_dist(mon.ref_kraus(p, orig, "original"), mon.ref_kraus(q, r, "pushed"))
        ctx.count("branches_compared")
        ctx.check(d < ref.TOL, "push-semantics", f"branch differs ({d:.3g})", before=repr(p), after=repr(q), outcomes=r, shifted=cut.shifted_domains, leave=leave)
    ctx.count("nodes_pushed", k)
    # the Pattern method is the same pattern, standardised or space-optimal, in place or not
    kw = {} if asked is None else {"leave_nodes": asked}
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        a = p.perform_pauli_pushing(copy=True, standardize=True, **kw)
    told(ctx, p, ws, useless)
    b = p.perform_pauli_pushing(copy=True, **kw)
    c = p.copy()
    ret = c.perform_pauli_pushing(standardize=bool(rng.integers(2)), **kw)
    ctx.check(ret is c, "push-inplace-return", "in-place pushing does not return self")
    frozen.check(ctx, "push-mutates", "perform_pauli_pushing(copy=True) changed the pattern")
    for name, x in (("standardize", a), ("space", b), ("inplace", c)):
        ctx.check([m.node for m in x if m.kind.name == "M"] == [m.node for m in ms], "push-variants", f"{name} variant measures in another order")
        mon.same_branches(ctx, q, x, rng, limit=4, mech="push-variants", what=f"perform_pauli_pushing {name}")
    return k


def structure(ctx, p, q, plus_only):
    """What the documentation promises cannot remain."""
    ctx.check(q.input_nodes == p.input_nodes, "remove-inputs", "input nodes changed")
    ctx.check(len(q.output_nodes) == len(p.output_nodes), "remove-outputs", "number of outputs changed")
    try:
        q.check_runnability()
    except Exception as e:  # noqa: BLE001
        ctx.fail("remove-unrunnable", str(e), before=repr(p), after=repr(q))
    if not plus_only:
        return
    g = StandardizedPattern.from_pattern(q).graph()
    ins, outs = set(q.input_nodes), set(q.output_nodes)
    for c in paulis(q):
        if c.node in ins:
            continue
        ctx.check(c.measurement.axis.name == "X", "pauli-left", f"removable {c.measurement} measurement left on node {c.node}", before=repr(p), after=repr(q))
        nb = set(g.neighbors(c.node))
        ctx.check(not (nb - ins - outs), "pauli-left-internal", f"X measurement on {c.node} still has an internal neighbour", before=repr(p), after=repr(q))
        ctx.check(not (nb & outs - ins), "pauli-left-output", f"X measurement on {c.node} still has a non-input output neighbour", before=repr(p), after=repr(q))


def removal(ctx, rng, p, deterministic=None):
    frozen = mon.Frozen(p)
    plus_only = all(c.state == BasicStates.PLUS for c in p if c.kind.name == "N")
    cut = PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        x = remove_pauli_measurements(cut).to_pattern()
    a = p.remove_pauli_measurements(copy=True, standardize=True)
    b = p.remove_pauli_measurements(copy=True)
    c = p.copy()
    ctx.check(c.remove_pauli_measurements(standardize=bool(rng.integers(2))) is c, "remove-inplace-return", "does not return self")
    frozen.check(ctx, "remove-mutates", "remove_pauli_measurements changed the original pattern")
    n_before = len(ref.measured_nodes(p))
    for name, q in (("function", x), ("standardize", a), ("space", b), ("inplace", c)):
        structure(ctx, p, q, plus_only)
        ctx.check(q.n_node == len(q.nodes()), "remove-n-node", f"{name}: n_node is {q.n_node}, not {len(q.nodes())}")
        if deterministic is not None:
            mon.implements(ctx, q, deterministic, rng, limit=8, mech="remove-semantics", what=f"removal ({name}) of {p!r}")
        else:
            zero = mon.ref_kraus(p, dict.fromkeys(ref.measured_nodes(p), 0), "original")
            if np.linalg.norm(zero) * 2 ** (n_before / 2) > 1e-6:
                d = ref.ray_dist(zero, mon.ref_kraus(q, dict.fromkeys(ref.measured_nodes(q), 0), name))
                ctx.count("zero_branches_compared")
                ctx.check(d < ref.TOL, "remove-zero-branch", f"{name}: zero branch differs ({d:.3g})", before=repr(p), after=repr(q))
    # a measurement that is not Pauli disappears only with a warning
    lost = len(ref.measured_nodes(p)) - len(paulis(p)) - (len(ref.measured_nodes(x)) - len(paulis(x)))
    told = [w for w in ws if "isolated node was removed" in str(w.message)]
    ctx.check(len(told) == lost, "removal-warning", f"{lost} measurements that are not Pauli removed, {len(told)} warnings", before=repr(p), after=repr(x))
    ctx.count("removal_warnings", len(told))
    removed = n_before - len(ref.measured_nodes(x))
    ctx.count("pauli_removed", removed)
    return removed


def raw(ctx, rng, i):
    n = int(rng.integers(2, 10))
    p = gen.raw_pattern(
        rng, n, int(rng.integers(0, min(n, 3) + 1)), pauli_obj=float(gen.pick(rng, (0.5, 0.8, 1.0))), cliffords=float(gen.pick(rng, (0.0, 0.2))),
        states=float(gen.pick(rng, (0, 0, 0.4))), edges=float(gen.pick(rng, (1.0, 1.6))),
    )  # fmt: skip
    ctx.sample(repr(p))
    k = push(ctx, rng, p)
    r = removal(ctx, rng, p)
    if k or r:
        ctx.nontrivial(repr(p))


def flows(ctx, rng, i):
    """Patterns of open graphs with Pauli flow are deterministic: every branch survives removal."""
    got = gen.pauliflow_opengraph(rng, 3, 8, pauli_obj=float(gen.pick(rng, (0.4, 0.7, 0.9))), cliffords=0.3 if rng.random() < 0.3 else 0.0)
    if got is None:
        raise Skip("no flow found")
    og, f = got
    p = f.to_xzcorrections().to_pattern()
    m = ref.measured_nodes(p)
    u = mon.ref_kraus(p, dict.fromkeys(m, 0)) * 2 ** (len(m) / 2)
    k = push(ctx, rng, p)
    removal(ctx, rng, p, deterministic=u)
    q = p.remove_pauli_measurements(copy=True)
    ctx.check(not [c for c in paulis(q) if c.node not in q.input_nodes], "pauli-left-flow", "a non-input Pauli measurement is left although the pattern has flow", before=repr(p), after=repr(q))
    ctx.count("deterministic_removals")
    if k:
        ctx.nontrivial(repr(p))


def circuits(ctx, rng, i):
    c = gen.circuit(rng, int(rng.integers(1, 5)), int(rng.integers(2, 9)), pauli=0.6, ccx=0.03)
    p = c.transpile().pattern
    p.infer_pauli_measurements()
    u = ref.circuit_kraus(c.instruction, c.width, [])[0]
    if len(ref.measured_nodes(p)) > 24:
        raise Skip("large")
    push(ctx, rng, p)
    if removal(ctx, rng, p, deterministic=u):
        ctx.nontrivial(repr(p))
    q = p.remove_pauli_measurements(copy=True)
    ctx.check(not [m for m in paulis(q) if m.node not in q.input_nodes], "pauli-left-flow", "a non-input Pauli measurement is left although the pattern has flow", before=repr(p), after=repr(q))
    ctx.count("deterministic_removals")


def large(ctx, rng, i):
    p = gen.big_pattern(rng, 10, 15, pauli_obj=float(gen.pick(rng, (0.5, 0.8, 1.0))), states=float(gen.pick(rng, (0, 0, 0.4))))
    ctx.count("large")
    push(ctx, rng, p)
    if removal(ctx, rng, p):
        ctx.nontrivial(repr(p))


FAMILIES = [
    Family("raw", raw, 2000, 26000),
    Family("large", large, 600, 8000),
    Family("flows", flows, 500, 4000),
    Family("circuits", circuits, 250, 2500),
]
