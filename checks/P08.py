"""Local-Clifford removal, useless domains, single-qubit domains."""

import dataclasses

import numpy as np

import gen
import mon
import ref
from core import Family, Skip
from graphix import command
from graphix.clifford import Clifford
from graphix.measurements import PauliMeasurement
from graphix.optimization import remove_local_clifford_commands, remove_useless_domains, single_qubit_domains
from graphix.pattern import Pattern

ID = "P08"
RULE = (
    "Random runnable patterns with Cliffords anywhere (before and after E, on measured nodes and outputs), with multi-node domains and signed Pauli measurements; all 24 Cliffords one by one. "
    "Oracle: local-Clifford removal leaves no C command and realises the same channel (sum over all branches of both patterns) with auxiliary outcomes uniform; the two domain rewrites keep each branch map exactly. "
    "Non-trivial: something was rewritten; distinct = command list."
)
ASSUMPTIONS = ["channels are compared for patterns with at most 11 measurements"]
FLOORS = {"large": 250, "channels_compared": 300, "cliffords_removed": 400, "branches_compared": 1500, "domains_removed": 50, "domains_split": 200, "clifford_patterns": 24}
WARM = ()


def useful_cliffords(p):
    return [c for c in p if c.kind.name == "C"]


def local_clifford(ctx, rng, p):
    rep = repr(p)
    frozen = mon.Frozen(p)
    q = p.remove_local_clifford_commands(copy=True)
    frozen.check(ctx, "mutates", "remove_local_clifford_commands(copy=True) changed the pattern")
    f = remove_local_clifford_commands(p)
    r = p.copy()
    ctx.check(r.remove_local_clifford_commands() is r, "inplace-return", "does not return self")
    frozen.check(ctx, "copy-aliases", "transforming a copy changed the original")
    for x, name in ((q, "copy"), (f, "function"), (r, "in place")):
        ctx.check(not useful_cliffords(x), "clifford-left", f"C command left ({name})", before=rep, after=repr(x))
        ctx.check(x.n_node == len(x.nodes()), "n-node", f"n_node {x.n_node} != {len(x.nodes())} ({name})", before=rep)
        ctx.check(x.input_nodes == p.input_nodes and len(x.output_nodes) == len(p.output_nodes), "arity", f"inputs/outputs changed ({name})", before=rep)
        try:
            x.check_runnability()
        except Exception as e:  # noqa: BLE001
            ctx.fail("unrunnable", f"{name}: {e}", before=rep, after=repr(x))
    ctx.check(repr(list(q)) == repr(list(r)) == repr(list(f)), "variants-differ", "copying, in-place and function forms differ", before=rep)
    m0 = ref.measured_nodes(p)
    m1 = ref.measured_nodes(q)
    aux = len(m1) - len(m0)
    if len(m1) > 11:
        raise Skip("too many auxiliary measurements")
    a, b = mon.channel(p), mon.channel(q)
    d = float(np.linalg.norm(a - b))
    ctx.count("channels_compared")
    ctx.check(d < 1e-6, "clifford-channel", f"channel differs ({d:.3g})", before=rep, after=repr(q))
    ctx.count("cliffords_removed", len(useful_cliffords(p)))
    # joint outcome distribution for a random input: the multiset of branch weights splits uniformly
    psi = gen.states_for(rng, len(p.input_nodes))
    wa = sorted(float(np.linalg.norm(mon.ref_kraus(p, res) @ psi) ** 2) for res in ref.branches(m0, None, 1 << 11) for _ in range(2**aux))
    wb = sorted(float(np.linalg.norm(mon.ref_kraus(q, res) @ psi) ** 2) * 2**aux for res in ref.branches(m1, None, 1 << 11))
    ctx.check(np.allclose(wa, wb, atol=1e-7), "clifford-weights", "auxiliary outcomes are not uniform and independent", before=rep, after=repr(q))
    if useful_cliffords(p):
        ctx.nontrivial(rep)


def small(rng, **kw):
    n = int(rng.integers(1, 6))
    return gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 2) + 1)), **kw)


def raw_cliffords(ctx, rng, i):
    p = small(rng, cliffords=0.6, standardizable=bool(rng.random() < 0.4), states=0.2 if rng.random() < 0.3 else 0, domains=0.5)
    cs = useful_cliffords(p)
    if len(cs) > 3:
        keep = set(int(k) for k in rng.permutation(len(cs))[:3])
        k = -1
        out = []
        for c in p:
            if c.kind.name == "C":
                k += 1
                if k not in keep:
                    continue
            out.append(c)
        p = Pattern(p.input_nodes, out, p.output_nodes)
    ctx.sample(repr(p))
    local_clifford(ctx, rng, p)


def each_clifford(ctx, rng, i):
    """Every Clifford on an input, on a prepared node, before and after an entanglement."""
    c = Clifford(i % 24)
    where = i // 24
    cmds = {
        0: ([0], [command.C(0, c)]),
        1: ([], [command.N(0), command.C(0, c)]),
        2: ([0], [command.N(1), command.C(0, c), command.E((0, 1)), command.M(0, gen.measurement(rng)), command.X(1, {0})]),
        3: ([0, 5], [command.E((0, 5)), command.C(5, c), command.M(0, gen.measurement(rng)), command.Z(5, {0}), command.C(5, Clifford(int(rng.integers(24))))]),
    }[where]
    p = Pattern(*cmds)
    local_clifford(ctx, rng, p)
    if where == 0:
        # the open graph of a Clifford is the Clifford, in every branch
        og = c.to_opengraph()
        cp = og.to_pattern()
        mon.implements(ctx, cp, ref.CLIFFORD[c.value], rng, limit=64, mech="clifford-opengraph", what=f"{c!r}.to_opengraph()")
        ctx.count("clifford_patterns")


def domains(ctx, rng, i):
    n = int(rng.integers(2, 10))
    p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), domains=float(gen.pick(rng, (0.4, 0.7))), pauli_obj=0.7, cliffords=0.1, corrections=0.5)
    rewrites(ctx, rng, p)


def rewrites(ctx, rng, p):
    rep = repr(p)
    frozen = mon.Frozen(p)
    q = remove_useless_domains(p)
    s = single_qubit_domains(p)
    frozen.check(ctx, "domain-mutates", "the pattern was changed")
    for x, name in ((q, "remove_useless_domains"), (s, "single_qubit_domains")):
        ctx.check(x.input_nodes == p.input_nodes and x.output_nodes == p.output_nodes, "arity", f"{name}: inputs/outputs changed", before=rep)
        ctx.check(ref.measured_nodes(x) == ref.measured_nodes(p), "measured-nodes", f"{name}: measurements changed", before=rep)
        mon.same_branches(ctx, p, x, rng, limit=10, mech=name, what=name)
    for c in s:
        for dom in (getattr(c, "domain", ()), getattr(c, "s_domain", ()), getattr(c, "t_domain", ())):
            ctx.check(len(dom) <= 1, "domain-too-big", f"domain {dom} left by single_qubit_domains", before=rep)
    size = lambda x: sum(len(c.s_domain) + len(c.t_domain) for c in x if c.kind.name == "M")  # noqa: E731
    for c in q:
        if c.kind.name == "M" and isinstance(c.measurement, PauliMeasurement) and c.measurement.sign.name == "PLUS":
            left = c.s_domain if c.measurement.axis.name == "X" else c.t_domain if c.measurement.axis.name == "Z" else ()
            ctx.check(not left, "useless-domain-left", f"{c!r} keeps a domain without effect", before=rep)
    ctx.count("domains_removed", size(p) - size(q))
    ctx.count("domains_split", size(p) - size(s))
    # the results are independent objects: editing them does not reach the original
    for x in (q, s):
        x.infer_pauli_measurements()
        x.shift_signals(method="mc")
        x.shift_signals()
    frozen.check(ctx, "domain-aliases", "editing the rewritten pattern changed the original")
    if size(p) != size(q) or size(p) != size(s):
        ctx.nontrivial(rep)


def large_domains(ctx, rng, i):
    p = gen.big_pattern(rng, 10, 15, cliffords=0.1, pauli_obj=0.7)
    ctx.count("large")
    rewrites(ctx, rng, p)


FAMILIES = [
    Family("raw_cliffords", raw_cliffords, 1200, 22000),
    Family("large_domains", large_domains, 400, 8000),
    Family("each_clifford", each_clifford, 96, 96, exhaustive=True),
    Family("domains", domains, 600, 18000),
]
