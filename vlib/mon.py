"""Monitors shared by several checks: they compare what graphix produced with the reference."""

from __future__ import annotations

import numpy as np

import ref
from core import Violation
from graphix import command
from graphix.branch_selector import FixedBranchSelector
from graphix.simulator import DefaultMeasureMethod


def cmds_key(p):
    return repr(list(p)) + repr(p.input_nodes) + repr(p.output_nodes)


def ref_kraus(p, results, what="pattern"):
    """Reference branch map of a pattern graphix produced; an ill-formed pattern is a violation."""
    try:
        return ref.pattern_kraus(p, results)
    except ref.RefError as e:
        raise Violation("produced-unrunnable-pattern", f"{what}: {e}", pattern=repr(p)) from None


def same_branches(ctx, p, q, rng, *, limit=16, mech, what, tol=ref.TOL, relabel=None, results_q=None):
    """p and q implement the same map in every (sampled) branch; `results_q` maps outcomes p -> q."""
    nodes = ref.measured_nodes(p)
    for res in ref.branches(nodes, rng, limit):
        kp = ref_kraus(p, res, "original")
        rq = res if results_q is None else results_q(res)
        kq = ref_kraus(q, rq, what)
        ctx.count("branches_compared")
        d = ref.phase_dist(kp, kq)
        ctx.check(d < tol, mech, f"{what}: branch map differs (distance {d:.3g})", outcomes=res, outcomes_after=rq, before=repr(p), after=repr(q), input_nodes=(p.input_nodes, q.input_nodes), output_nodes=(p.output_nodes, q.output_nodes))


def implements(ctx, p, u, rng, *, limit=12, mech, what, nodes=None, fixed=None, scale=None, tol=ref.TOL):
    """Every branch of p is the isometry/map `u` up to phase, with uniform branch weight."""
    nodes = ref.measured_nodes(p) if nodes is None else nodes
    fixed = fixed or {}
    w = 2 ** (-len(nodes) / 2) if scale is None else scale
    for res in ref.branches(nodes, rng, limit):
        k = ref_kraus(p, {**res, **fixed}, what)
        ctx.count("branches_compared")
        d = ref.phase_dist(k, u * w)
        ctx.check(d < tol, mech, f"{what}: branch differs from the specification (distance {d:.3g})", outcomes={**res, **fixed}, pattern=repr(p), output_nodes=p.output_nodes)


def feasible_results(p, rng, psi, tries=20):
    """Sample outcomes with the reference (never an impossible branch)."""
    nodes = ref.measured_nodes(p)
    for _ in range(tries):
        res = {v: int(rng.integers(2)) for v in nodes}
        k = ref.pattern_kraus(p, res)
        v = k @ psi
        if np.linalg.norm(v) * 2 ** (len(nodes) / 2) > 1e-3:
            return res, v
    return None, None


def simulate_forced(p, results, psi, backend="statevector", **kw):
    """Run the real simulator with forced outcomes; returns (flat state, recorded outcomes)."""
    mm = DefaultMeasureMethod()
    st = p.simulate(
        backend,
        input_state=psi,
        branch_selector=FixedBranchSelector(dict(results)),
        measure_method=mm,
        **kw,
    )
    return st, mm.results


def channel(p, cap=1 << 11):
    """Choi-like matrix of the pattern with all outcomes discarded (sum over every branch)."""
    nodes = ref.measured_nodes(p)
    if 2 ** len(nodes) > cap:
        raise ref.TooBig("too many branches for the channel")
    t = None
    for res in ref.branches(nodes, None, cap):
        v = ref_kraus(p, res).reshape(-1)
        d = np.outer(v, v.conj())
        t = d if t is None else t + d
    return t


def og_map(og):
    """Outcome-0 projection of the open graph (with its output Cliffords), from the definition."""
    cmds = [command.N(v) for v in sorted(og.graph.nodes) if v not in set(og.input_nodes)]
    cmds += [command.E(e) for e in og.graph.edges]
    cmds += [command.M(v, m) for v, m in og.measurements.items()]
    cmds += [command.C(v, c) for v, c in og.output_cliffords.items()]
    k, _ = ref.kraus(cmds, list(og.input_nodes), list(og.output_nodes), dict.fromkeys(og.measurements, 0))
    return k


def og_key(og):
    return repr(
        (
            sorted(og.graph.nodes), sorted(tuple(sorted(e)) for e in og.graph.edges), list(og.input_nodes), list(og.output_nodes),
            sorted(og.measurements.items(), key=lambda t: t[0]), sorted(og.output_cliffords.items(), key=lambda t: t[0]),
        )
    )  # fmt: skip


class Frozen:
    """Watches patterns that must not change while others derived from them are transformed."""

    def __init__(self, *patterns):
        self.items = [(p, cmds_key(p), p.n_node) for p in patterns]

    def check(self, ctx, mech, msg):
        for p, key, n in self.items:
            ctx.check(cmds_key(p) == key and p.n_node == n, mech, msg, before=key, after=cmds_key(p))
