"""Signal shifting: the returned signals relate the outcomes of the two patterns branch by branch."""

import gen
import mon
import ref
from core import Family
from graphix.pattern import shift_outcomes

ID = "P05"
QUICK_SCALE = 2
RULE = (
    "Random runnable patterns (standard or not, any planes/axes, random domains) and transpiled circuits with measurements, shifted with both methods. "
    "Oracle: for every sampled outcome assignment r of the shifted pattern, its reference branch map equals that of the original pattern on shift_outcomes(r, signals). "
    "Non-trivial: some signal was shifted; distinct = command list."
)
ASSUMPTIONS = ["branches beyond 16 per pattern are sampled"]
FLOORS = {"large": 200, "branches_compared": 3000, "signals_shifted": 400, "methods_compared": 300}
WARM = ()


def check(ctx, rng, p):
    rep, before = repr(p), mon.cmds_key(p)
    nodes = ref.measured_nodes(p)
    res = {}
    for method in ("direct", "mc"):
        q = p.copy()
        if method == "direct" and rng.random() < 0.5:
            sig = q.shift_signals()
        else:
            sig = q.shift_signals(method=method)
        res[method] = (q, sig)
        ctx.check(mon.cmds_key(p) == before, "copy-aliases", f"shifting the signals of a copy ({method}) changed the original", pattern=rep)
        ctx.check(set(sig) <= set(nodes), "signal-keys", "signals on nodes that are not measured", signals=sig, pattern=rep)
        ctx.check(q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes, "arity", "inputs/outputs changed", pattern=rep)
        ctx.check(ref.measured_nodes(q) == nodes, "measured-nodes", "set or order of measurements changed", pattern=rep)
        ctx.check(not any(c.kind.name == "S" for c in q), "signal-left", "S command left", pattern=rep)
        for c in q:
            if c.kind.name == "M":
                pl = c.measurement.to_bloch().plane.name
                left = c.t_domain if pl == "XY" else c.s_domain
                ctx.check(not left, "signal-not-shifted", f"{pl} measurement keeps a shiftable domain after {method}", cmd=repr(c), pattern=rep)
        for r in ref.branches(nodes, rng, 12):
            orig = shift_outcomes(r, sig)
            ctx.check(set(orig) == set(r) and all(int(b) in (0, 1) for b in orig.values()), "shift-outcomes-domain", "shift_outcomes changed the set of nodes", outcomes=r)
            d = ref.phase_dist(mon.ref_kraus(p, orig, "original"), mon.ref_kraus(q, r, method))
            ctx.count("branches_compared")
            ctx.check(d < ref.TOL, f"shift-semantics-{method}", f"branch differs ({d:.3g})", before=rep, after=repr(q), signals=sig, outcomes=r)
        n = sum(1 for s in sig.values() if s)
        ctx.count("signals_shifted", n)
        if n:
            ctx.nontrivial(rep)
        again = q.shift_signals(method=method)
        ctx.check(not any(again.values()), "shift-twice", "a second shift still finds signals", signals=again, pattern=rep)
    (qd, sd), (qm, sm) = res["direct"], res["mc"]
    ctx.check({k: set(v) for k, v in sd.items() if v} == {k: set(v) for k, v in sm.items() if v}, "methods-disagree", "direct and mc signals differ", direct=sd, mc=sm, pattern=rep)
    for r in ref.branches(nodes, rng, 4):
        ctx.check(ref.phase_dist(mon.ref_kraus(qd, r), mon.ref_kraus(qm, r)) < ref.TOL, "methods-disagree", "direct and mc patterns differ", pattern=rep)
    ctx.count("methods_compared")


def raw(ctx, rng, i):
    n = int(rng.integers(2, 10))
    p = gen.raw_pattern(
        rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=float(gen.pick(rng, (0.0, 0.2))), states=float(gen.pick(rng, (0, 0.3))),
        domains=float(gen.pick(rng, (0.3, 0.6))), standardizable=bool(rng.random() < 0.7),
    )  # fmt: skip
    if p.is_standard() is False and rng.random() < 0.4:
        try:
            p.standardize()
        except NotImplementedError:
            return
    ctx.sample(repr(p))
    check(ctx, rng, p)


def circuits(ctx, rng, i):
    c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(2, 8)), measure=0.15)
    p = c.transpile().pattern
    if rng.random() < 0.6:
        p.standardize()
    if rng.random() < 0.4:
        p.infer_pauli_measurements()
    check(ctx, rng, p)


def outcomes(ctx, rng, i):
    """shift_outcomes is exactly the XOR of each outcome with the parity of its (observed) signal."""
    n = int(rng.integers(1, 8))
    lab = gen.labels(rng, n)
    sig = {v: gen.subset(rng, [u for u in lab if u != v], 0.4) for v in lab if rng.random() < 0.7}
    r = {v: int(rng.integers(2)) for v in lab}
    got = shift_outcomes(r, sig)
    want = {v: r[v] ^ (sum(r[u] for u in sig.get(v, ())) % 2) for v in lab}
    ctx.check({k: int(x) for k, x in got.items()} == want, "shift-outcomes", "wrong outcomes", outcomes=r, signals=sig, got=got)
    ctx.count("outcome_maps")


def large(ctx, rng, i):
    """Many measurements with signals of up to a dozen results, in long chains."""
    p = gen.big_pattern(rng, standardizable=bool(rng.random() < 0.7))
    if rng.random() < 0.4:
        try:
            p.standardize()
        except NotImplementedError:
            return
    ctx.count("large")
    check(ctx, rng, p)


FAMILIES = [
    Family("raw", raw, 2000, 22000),
    Family("large", large, 300, 4000),
    Family("circuits", circuits, 300, 2500),
    Family("outcomes", outcomes, 400, 4000),
]
