"""Pattern composition, reindexing and node mappings."""

import numpy as np

import gen
import mon
import ref
from core import Family, Skip
from graphix.pattern import Pattern, PatternError

ID = "P09"
QUICK_SCALE = 3
RULE = (
    "Pairs of random runnable patterns (also empty, without inputs, without outputs, with colliding labels) and random partial mappings: merging outputs with inputs in any order, or renaming nodes; valid and invalid. "
    "Oracle: composition result = contraction of the two reference branch maps over merged wires, in the documented input/output order; the complete mapping extends the given one injectively onto fresh labels; invalid mappings raise PatternError; "
    "reindexing keeps every branch. Non-trivial: at least one merged wire; distinct = (patterns, mapping)."
)
ASSUMPTIONS = ["branches beyond 12 per composition are sampled"]
FLOORS = {"compositions": 400, "branches_compared": 2500, "merged_wires": 300, "preserved_orders": 30, "invalid_mappings": 150, "reindexed": 250}
WARM = ()


def rand_pattern(rng, max_nodes=6, **kw):
    n = int(rng.integers(0, max_nodes))
    return gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), standardizable=bool(rng.random() < 0.5), **kw)


def contract(k1, o1, i1, k2, o2, i2, merged, out_order, in_order):
    """k2 after k1; wires named: outputs of 1 'o1', inputs of 2 'i2' already renamed."""
    a = k1.reshape((2,) * (len(o1) + len(i1)))
    b = k2.reshape((2,) * (len(o2) + len(i2)))
    ax_a = [o1.index(v) for v in merged]
    ax_b = [len(o2) + i2.index(v) for v in merged]
    t = np.tensordot(a, b, axes=(ax_a, ax_b))
    names = [("o", v) for v in o1 if v not in merged] + [("i", v) for v in i1] + [("o", v) for v in o2] + [("i", v) for v in i2 if v not in merged]
    perm = [names.index(("o", v)) for v in out_order] + [names.index(("i", v)) for v in in_order]
    return np.transpose(t, perm).reshape(2 ** len(out_order), 2 ** len(in_order))


def compose(ctx, rng, i):
    p1 = rand_pattern(rng)
    p2 = rand_pattern(rng)
    outs, ins = p1.output_nodes, p2.input_nodes
    mapping = {}
    if outs and ins:
        k = int(rng.integers(0, min(len(outs), len(ins)) + 1))
        if rng.random() < 0.3 and len(ins) <= len(outs):
            k = len(ins)
        mapping = {int(a): int(b) for a, b in zip(rng.permutation(ins)[:k], rng.permutation(outs)[:k])}
    n1 = p1.nodes()
    free = [v for v in range(60) if v not in n1 and v not in mapping.values()]
    for v in sorted(p2.nodes()):
        if v not in mapping and rng.random() < 0.25:
            w = int(gen.pick(rng, free))
            free.remove(w)
            mapping[v] = w
    preserve = bool(rng.random() < 0.4)
    frozen = mon.Frozen(p1, p2)
    p, full = p1.compose(p2, mapping, preserve)
    frozen.check(ctx, "compose-mutates", "compose changed one of its arguments")
    ctx.count("compositions")
    what = dict(p1=repr(p1), p2=repr(p2), mapping=mapping, preserve=preserve, result=repr(p))
    # the complete mapping
    ctx.check(set(full) == p2.nodes(), "mapping-domain", "the complete mapping is not defined on all nodes of other", full=full, **what)
    ctx.check(all(full[k] == v for k, v in mapping.items()), "mapping-extension", "the complete mapping does not extend the given one", full=full, **what)
    ctx.check(len(set(full.values())) == len(full), "mapping-injective", "the complete mapping is not injective", full=full, **what)
    merged = [v for v in outs if v in mapping.values()]
    ctx.check({v for v in full.values() if v in n1} == set(merged), "mapping-collision", "an unmerged node collides with the first pattern", full=full, **what)
    fresh = [full[v] for v in sorted(p2.nodes()) if v not in mapping]
    ctx.check(fresh == sorted(fresh), "mapping-ascending", "unmapped nodes are not relabelled in ascending order", full=full, **what)
    ctx.count("merged_wires", len(merged))
    # documented input/output order
    i2 = [full[v] for v in ins]
    o2 = [full[v] for v in p2.output_nodes]
    want_in = p1.input_nodes + [v for v in i2 if v not in merged]
    if preserve and len(merged) == len(i2) == len(o2):
        io = dict(zip(i2, o2))
        want_out = [io.get(v, v) if v in merged else v for v in outs]
        ctx.count("preserved_orders")
    else:
        want_out = [v for v in outs if v not in merged] + o2
    ctx.check(p.input_nodes == want_in, "compose-inputs", f"inputs {p.input_nodes}, documented {want_in}", **what)
    ctx.check(p.output_nodes == want_out, "compose-outputs", f"outputs {p.output_nodes}, documented {want_out}", **what)
    ctx.check(p.n_node == len(p.nodes()) and p.nodes() == n1 | set(full.values()), "compose-nodes", "nodes of the composition are wrong", **what)
    ctx.check(len(p) == len(p1) + len(p2), "compose-length", "number of commands differs", **what)
    # semantics
    m1, m2 = ref.measured_nodes(p1), ref.measured_nodes(p2)
    for r in ref.branches([(1, v) for v in m1] + [(2, v) for v in m2], rng, 10):
        r1 = {v: r[1, v] for v in m1}
        r2 = {v: r[2, v] for v in m2}
        k1, k2 = ref.pattern_kraus(p1, r1), ref.pattern_kraus(p2, r2)
        want = contract(k1, outs, p1.input_nodes, k2, o2, i2, merged, want_out, want_in)
        got = mon.ref_kraus(p, {**r1, **{full[v]: b for v, b in r2.items()}}, "composition")
        d = ref.phase_dist(want, got)
        ctx.count("branches_compared")
        ctx.check(d < ref.TOL, "compose-semantics", f"branch of the composition differs ({d:.3g})", outcomes=r, **what)
    if merged:
        ctx.nontrivial((repr(p1), repr(p2), mapping))
    ctx.sample(f"{p1!r} . {p2!r} via {mapping}")
    # the composition does not share mutable state with its parts
    p.infer_pauli_measurements()
    p.shift_signals(method=gen.pick(rng, ("direct", "mc")))
    frozen.check(ctx, "compose-aliases", "transforming the composition changed one of its parts")


def chain(ctx, rng, i):
    """Composition is associative on transpiled circuits and equals the product of unitaries."""
    w = int(rng.integers(1, 4))
    cs = [gen.circuit(rng, w, int(rng.integers(1, 5)), ccx=0) for _ in range(3)]
    ps = [c.transpile().pattern for c in cs]
    u = np.eye(2**w)
    acc = ps[0]
    perm = list(range(w))
    us = [ref.circuit_kraus(c.instruction, w, [])[0] for c in cs]
    u = us[0]
    for c, p, uc in zip(cs[1:], ps[1:], us[1:]):
        # plug output perm[q] into input q
        perm = [int(x) for x in rng.permutation(w)]
        acc, full = acc.compose(p, {p.input_nodes[q]: acc.output_nodes[perm[q]] for q in range(w)})
        swap = np.zeros((2**w, 2**w))
        for b in range(2**w):
            bits = [(b >> (w - 1 - k)) & 1 for k in range(w)]
            nb = [bits[perm[q]] for q in range(w)]
            swap[int("".join(map(str, nb)), 2), b] = 1
        u = uc @ swap @ u
    mon.implements(ctx, acc, u, rng, limit=6, mech="chain-semantics", what="composition of three circuits")
    acc.standardize()
    acc.minimize_space()
    mon.implements(ctx, acc, u, rng, limit=4, mech="chain-semantics", what="minimised composition of three circuits")
    ctx.count("chains")
    ctx.nontrivial(repr(cs))


def invalid(ctx, rng, i):
    """Mappings that break the documented requirements are refused."""
    p1 = rand_pattern(rng, 7)
    p2 = rand_pattern(rng, 7)
    n1, n2 = p1.nodes(), p2.nodes()
    bad = {}
    new = max(n1 | n2, default=0) + 1000
    kind = int(rng.integers(4))
    if kind == 0:  # key that is not a node of other
        bad = {max(n2, default=0) + 3: new}
    elif kind == 1:  # two nodes to the same label
        if len(n2) < 2:
            return
        a, b = (int(x) for x in rng.permutation(sorted(n2))[:2])
        bad = {a: new, b: new}
    elif kind == 2:  # onto a measured node of self
        meas = ref.measured_nodes(p1)
        if not meas or not n2:
            return
        bad = {int(gen.pick(rng, sorted(n2))): int(gen.pick(rng, meas))}
    else:  # a non-input onto an output of self
        ni = sorted(n2 - set(p2.input_nodes))
        if not ni or not p1.output_nodes:
            return
        bad = {int(gen.pick(rng, ni)): int(gen.pick(rng, p1.output_nodes))}
    # valid entries around the bad one must not hide it
    for v in sorted(n2):
        if v not in bad and rng.random() < 0.3:
            bad[v] = 2 * new + abs(v)
    items = list(bad.items())
    rng.shuffle(items)
    bad = {int(a): int(b) for a, b in items}
    try:
        p, _ = p1.compose(p2, bad)
    except PatternError:
        ctx.count("invalid_mappings")
        return
    ctx.fail("invalid-accepted", f"an invalid mapping was accepted (kind {kind})", mapping=bad, p1=repr(p1), p2=repr(p2), result=repr(p))


def reindex(ctx, rng, i):
    p = rand_pattern(rng, 9)
    rep = repr(p)
    nodes = sorted(p.nodes())
    mode = int(rng.integers(4))
    new = [int(x) for x in rng.choice(80, size=len(nodes), replace=False)]
    f = dict(zip(nodes, new))
    if mode == 0:
        arg = f
    elif mode == 1:
        arg = lambda v: f[v]  # noqa: E731
    elif mode == 2:
        arg, f = None, {v: k for k, v in enumerate(nodes)}
    else:  # partial: nodes outside the mapping are unchanged
        keep = gen.subset(rng, nodes, 0.5)
        avoid = set(keep)
        f = {v: (v if v in keep else w) for v, w in zip(nodes, [x + 100 + max(nodes) for x in new])}
        arg = {v: w for v, w in f.items() if v not in avoid}
    frozen = mon.Frozen(p)
    q = p.reindex(arg, copy=True) if arg is not None else p.reindex(copy=True)
    frozen.check(ctx, "reindex-mutates", "reindex(copy=True) changed the pattern")
    r = p.copy()
    ret = r.reindex(arg) if arg is not None else r.reindex()
    ctx.check(ret is r, "reindex-inplace-return", "in-place reindex does not return self")
    frozen.check(ctx, "copy-aliases", "reindexing a copy changed the original")
    ctx.check(r == q and r.n_node == q.n_node == len(nodes), "reindex-inplace", "in-place and copying reindex differ", before=rep)
    ctx.check(q.input_nodes == [f[v] for v in p.input_nodes] and q.output_nodes == [f[v] for v in p.output_nodes], "reindex-io", "inputs/outputs not renamed in order", before=rep, after=repr(q))
    ctx.check(q.nodes() == set(f.values()), "reindex-nodes", "wrong node set", before=rep, after=repr(q))
    ctx.count("reindexed")
    mon.same_branches(ctx, p, q, rng, limit=8, mech="reindex-semantics", what="reindex", results_q=lambda res: {f[v]: b for v, b in res.items()})
    if len(nodes) > 1:
        ctx.nontrivial((rep, tuple(f.items())))


def node_mapping(ctx, rng, i):
    p = rand_pattern(rng, 9)
    nodes = sorted(p.nodes())
    start = int(rng.integers(0, 6))
    avoids = {int(x) for x in rng.integers(0, 15, int(rng.integers(0, 6)))}
    preserves = gen.subset(rng, nodes, 0.25)
    rest = [v for v in nodes if v not in preserves]
    init = {v: int(w) for v, w in zip(rest, rng.choice(20, size=len(rest), replace=False)) if rng.random() < 0.3}
    m = p.node_mapping(init or None, start=start, avoids=avoids, preserves=preserves)
    what = dict(nodes=nodes, init=init, start=start, avoids=avoids, preserves=preserves, got=m)
    ctx.check(set(m) == set(rest), "node-mapping-domain", "wrong domain", **what)
    ctx.check(all(m[k] == v for k, v in init.items()), "node-mapping-extension", "does not extend the initial mapping", **what)
    ctx.check(len(set(m.values())) == len(m), "node-mapping-injective", "not injective", **what)
    fresh = [m[v] for v in sorted(m) if v not in init]
    # fresh labels: increasing, from `start`, skipping every used or avoided one
    used = avoids | set(init.values()) | preserves
    want, c = [], start
    for _ in fresh:
        while c in used:
            c += 1
        want.append(c)
        c += 1
    ctx.check(fresh == want, "node-mapping-fresh", f"fresh labels {fresh}, documented {want}", **what)
    ctx.count("node_mappings")
    # invalid initial mappings
    if len(nodes) >= 2 and rng.random() < 0.5:
        for bad in ({nodes[0]: 3, nodes[1]: 3}, {max(nodes) + 1: 0}):
            try:
                p.node_mapping(bad)
            except ValueError:
                continue
            ctx.fail("node-mapping-invalid", "invalid initial mapping accepted", mapping=bad, nodes=nodes)


FAMILIES = [
    Family("compose", compose, 3000, 40000),
    Family("chain", chain, 200, 2500),
    Family("invalid", invalid, 600, 8000),
    Family("reindex", reindex, 700, 16000),
    Family("node_mapping", node_mapping, 700, 12000),
]
