"""Copies, in-place operations and metadata: a state machine over a pool of related patterns."""

import gen
import mon
import ref
from core import Family
from graphix import command
from graphix.clifford import Clifford
from graphix.measurements import Measurement
from graphix.optimization import StandardizedPattern, remove_useless_domains, single_qubit_domains, standardize
from graphix.parameter import Placeholder
from graphix.pattern import Pattern, PatternError
from graphix.states import BasicStates

ID = "P10"
RULE = (
    "Random histories of 4-14 operations over a pool of patterns derived from each other (copy, transform in place, transform with copy=True, compose, reindex, map, parameter substitution, replace/clear/add, shared command lists). "
    "Monitor after every operation: every pattern that was not the target still has the same commands, inputs, outputs and node count; in-place methods return self; the target's n_node, nodes(), output_nodes, max_space, space_list, "
    "measurement_commands, max_degree, isolated_nodes, connected_nodes agree with a recount from its commands; in-place and copying forms give equal patterns; the commands of a copy are its own. Non-trivial: history with at least 3 transforming operations; distinct = history."
)
ASSUMPTIONS = ["operations refused with a documented error leave the target as it was or are skipped"]
FLOORS = {"operations": 4000, "patterns_watched": 10000, "metadata_recounts": 3000, "inplace_vs_copy": 800, "edited_commands": 1500}
WARM = ()


def recount(ctx, p, what):
    """Metadata against a recount from the commands alone."""
    nodes, outs, live, lst = list(p.input_nodes), list(p.input_nodes), len(p.input_nodes), []
    for c in p:
        if c.kind.name == "N":
            nodes.append(c.node)
            outs.append(c.node)
            live += 1
            lst.append(live)
        elif c.kind.name == "M":
            outs.remove(c.node)
            live -= 1
            lst.append(live)
    rep = repr(p)
    ctx.count("metadata_recounts")
    ctx.check(p.n_node == len(nodes), "n-node", f"n_node is {p.n_node}, {len(nodes)} nodes after {what}", pattern=rep)
    ctx.check(p.nodes() == set(nodes), "nodes", f"nodes() is {p.nodes()} after {what}", pattern=rep)
    ctx.check(sorted(p.output_nodes) == sorted(outs), "output-nodes", f"output_nodes is {p.output_nodes}, expected {outs} after {what}", pattern=rep)
    ctx.check(list(p.space_list()) == lst, "space-list", f"space_list() is {p.space_list()}, expected {lst} after {what}", pattern=rep)
    ctx.check(p.max_space() == max([len(p.input_nodes), *lst], default=0), "max-space", f"max_space() wrong after {what}", pattern=rep)
    ctx.check(len(p) == len(list(p)) and all(p[k] is c for k, c in enumerate(p)), "sequence", f"len/iteration/indexing disagree after {what}", pattern=rep)
    mc = p.measurement_commands()
    ctx.check(mc == {c.node: c for c in p if c.kind.name == "M"}, "measurement-commands", f"after {what}", pattern=rep)
    ctx.check(p.clifford_commands() == {c.node: c.clifford for c in p if c.kind.name == "C"}, "clifford-commands", f"after {what}", pattern=rep)


def graph_meta(ctx, p):
    if any(c.kind.name == "N" and repr(c.state) != "BasicStates.PLUS" and c.state != command.N(0).state for c in p):
        return
    try:
        StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        return
    par = {}
    for c in p:
        if c.kind.name == "E":
            e = frozenset(c.nodes)
            par[e] = par.get(e, 0) ^ 1
    deg = dict.fromkeys(p.nodes(), 0)
    adj = {v: set() for v in deg}
    for e, k in par.items():
        if k:
            a, b = e
            deg[a] += 1
            deg[b] += 1
            adj[a].add(b)
            adj[b].add(a)
    ctx.check(p.max_degree() == max(deg.values(), default=0), "max-degree", f"max_degree() is {p.max_degree()}", pattern=repr(p))
    ctx.check(p.isolated_nodes() == {v for v, d in deg.items() if d == 0}, "isolated-nodes", f"isolated_nodes() is {p.isolated_nodes()}", pattern=repr(p))
    q = p.copy()
    q.standardize()
    for v in sorted(deg):
        ctx.check(sorted(q.connected_nodes(v)) == sorted(adj[v]), "connected-nodes", f"connected_nodes({v}) is {q.connected_nodes(v)}", pattern=repr(q))
        prep = set(list(adj[v])[:1])
        ctx.check(sorted(q.connected_nodes(v, prep)) == sorted(adj[v] - prep), "connected-nodes-prepared", f"connected_nodes({v}, {prep})", pattern=repr(q))
    if deg:  # brings the pattern to standard form first
        r, v = p.copy(), min(deg)
        frozen = mon.Frozen(p)
        ctx.check(sorted(r.connected_nodes(v)) == sorted(adj[v]) if not p.is_standard() else set(r.connected_nodes(v)) >= adj[v], "connected-nodes", f"connected_nodes({v}) of a pattern not in standard form", pattern=repr(p))
        frozen.check(ctx, "connected-nodes-mutates", "connected_nodes of a copy changed the original")
    ctx.check(q.correction_commands() == [c for c in q if c.kind.name in "XZ"], "correction-commands", "", pattern=repr(q))
    ctx.count("graph_recounts")


# name -> (in-place call or None, copying call or None)
def ops(rng, p):
    m = gen.pick(rng, ("direct", "mc"))
    std = bool(rng.integers(2))
    perm = [int(x) for x in rng.permutation(p.output_nodes)]
    iperm = [int(x) for x in rng.permutation(p.input_nodes)]
    f = dict(zip(sorted(p.nodes()), (int(x) for x in rng.choice(90, size=len(p.nodes()), replace=False))))
    flip = lambda ms: ms.clifford(Clifford.H)  # noqa: E731
    return {
        "standardize": (lambda q: q.standardize(), standardize),
        "shift_signals": (lambda q: q.shift_signals(method=m), None),
        "infer": (lambda q: q.infer_pauli_measurements(), lambda q: q.infer_pauli_measurements(copy=True)),
        "blochify": (lambda q: q.blochify(), lambda q: q.blochify(copy=True)),
        "to_bloch": (lambda q: q.blochify(), lambda q: q.to_bloch()),
        "apply": (lambda q: q.apply(flip), lambda q: q.apply(flip, copy=True)),
        "map": (lambda q: q.apply(flip), lambda q: q.map(flip)),
        "minimize_space": (lambda q: q.minimize_space(), lambda q: q.minimize_space(copy=True)),
        "parallelize": (lambda q: q.parallelize_pattern(), None),
        "pauli_pushing": (lambda q: q.perform_pauli_pushing(standardize=std), lambda q: q.perform_pauli_pushing(standardize=std, copy=True)),
        "remove_pauli": (lambda q: q.remove_pauli_measurements(standardize=std), lambda q: q.remove_pauli_measurements(standardize=std, copy=True)),
        "local_clifford": (lambda q: q.remove_local_clifford_commands(), lambda q: q.remove_local_clifford_commands(copy=True)),
        "useless_domains": (None, remove_useless_domains),
        "single_domains": (None, single_qubit_domains),
        "reindex": (lambda q: q.reindex(f), lambda q: q.reindex(f, copy=True)),
        "space_optimal": (None, lambda q: StandardizedPattern.from_pattern(q).to_space_optimal_pattern()),
        "copy": (None, lambda q: q.copy()),
        "rebuild": (None, lambda q: Pattern(q.input_nodes, list(q), q.output_nodes)),
        "reorder_outputs": (lambda q: q.reorder_output_nodes(perm), None),
        "reorder_inputs": (lambda q: q.reorder_input_nodes(iperm), None),
        "replace_parameter": (lambda q: q.replace_parameter(ALPHA, 0.25), lambda q: q.replace_parameter(ALPHA, 0.25, copy=True)),
        "with_parameter": (lambda q: q.replace_parameters({ALPHA: 0.25, BETA: 0.5}), lambda q: q.with_parameters({ALPHA: 0.25, BETA: 0.5})),
        "remove_inputs": (lambda q: q.remove_input_nodes(), None),
    }


ALPHA, BETA = Placeholder("alpha"), Placeholder("beta")
NOT_SELF = {"standardize", "shift_signals", "parallelize", "reorder_outputs", "reorder_inputs", "remove_inputs"}


def base_pattern(rng):
    r = rng.random()
    if r < 0.6:
        n = int(rng.integers(1, 8))
        p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=0.15, pauli_obj=0.4, pauli=0.5)
    else:
        p = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 5)), ccx=0).transpile().pattern
    if rng.random() < 0.3:
        out = []
        for c in p:
            if c.kind.name == "M" and rng.random() < 0.3:
                ang = gen.pick(rng, (ALPHA, BETA, ALPHA * 2 + 0.5, -BETA))
                c = command.M(c.node, type(gen.measurement(rng, 0))(ang, gen.pick(rng, gen.PLANES)), set(c.s_domain), set(c.t_domain))
            out.append(c)
        p = Pattern(p.input_nodes, out, p.output_nodes)
    return p


REFUSALS = (NotImplementedError,)


def history(ctx, rng, i):
    pool = [base_pattern(rng)]
    if rng.random() < 0.3:
        pool.append(base_pattern(rng))
    trace = []
    done = 0
    for _ in range(int(rng.integers(4, 14))):
        k = int(rng.integers(len(pool)))
        p = pool[k]
        table = ops(rng, p)
        name = gen.pick(rng, sorted(table) + ["compose", "clear", "add", "replace", "copy", "copy"])
        watch = [q for q in pool]
        parameterized = p.is_parameterized()
        trace.append(name)
        ctx.count("operations")
        if name == "compose":
            q = gen.pick(rng, pool)
            frozen = mon.Frozen(*watch)
            outs, ins = p.output_nodes, q.input_nodes
            n = min(len(outs), len(ins))
            if len(p) + len(q) > 60:
                continue
            new, _ = p.compose(q, dict(zip(ins[:n], outs[:n])))
            frozen.check(ctx, "compose-mutates", f"history {trace}")
            pool.append(new)
            recount(ctx, new, trace)
        elif name == "add":
            q = p.copy()
            frozen = mon.Frozen(*watch)
            v = max(p.nodes(), default=0) + 1
            q.extend([command.N(v), *([command.E((v, q.output_nodes[0]))] if p.output_nodes else [])])
            frozen.check(ctx, "add-aliases", f"extending a copy changed another pattern: {trace}")
            recount(ctx, q, trace)
            pool.append(q)
        elif name == "replace":
            q = p.copy()
            frozen = mon.Frozen(*watch)
            src = gen.pick(rng, pool)
            q.replace(list(src), src.input_nodes)
            frozen.check(ctx, "replace-aliases", f"replace() changed another pattern: {trace}")
            recount(ctx, q, trace)
            pool.append(q)
        elif name == "clear":
            q = p.copy()
            frozen = mon.Frozen(*watch)
            q.clear()
            frozen.check(ctx, "clear-aliases", f"clearing a copy changed another pattern: {trace}")
            ctx.check(len(q) == 0 and q.output_nodes == q.input_nodes == p.input_nodes, "clear", "clear() left something", pattern=repr(q))
            recount(ctx, q, trace)
        else:
            inplace, copying = table[name]
            new = None
            if parameterized and name in ("minimize_space",):
                pass
            if copying is not None:
                frozen = mon.Frozen(*watch)
                try:
                    new = copying(p)
                except REFUSALS:
                    frozen.check(ctx, "refusal-mutates", f"refused {name} changed a pattern")
                    continue
                frozen.check(ctx, f"copy-mutates:{name}", f"{name} (copying form) changed an existing pattern; history {trace}")
                ctx.check(new is not p, f"copy-is-self:{name}", f"{name} (copying form) returned the same object; history {trace}", pattern=repr(p))
                recount(ctx, new, trace)
            if inplace is not None:
                others = [q for q in watch if q is not p]
                frozen = mon.Frozen(*others) if others else None
                target = p
                if new is None or rng.random() < 0.5:
                    target = p.copy()
                    frozen = mon.Frozen(*watch)
                try:
                    ret = inplace(target)
                except REFUSALS:
                    continue
                if frozen:
                    frozen.check(ctx, f"inplace-leaks:{name}", f"{name} in place changed another pattern; history {trace}")
                if name not in NOT_SELF:
                    ctx.check(ret is target, f"inplace-return:{name}", f"{name} in place does not return self; history {trace}")
                recount(ctx, target, trace)
                if new is not None:
                    ctx.count("inplace_vs_copy")
                    ctx.check(repr(target) == repr(new), f"inplace-differs:{name}", f"{name}: in-place and copying forms differ; history {trace}", inplace=repr(target), copying=repr(new))
                if target is not p and len(pool) < 7:
                    pool.append(target)
            if new is not None and len(pool) < 7:
                pool.append(new)
            done += 1
        ctx.count("patterns_watched", len(watch))
        ctx.distinct("operations", name)
    for p in pool:
        recount(ctx, p, trace)
    graph_meta(ctx, gen.pick(rng, pool))
    if done >= 3:
        ctx.nontrivial((trace, repr(pool[0])))
    ctx.sample(f"history: {trace}")


def lists(ctx, rng, i):
    """Accessors hand out copies; bad orders are refused; equality and hashing of contents."""
    p = base_pattern(rng)
    frozen = mon.Frozen(p)
    for acc in (lambda: p.input_nodes, lambda: p.output_nodes, lambda: p.nodes(), lambda: p.measurement_commands(), lambda: p.space_list()):
        x = acc()
        x.clear()
    frozen.check(ctx, "accessor-aliases", "editing the value of an accessor changed the pattern")
    src_in, cmds, src_out = p.input_nodes, list(p), p.output_nodes
    q = Pattern(src_in, cmds, src_out)
    src_in.append(99)
    cmds.clear()
    src_out.append(98)
    ctx.check(q == p and q.output_nodes == p.output_nodes and q.input_nodes == p.input_nodes, "constructor-aliases", "the constructor keeps the caller's lists", pattern=repr(p))
    outs = p.output_nodes
    for bad in ([*outs, 12345], outs[1:], outs + outs[:1]):
        if sorted(bad) == sorted(outs):
            continue
        try:
            q.reorder_output_nodes(bad)
        except PatternError:
            ctx.count("bad_orders")
            continue
        ctx.fail("reorder-accepts", f"reorder_output_nodes accepted {bad} for outputs {outs}")
    parts, rest = [], list(p)
    while rest:  # single commands and (nested) lists of commands, in any mixture
        k = int(rng.integers(1, 4))
        parts.append(rest[0] if k == 1 else gen.pick(rng, (tuple, list, iter))(rest[:k]))
        rest = rest[1 if k == 1 else k :]
    e = Pattern(p.input_nodes)
    e.extend(*parts)
    e.reorder_output_nodes(p.output_nodes)
    ctx.check(e == p, "extend", "a pattern extended piece by piece differs", pattern=repr(p))
    ctx.check(p != list(p) and p != repr(p) and not p == None, "eq-other", "a pattern equals something else")  # noqa: E711
    c = p.copy()
    ctx.check(c == p, "copy-equal", "a copy is not equal to the original")
    if len(p):
        k = int(rng.integers(len(p)))
        cmds = list(p)
        del cmds[k]
        try:
            d = Pattern(p.input_nodes, cmds)
        except PatternError:
            return
        ctx.check(d != p, "eq-blind", "patterns with different commands compare equal")
    before, edited = repr(p), p.copy()
    for cmd in edited:  # commands are mutable objects: those of a copy are its own
        match cmd.kind:
            case command.CommandKind.M:
                cmd.measurement, cmd.s_domain, cmd.t_domain = Measurement.XZ(0.123), {77}, {78}
            case command.CommandKind.X | command.CommandKind.Z:
                cmd.domain = {79}
            case command.CommandKind.C:
                cmd.clifford = Clifford.H if cmd.clifford != Clifford.H else Clifford.S
            case command.CommandKind.N:
                cmd.state = BasicStates.MINUS_I
            case command.CommandKind.E:
                cmd.nodes = (80, 81)
        ctx.count("edited_commands")
    ctx.check(repr(p) == before, "copy-shares-commands", "editing the commands of a copy changed the original", before=before, after=repr(p))
    if p.output_nodes and p.output_nodes != p.output_nodes[::-1]:
        c.reorder_output_nodes(p.output_nodes[::-1])
        ctx.check(c != p, "eq-blind", "patterns with different output orders compare equal")


FAMILIES = [
    Family("history", history, 2500, 26000),
    Family("lists", lists, 400, 6000),
]
