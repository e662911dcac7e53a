"""The runnability check accepts exactly the executable command sequences."""

import gen
import mon
import ref
from core import Family
from graphix import command
from graphix.clifford import Clifford
from graphix.optimization import StandardizedPattern, standardize
from graphix.pattern import Pattern, RunnabilityError, RunnabilityErrorReason

ID = "P11"
QUICK_SCALE = 3
RULE = (
    "Runnable patterns with one or two mutations (command moved, duplicated, deleted, node or domain entry changed) and short random command words. Oracle: an independent interpreter of liveness and outcome availability; "
    "check_runnability raises exactly when it fails, at the first offending command and for the matching reason; a pattern it accepts runs in the simulator, one it rejects is refused by every transformation. "
    "Non-trivial: sequence with at least 3 commands; distinct = command list."
)
ASSUMPTIONS = ["a domain reading its own node is reported as DomainSelfLoop, as documented"]
FLOORS = {"runnable": 500, "not_runnable": 800, "simulated": 60, "refused_by_transforms": 200}
WARM = "all"


def first_error(p):
    """(index, node candidates, reason) of the first command that cannot be executed."""
    live, dead = set(p.input_nodes), set()
    for k, c in enumerate(p):
        kind = c.kind.name
        if kind == "N":
            if c.node in live:
                return k, {("AlreadyActive", c.node)}
            if c.node in dead:
                return k, {("AlreadyMeasured", c.node)}
            live.add(c.node)
            continue
        errs = set()
        acts = tuple(c.nodes) if kind == "E" else () if kind == "T" else (c.node,)
        for v in acts:
            if v in dead:
                errs.add(("AlreadyMeasured", v))
            elif v not in live:
                errs.add(("NotYetActive", v))
        doms = set()
        if kind == "M":
            doms = set(c.s_domain) | set(c.t_domain)
            if c.node in doms:
                errs.add(("DomainSelfLoop", c.node))
        elif kind in ("X", "Z"):
            doms = set(c.domain)
        for d in doms:
            if d not in dead:
                errs.add(("NotYetMeasured", d))
        if errs:
            return k, errs
        if kind == "M":
            live.discard(c.node)
            dead.add(c.node)
    return None


def mutate(rng, p):
    cmds = [c for c in p]
    nodes = sorted(p.nodes()) or [0]
    for _ in range(int(rng.integers(1, 3))):
        if not cmds:
            break
        k = int(rng.integers(len(cmds)))
        r = int(rng.integers(6))
        c = cmds[k]
        v = int(gen.pick(rng, nodes + [max(nodes) + 1]))
        if r == 0:
            cmds.insert(int(rng.integers(len(cmds))), cmds.pop(k))
        elif r == 1:
            cmds.insert(int(rng.integers(len(cmds) + 1)), c)
        elif r == 2:
            cmds.pop(k)
        elif r == 3 and c.kind.name == "M":
            which = rng.random() < 0.5
            cmds[k] = command.M(c.node, c.measurement, set(c.s_domain) ^ ({v} if which else set()), set(c.t_domain) ^ (set() if which else {v}))
        elif r == 3 and c.kind.name in "XZ":
            cmds[k] = type(c)(c.node, set(c.domain) ^ {v})
        elif r == 4:
            cmds[k] = command.E((c.nodes[0], v)) if c.kind.name == "E" else c.reindex(lambda x, o=c.node, n=v: n if x == o else x) if c.kind.name != "T" else c
        else:
            cmds.insert(int(rng.integers(len(cmds) + 1)), gen.pick(rng, (command.N(v), command.X(v, set()), command.C(v, Clifford.H), command.M(v))))
    return Pattern(p.input_nodes, cmds)


def judge(ctx, rng, p):
    rep = repr(p)
    want = first_error(p)
    try:
        p.check_runnability()
        got = None
    except RunnabilityError as e:
        got = e
    if want is None:
        ctx.check(got is None, "runnable-rejected", f"runnable pattern rejected: {got}", pattern=rep)
        ctx.count("runnable")
    else:
        ctx.check(got is not None, "unrunnable-accepted", f"command {want[0]} cannot be executed: {sorted(want[1])}", pattern=rep)
        ctx.count("not_runnable")
        ctx.distinct("reasons", sorted(want[1])[0][0])
        ctx.check(got.cmd == list(p)[want[0]] and (got.reason.name, got.node) in want[1], "wrong-reason", f"reported {got.reason} on node {got.node} at {got.cmd!r}; first offending command is {want}", pattern=rep)
        ctx.check(str(got), "no-message", "empty message")
    if len(p) >= 3:
        ctx.nontrivial(rep)
    return want is None


def mutated(ctx, rng, i):
    n = int(rng.integers(1, 7))
    base = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), standardizable=bool(rng.random() < 0.5))
    p = base if rng.random() < 0.15 else mutate(rng, base)
    ctx.sample(repr(p))
    ok = judge(ctx, rng, p)
    if ok:
        if rng.random() < 0.25 and len(p) and not any(c.kind.name == "E" and c.nodes[0] == c.nodes[1] for c in p):
            p.simulate(rng=rng)
            ctx.count("simulated")
        return
    # nothing may turn an unrunnable pattern into a runnable one
    for name, f in (
        ("standardize", standardize),
        ("shift_signals", lambda q: q.copy().shift_signals()),
        ("shift_signals mc", lambda q: q.copy().shift_signals(method="mc")),
        ("StandardizedPattern", StandardizedPattern.from_pattern),
        ("minimize_space", lambda q: q.minimize_space(copy=True)),
        ("to_opengraph", lambda q: q.to_opengraph()),
        ("partial_order_layers", lambda q: q.partial_order_layers()),
        ("to_xzcorrections", lambda q: q.to_xzcorrections()),
    ):
        try:
            f(p)
        except RunnabilityError:
            ctx.count("refused_by_transforms")
        else:
            ctx.fail("hidden-unrunnable", f"{name} accepted a pattern that is not runnable", pattern=repr(p))


def words(ctx, rng, i):
    """Short words over two nodes reach every ordering of N/E/M/X/Z/C on a node."""
    ins = [[], [0], [0, 1]][int(rng.integers(3))]
    cmds = []
    for _ in range(int(rng.integers(1, 6))):
        v, w = (0, 1) if rng.random() < 0.5 else (1, 0)
        k = gen.pick(rng, "NEMMXZC")
        dom = gen.subset(rng, [v, w], 0.3)
        cmds.append({
            "N": lambda: command.N(v), "E": lambda: command.E((v, w)), "M": lambda: command.M(v, gen.measurement(rng), set(dom), gen.subset(rng, [v, w], 0.15)),
            "X": lambda: command.X(v, set(dom)), "Z": lambda: command.Z(v, set(dom)), "C": lambda: command.C(v, Clifford.S),
        }[k]())  # fmt: skip
    judge(ctx, rng, Pattern(ins, cmds))


assert {r.name for r in RunnabilityErrorReason} >= {"AlreadyActive", "AlreadyMeasured", "NotYetActive", "NotYetMeasured", "DomainSelfLoop"}

FAMILIES = [
    Family("mutated", mutated, 3000, 60000),
    Family("words", words, 5000, 80000),
]
