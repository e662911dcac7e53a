"""Standardisation: same branch maps, standard form, and a correct refusal."""

import re

import numpy as np

import gen
import mon
import ref
from core import Family
from graphix import command, optimization
from graphix.clifford import Clifford
from graphix.optimization import StandardizedPattern
from graphix.pattern import Pattern

ID = "P04"
RULE = (
    "Random runnable patterns with any interleaving of N/E/M/X/Z/C/T, repeated edges, random domains, planes, axes and prepared states "
    "(not deterministic), plus transpiled circuits. Oracle: the reference branch map of the standardised commands equals that of the original in every sampled branch; "
    "the command kinds match N*E*M*[ZX]*C*; refusals happen only for a Clifford that does not commute with CZ up to Paulis. "
    "Non-trivial: the pattern was not already standard; distinct = command list."
)
ASSUMPTIONS = ["branches beyond 16 per pattern are sampled"]
FLOORS = {"branches_compared": 3000, "standardized": 600, "clifford_before_e": 200, "refusals_checked": 2, "large": 300}
WARM = ()
FORM = re.compile(r"N*E*M*[XZ]*C*")
LAX = re.compile(r"N*E*M*[XZC]*")


def kinds(p):
    return "".join(c.kind.name for c in p)


def check_form(ctx, p, what):
    ctx.check(FORM.fullmatch(kinds(p)), "not-standard-form", f"{what}: kinds {kinds(p)}", pattern=repr(p))
    ctx.check(p.is_standard() and p.is_standard(strict=True), "is-standard-rejects", f"{what}: is_standard() is false on the standardised pattern", pattern=repr(p))
    seen = set()
    for c in p:
        if c.kind.name in "XZC":
            ctx.check((c.kind.name, c.node) not in seen, "duplicate-correction", what, pattern=repr(p))
            seen.add((c.kind.name, c.node))
        if c.kind.name == "E":
            e = frozenset(c.nodes)
            ctx.check(e not in seen, "duplicate-edge", what, pattern=repr(p))
            seen.add(e)


def pending_blocks(p):
    """Whether some E meets a Clifford that does not commute with CZ up to Pauli operators."""
    pend = {}
    for c in p:
        k = c.kind.name
        if k == "C":
            pend[c.node] = ref.CLIFFORD[c.clifford.value] @ pend.get(c.node, ref.I2)
        elif k == "E":
            for q in c.nodes:
                m = pend.get(q, ref.I2)
                if abs(m[0, 0]) > 1e-9 and abs(m[0, 1]) > 1e-9:
                    return True
    return False


def check(ctx, rng, p):
    before, rep = mon.cmds_key(p), repr(p)
    blocked = pending_blocks(p)
    try:
        q = optimization.standardize(p)
    except NotImplementedError:
        ctx.check(blocked, "spurious-refusal", "standardisation refused although every Clifford commutes with E up to Paulis", pattern=rep)
        ctx.count("refusals_checked")
        return
    ctx.check(mon.cmds_key(p) == before, "standardize-mutates", "optimization.standardize changed its argument", pattern=rep)
    if any(c.kind.name == "C" for c in p):
        ctx.count("patterns_with_cliffords")
    check_form(ctx, q, "standardize")
    ctx.check(q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes, "arity", "inputs/outputs changed", pattern=rep)
    mon.same_branches(ctx, p, q, rng, mech="standardize-semantics", what="standardize")
    ctx.count("standardized")
    if not FORM.fullmatch(kinds(p)):
        ctx.nontrivial(rep)
    # in-place form and idempotence
    r = p.copy()
    r.standardize()
    ctx.check(r == q, "inplace-differs", "Pattern.standardize differs from optimization.standardize", pattern=rep)
    ctx.check(mon.cmds_key(p) == before, "copy-aliases", "standardising a copy changed the original", pattern=rep)
    r.standardize()
    mon.same_branches(ctx, q, r, rng, limit=4, mech="standardize-semantics", what="standardize twice")
    s = StandardizedPattern.from_pattern(p).to_space_optimal_pattern()
    mon.same_branches(ctx, p, s, rng, limit=4, mech="space-optimal-semantics", what="to_space_optimal_pattern")
    # the graph of the standardised pattern: nodes are all nodes, edges have odd multiplicity
    g = StandardizedPattern.from_pattern(p).graph()
    par = {}
    for c in p:
        if c.kind.name == "E":
            e = frozenset(c.nodes)
            par[e] = par.get(e, 0) ^ 1
    ctx.check({frozenset(e) for e in g.edges} == {e for e, k in par.items() if k} and set(g.nodes) == p.nodes(), "graph", "StandardizedPattern.graph is not the parity graph", pattern=rep)


def raw(ctx, rng, i):
    n = int(rng.integers(1, 9))
    p = gen.raw_pattern(
        rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=float(gen.pick(rng, (0.0, 0.15, 0.4))), states=float(gen.pick(rng, (0, 0.4))),
        edges=float(gen.pick(rng, (0.8, 1.3, 2.2))), corrections=float(gen.pick(rng, (0.2, 0.5))), ticks=0.1 if rng.random() < 0.2 else 0,
    )  # fmt: skip
    ctx.sample(repr(p))
    check(ctx, rng, p)


def large(ctx, rng, i):
    """Many nodes, domains of up to a dozen results."""
    p = gen.big_pattern(rng)
    ctx.count("large")
    ctx.sample(repr(p))
    check(ctx, rng, p)


COMMUTING = [c for c in Clifford if abs(ref.CLIFFORD[c.value][0, 0]) < 1e-9 or abs(ref.CLIFFORD[c.value][0, 1]) < 1e-9]


def clifford_before_e(ctx, rng, i):
    """Cliffords anywhere: (anti)diagonal ones commute with E, others may be refused."""
    n = int(rng.integers(2, 7))
    p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=0.4, corrections=0.5, edges=2.0, standardizable=False)
    if rng.random() < 0.75:
        p = Pattern(p.input_nodes, [command.C(c.node, gen.pick(rng, COMMUTING)) if c.kind.name == "C" else c for c in p], p.output_nodes)
    if not any(c.kind.name == "C" for c in p):
        return
    ctx.count("clifford_before_e")
    check(ctx, rng, p)


def circuits(ctx, rng, i):
    c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 8)), measure=0.1 if rng.random() < 0.3 else 0)
    check(ctx, rng, c.transpile().pattern)


def is_standard(ctx, rng, i):
    """is_standard is exact on arbitrary command sequences (also almost-standard ones)."""
    n = int(rng.integers(1, 5))
    word = [k for k in "NEMXZC" for _ in range(int(rng.integers(0, 3)))]
    if rng.random() < 0.7 and word:
        for _ in range(int(rng.integers(0, 3))):
            a, b = rng.integers(0, len(word), 2)
            word[a], word[b] = word[b], word[a]
    mk = {
        "N": lambda: command.N(0), "E": lambda: command.E((0, 1)), "M": lambda: command.M(0, gen.measurement(rng)),
        "X": lambda: command.X(0, {1}), "Z": lambda: command.Z(0, {1}), "C": lambda: command.C(0, Clifford.H),
    }  # fmt: skip
    p = Pattern(cmds=[mk[k]() for k in word])
    w = "".join(word)
    ctx.check(p.is_standard() == bool(LAX.fullmatch(w)), "is-standard", f"is_standard() is {p.is_standard()} for {w}")
    ctx.check(p.is_standard(strict=True) == bool(FORM.fullmatch(w)), "is-standard-strict", f"is_standard(strict=True) wrong for {w}")
    ctx.count("is_standard_words")
    ctx.distinct("words", w)


FAMILIES = [
    Family("raw", raw, 2400, 30000),
    Family("large", large, 600, 8000),
    Family("clifford_before_e", clifford_before_e, 1500, 14000),
    Family("circuits", circuits, 240, 2500),
    Family("is_standard", is_standard, 1500, 20000),
]
