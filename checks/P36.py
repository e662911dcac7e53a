"""Circuits: what they accept, and histories of operations on related circuits."""

import warnings

import numpy as np

import gen
from core import Family
from graphix import instruction as I
from graphix.fundamentals import Axis
from graphix.instruction import InstructionKind, InstructionVisitor
from graphix.parameter import Placeholder
from graphix.qasm3_exporter import circuit_to_qasm3
from graphix.transpiler import Circuit, transpile_swaps

ID = "P36"
QUICK_SCALE = 2
RULE = (
    "Random histories over pools of circuits: gate methods, instructions one by one, in lists and from other circuits, measurements, on good and bad qubits (absent, measured, repeated), visitors, parameter substitution, copies, rewriting, transpilation, simulation and export. "
    "Oracle: a list of plain tuples and a set of live qubits per circuit, updated independently and compared for every circuit after every operation. Non-trivial: a history with a refusal or a visitor; distinct = history."
)
ASSUMPTIONS = ["a refusal is any exception raised by the call that adds the instruction"]
FLOORS = {"operations": 6000, "accepted": 4000, "refused": 1200, "visited": 500, "watched": 10000}
WARM = "all"

ONE = ("H", "S", "X", "Y", "Z", "I")
ROT = ("RX", "RY", "RZ", "J")
TWO = ("CNOT", "CZ", "SWAP")
A, B = Placeholder("a"), Placeholder("b")


def plain(g):
    """An instruction as a tuple: kind, qubits, angle or axis."""
    k = g.kind.name
    if k == "CCX":
        return k, (*g.controls, g.target), None
    if k in ("CNOT", "RZZ"):
        return k, (g.control, g.target), g.angle if k == "RZZ" else None
    if k in ("CZ", "SWAP"):
        return k, tuple(g.targets), None
    return k, (g.target,), g.axis if k == "M" else getattr(g, "angle", None)


def build(t):
    """The instruction object of a tuple."""
    k, q, x = t
    cls = getattr(I, k)
    if k == "CCX":
        return cls(target=q[2], controls=(q[0], q[1]))
    if k == "CNOT":
        return cls(target=q[1], control=q[0])
    if k == "RZZ":
        return cls(target=q[1], control=q[0], angle=x)
    if k in ("CZ", "SWAP"):
        return cls(targets=(q[0], q[1]))
    if k == "M":
        return cls(target=q[0], axis=x)
    return cls(target=q[0], angle=x) if k in ROT else cls(target=q[0])


def call(c, t, rng):
    """The method of Circuit for a tuple."""
    k, q, x = t
    if k in ("RX", "RY", "RZ") and rng.random() < 0.3:
        return c.r(q[0], Axis[k[1]], x)
    return getattr(c, k.lower())(*q, *([] if x is None else [x]))


class Model:
    def __init__(self, width):
        self.width, self.gates, self.live = width, [], set(range(width))

    def ok(self, t):
        return len(set(t[1])) == len(t[1]) and set(t[1]) <= self.live

    def push(self, t):
        self.gates.append(t)
        if t[0] == "M":
            self.live.discard(t[1][0])



def fork(m):
    n = Model(m.width)
    n.gates, n.live = list(m.gates), set(m.live)
    return n


def gate(rng, m, bad=0.2):
    """A random tuple; with probability `bad` probably on a qubit that is absent, measured or repeated."""
    pool = sorted(m.live)
    if rng.random() < bad or not pool:
        pool = [-1, *range(m.width), m.width, m.width + 3] + pool
    k = gen.pick(rng, (*ONE, *ROT, *TWO, *TWO, "RZZ", "CCX", "M"))
    n = 3 if k == "CCX" else 2 if k in TWO or k == "RZZ" else 1
    replace = rng.random() < bad or len(pool) < n
    q = tuple(int(pool[j]) for j in rng.choice(len(pool), size=n, replace=bool(replace)))
    x = None
    if k in ROT or k == "RZZ":
        x = gen.pick(rng, (A, B, A * 2 + 0.5)) if rng.random() < 0.2 else gen.angle(rng)
    elif k == "M":
        x = gen.pick(rng, gen.AXES)
    return k, q, x


class Log(InstructionVisitor):
    """A visitor that permutes qubits, shifts angles and rotates axes, and remembers what it was shown."""

    def __init__(self, perm):
        self.perm, self.qubits, self.angles, self.axes = perm, [], [], []

    def visit_qubit(self, qubit):
        self.qubits.append(qubit)
        return self.perm[qubit]

    def visit_angle(self, angle):
        self.angles.append(angle)
        return angle + 0.125

    def visit_axis(self, axis):
        self.axes.append(axis)
        return gen.AXES[(gen.AXES.index(axis) + 1) % 3]

    def expect(self, t):
        k, q, x = t
        if k == "M":
            x = gen.AXES[(gen.AXES.index(x) + 1) % 3]
        elif x is not None:
            x = x + 0.125
        return k, tuple(self.perm[v] for v in q), x


def without_swaps(m):
    n, where, bit = Model(m.width), [("Qubit", v) for v in range(m.width)], 0
    for k, q, x in m.gates:
        if k == "SWAP":
            where[q[0]], where[q[1]] = where[q[1]], where[q[0]]
            continue
        n.push((k, tuple(where[v][1] for v in q), x))
        if k == "M":
            where[q[0]] = ("Bit", bit)
            bit += 1
    return n, where


def subst(x, assignment):
    return x if x is None or isinstance(x, (int, float, Axis)) else x.xreplace(assignment)


def numeric(m):
    return all(not hasattr(t[2], "xreplace") for t in m.gates)


def compare(ctx, c, m, what):
    ctx.check(c.width == m.width, "width", f"width is {c.width} after {what}")
    got = [plain(g) for g in c.instruction]
    ctx.check(got == m.gates, "instructions", f"instructions differ after {what}", got=repr(got), expected=repr(m.gates))
    ctx.check(set(c.active_qubits) == m.live, "active", f"active qubits are {set(c.active_qubits)}, expected {m.live} after {what}")
    ctx.check(c.is_parameterized() == (not numeric(m)), "parameterized", f"is_parameterized() is {c.is_parameterized()} after {what}", circuit=repr(c))


def refused(f):
    try:
        f()
    except Exception:  # noqa: BLE001
        return True
    return False


def history(ctx, rng, i):
    def fresh():
        w = int(rng.integers(1, 5)) if rng.random() < 0.9 else int(rng.integers(5, 13))
        return Circuit(w), Model(w)

    pool = [fresh()]
    trace = []
    hard = 0
    for _ in range(int(rng.integers(8, 28))):
        k = int(rng.integers(len(pool)))
        c, m = pool[k]
        op = gen.pick(rng, ("method", "method", "method", "add", "add", "extend", "construct", "visit", "visit_copy", "angles", "subst", "subst_copy", "read", "fresh"))
        trace.append(op)
        ctx.count("operations")
        if op in ("method", "add"):
            t = gate(rng, m)
            obj = build(t)
            f = (lambda: call(c, t, rng)) if op == "method" else (lambda: c.add(obj))
            good = m.ok(t)
            bad = refused(f)
            ctx.check(bad == (not good), "accepts-bad" if not bad else "refuses-good", f"{t} on live qubits {sorted(m.live)} was {'refused' if bad else 'accepted'} ({op})", gates=repr(m.gates))
            ctx.count("refused" if bad else "accepted")
            hard += bad
            if good:
                m.push(t)
            if op == "add" and good:  # the caller's object stays the caller's
                obj.visit(Log({v: v + 50 for v in t[1]}), copy=False)
        elif op == "extend":
            ts = []
            mm = fork(m)
            for _ in range(int(rng.integers(0, 5))):
                t = gate(rng, mm, bad=0.0)
                if mm.ok(t):
                    ts.append(t)
                    mm.push(t)
            src = [build(t) for t in ts]
            c.extend(gen.pick(rng, (list, tuple, iter))(src))
            pool[k] = (c, mm)
            ctx.count("accepted", len(ts))
        elif op == "construct":
            d = Circuit(m.width, gen.pick(rng, (list, iter))(c.instruction))
            pool.append((d, fork(m)))
        elif op in ("visit", "visit_copy"):
            perm = dict(enumerate(int(x) for x in rng.permutation(m.width)))
            log = Log(perm)
            d = c.visit(log, copy=op == "visit_copy")
            n = fork(m)
            n.gates = [log.expect(t) for t in m.gates]
            n.live = {perm[v] for v in m.live}
            hard += 1
            ctx.count("visited", len(m.gates))
            ctx.check(sorted(log.qubits) == sorted(v for t in m.gates for v in t[1]), "visit-qubits", f"the visitor saw qubits {log.qubits}", gates=repr(m.gates))
            ctx.check([repr(x) for x in log.angles] == [repr(t[2]) for t in m.gates if t[0] in ROT or t[0] == "RZZ"], "visit-angles", f"the visitor saw angles {log.angles}", gates=repr(m.gates))
            ctx.check(log.axes == [t[2] for t in m.gates if t[0] == "M"], "visit-axes", f"the visitor saw axes {log.axes}", gates=repr(m.gates))
            ctx.check((d is c) == (op == "visit"), "visit-identity", f"{op} returned {'the same' if d is c else 'another'} circuit")
            if op == "visit":
                pool[k] = (c, n)
            else:
                pool.append((d, n))
        elif op == "angles":
            copy = bool(rng.integers(2))
            d = c.apply_angle(lambda x: x * 0.5 + 0.25, copy=copy)
            n = fork(m)
            n.gates = [(a, q, x * 0.5 + 0.25 if a in ROT or a == "RZZ" else x) for a, q, x in m.gates]
            ctx.check((d is c) != copy, "visit-identity", "apply_angle")
            if copy:
                pool.append((d, n))
            else:
                pool[k] = (c, n)
        elif op in ("subst", "subst_copy"):
            one = bool(rng.integers(2))
            assignment = {A: 0.375} if one else {A: 0.25, B: 1.5}
            if op == "subst":
                d = c.replace_parameter(A, 0.375) if one else c.replace_parameters(assignment)
            else:
                d = gen.pick(rng, (
                    lambda: c.replace_parameter(A, 0.375, copy=True) if one else c.replace_parameters(assignment, copy=True),
                    lambda: c.with_parameter(A, 0.375) if one else c.with_parameters(assignment),
                ))()  # fmt: skip
            n = fork(m)
            n.gates = [(a, q, subst(x, assignment)) for a, q, x in m.gates]
            ctx.check((d is c) == (op == "subst"), "visit-identity", op)
            if op == "subst":
                pool[k] = (c, n)
            else:
                pool.append((d, n))
        elif op == "fresh":
            pool.append(fresh())
        else:
            what = gen.pick(rng, ("transpile", "flow", "swaps", "z_axis", "rzh", "simulate", "qasm", "repr"))
            trace[-1] = what
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if what == "transpile":
                    c.transpile()
                elif what == "flow" and all(t[0] != "SWAP" for t in m.gates):
                    c.transpile_to_causalflow()
                elif what == "swaps":
                    copy = bool(rng.integers(2))
                    r = transpile_swaps(c, copy=copy)
                    n, outs = without_swaps(m)
                    ctx.check([(o.kind.name, o.index) for o in r.outputs] == outs, "swap-outputs", f"outputs {r.outputs}, expected {outs}", gates=repr(m.gates))
                    ctx.check((r.circuit is c) != copy, "visit-identity", "transpile_swaps")
                    if copy:
                        pool.append((r.circuit, n))
                    else:
                        pool[k] = (c, n)
                elif what == "z_axis":
                    r = c.transpile_measurements_to_z_axis()
                    ctx.check(set(r.active_qubits) == m.live and all(g.kind != InstructionKind.M or g.axis == Axis.Z for g in r.instruction), "z-axis-left", "a measurement is not on the Z axis", circuit=repr(c))
                    r.apply_angle(lambda x: x + 1)
                    r.visit(Log(dict(enumerate(range(m.width)))))
                elif what == "rzh":
                    r = c.transpile_j_to_rzh()
                    ctx.check(set(r.active_qubits) == m.live and all(g.kind != InstructionKind.J for g in r.instruction), "j-left", "a J gate was left", circuit=repr(c))
                    r.apply_angle(lambda x: x + 1)
                    r.visit(Log(dict(enumerate(range(m.width)))))
                elif what == "simulate" and numeric(m):
                    r = c.simulate(rng=np.random.default_rng(i))
                    ctx.check(len(r.classical_measures) == m.width - len(m.live) and r.state.nqubit == len(m.live), "simulate-shape", "", gates=repr(m.gates))
                elif what == "qasm" and numeric(m) and all(t[0] != "M" or t[2] == Axis.Z for t in m.gates):
                    circuit_to_qasm3(c)
                elif what == "repr":
                    repr(c)
        if len(pool) > 6:
            pool = [pool[j] for j in sorted(rng.choice(len(pool), 4, replace=False))]
        for d, n in pool:
            compare(ctx, d, n, trace)
        ctx.count("watched", len(pool))
        ctx.distinct("kinds", trace[-1])
    if hard:
        ctx.nontrivial((trace, [repr(m.gates) for _, m in pool]))
    ctx.sample(f"history: {trace}")


def refusals(ctx, rng, i):
    """Every gate, with one wrong qubit in every place and in every way, by method, add, extend and constructor."""
    w = int(rng.integers(3, 6))
    dead = int(rng.integers(w))
    base = [("H", (v,), None) for v in range(w)] + [("M", (dead,), gen.pick(rng, gen.AXES))]
    live = [v for v in range(w) if v != dead]
    for k in (*ONE, *ROT, *TWO, "RZZ", "CCX", "M"):
        n = 3 if k == "CCX" else 2 if k in TWO or k == "RZZ" else 1
        x = gen.angle(rng) if k in ROT or k == "RZZ" else gen.pick(rng, gen.AXES) if k == "M" else None
        if len(live) < n:
            continue
        good = [int(v) for v in rng.choice(live, n, replace=False)]
        for place in range(n):
            for wrong in (dead, w, -1, w + 7, *([good[(place + 1) % n]] if n > 1 else []), *([good[(place + 2) % n]] if n > 2 else [])):
                q = tuple(wrong if j == place else v for j, v in enumerate(good))
                t = (k, q, x)
                m = Model(w)
                for g in base:
                    m.push(g)
                c = Circuit(w, [build(g) for g in base])
                how = gen.pick(rng, ("method", "add", "extend", "construct"))
                f = {
                    "method": lambda: call(c, t, rng), "add": lambda: c.add(build(t)), "extend": lambda: c.extend([build(t)]),
                    "construct": lambda: Circuit(w, [build(g) for g in [*base, t]]),
                }[how]  # fmt: skip
                ctx.check(refused(f), "accepts-bad", f"{t} accepted by {how} although qubit {dead} of {w} was measured")
                ctx.count("refused")
                compare(ctx, c, m, f"refused {t}")
        t = (k, tuple(good), x)
        c = Circuit(w, [build(g) for g in base])
        ctx.check(not refused(lambda: call(c, t, rng)), "refuses-good", f"{t} refused on live qubits {live}")
        ctx.check(plain(c.instruction[-1]) == t, "instructions", f"{t} became {c.instruction[-1]!r}")
        ctx.count("accepted")
    ctx.nontrivial((w, dead, i))


FAMILIES = [
    Family("history", history, 1500, 40000),
    Family("refusals", refusals, 60, 2000),
]
