"""OpenQASM 3 exports interpreted by an independent OpenQASM 3 interpreter."""

import ast
import itertools
import math
import operator
import os
import re
import shutil
import tempfile
from pathlib import Path

import numpy as np

import gen
import mon
import ref
from core import Family, Skip
from graphix import command
from graphix.fundamentals import Axis, Plane
from graphix.measurements import Measurement
from graphix.optimization import single_qubit_domains
from graphix.parameter import Placeholder
from graphix.pattern import Pattern
from graphix.qasm3_exporter import angle_to_qasm3, circuit_to_qasm3, circuit_to_qasm3_lines, pattern_to_qasm3
from graphix.states import BasicStates, PlanarState
from graphix.transpiler import Circuit

try:  # the reference OpenQASM 3 parser, when installed, also has to accept the text
    import openqasm3
except ImportError:  # pragma: no cover
    openqasm3 = None

ID = "P27"
QUICK_SCALE = 6
RULE = (
    "Random circuits over the whole gate set with mid-circuit measurements on any axis, random patterns (any planes, domains, Cliffords, |0>/|+> nodes), transpiled and optimised patterns, single_qubit_domains, single commands, angles. "
    "Oracle: an independent interpreter of the exported OpenQASM 3 text (declarations, scopes, gates of stdgates.inc, conditions), compared with the reference interpreter for the same outcomes. Non-trivial: a program with a measurement or a generic angle; distinct = exported text."
)
ASSUMPTIONS = ["node labels are not negative (qN and cN would not be identifiers)", "gates have the meaning of stdgates.inc, up to a global phase; text accepted by the installed openqasm3 parser (sampled)"]
FLOORS = {"circuits": 250, "circuit_branches": 700, "patterns": 200, "pattern_branches": 900, "conditions": 500, "xor_conditions": 150, "single_domain": 60, "angles": 2500, "refused": 60, "parsed": 60, "files": 20, "rzz": 30}
WARM = ()
TOL = 1e-6


class Qasm(Exception):
    pass


def unitary(name, args):
    one = {"id": ref.I2, "x": ref.X, "y": ref.Y, "z": ref.Z, "s": ref.S, "sdg": ref.S.conj().T, "h": ref.H}
    if name in one:
        return one[name], 0
    if name in ("rx", "ry", "rz"):
        t = args[0] / 2
        return math.cos(t) * ref.I2 - 1j * math.sin(t) * ref.PAULI[name[1].upper()], 1
    if name == "cx":
        return ref.CNOT, 0
    if name == "cz":
        return ref.CZ, 0
    if name == "swap":
        return ref.SWAP, 0
    if name == "ccx":
        return ref.CCX, 0
    if name == "crz":
        return np.diag([1, 1, np.exp(-0.5j * args[0]), np.exp(0.5j * args[0])]), 1
    raise Qasm(f"unknown gate {name}")


OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv}


def value(text):
    def ev(n):
        if isinstance(n, ast.Expression):
            return ev(n.body)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            return n.value
        if isinstance(n, ast.Name) and n.id == "pi":
            return math.pi
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return -ev(n.operand)
        if isinstance(n, ast.BinOp) and type(n.op) in OPS:
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Div) and isinstance(a, int) and isinstance(b, int):
                return a // b  # OpenQASM 3: integer division
            return OPS[type(n.op)](a, b)
        raise Qasm(f"unsupported expression {text}")

    try:
        return float(ev(ast.parse(text.strip(), mode="eval")))
    except SyntaxError:
        raise Qasm(f"malformed expression {text!r}") from None


def split_args(text):
    return [t.strip() for t in text.split(",")]


class Machine:
    """Statevector over declared qubits; measured bits forced; records how it was used."""

    def __init__(self, forced, initial=None, alt_crz=False):
        self.forced, self.initial, self.alt = forced, initial or {}, alt_crz
        self.q, self.bits, self.order = {}, {}, []
        self.t = np.ones((), dtype=complex)
        self.conditions = self.xors = self.measures = self.gates = 0
        self.done = set()

    def declare(self, name):
        if name in self.q or name in self.bits:
            raise Qasm(f"{name} is declared twice")
        self.q[name] = self.t.ndim
        self.t = np.multiply.outer(self.t, self.initial.get(name, np.array([1, 0], dtype=complex)))

    def qubit(self, name):
        if name not in self.q:
            raise Qasm(f"qubit {name} is not declared")
        if name in self.done:
            raise Qasm(f"qubit {name} is used after its measurement")
        return self.q[name]

    def bit(self, name):
        if self.bits.get(name) is None:
            raise Qasm(f"bit {name} is read before it is set")
        return self.bits[name]

    def gate(self, text):
        m = re.fullmatch(r"([a-z]+)(?:\(([^()]*)\))? (.+)", text)
        if not m:
            raise Qasm(f"malformed statement {text!r}")
        name, args, ops = m.groups()
        args = [value(a) for a in split_args(args)] if args is not None else []
        qs = [self.qubit(o) for o in split_args(ops)]
        u, nargs = unitary(name, args + [0.0])
        if self.alt and name == "crz":
            u = np.diag(np.exp(-0.5j * args[0] * np.array([1, -1, -1, 1])))
        if len(args) != nargs or u.shape[0] != 2 ** len(qs) or len(set(qs)) != len(qs):
            raise Qasm(f"wrong operands in {text!r}")
        self.gates += 1
        k = len(qs)
        t = np.tensordot(u.reshape((2,) * (2 * k)), self.t, axes=(range(k, 2 * k), qs))
        self.t = np.moveaxis(t, range(k), qs)

    def run(self, text):
        text = re.sub(r"//[^\n]*", "", text)
        toks = [s for s in re.split(r"(;|\{|\})", text)]
        stack = [True]
        header = []
        buf = ""
        for tok in toks:
            if tok == "{":
                m = re.fullmatch(r"if \((.*)\)", buf.strip())
                if not m:
                    raise Qasm(f"malformed block {buf!r}")
                names = [x.strip() for x in m.group(1).split("^")]
                if not all(re.fullmatch(r"[a-z]\w*", x) for x in names):
                    raise Qasm(f"malformed condition {buf!r}")
                self.conditions += 1
                self.xors += len(names) > 1
                stack.append(sum(self.bit(x) for x in names) % 2 == 1)
                buf = ""
            elif tok == "}":
                if buf.strip():
                    raise Qasm(f"missing semicolon after {buf!r}")
                stack.pop()
                if not stack:
                    raise Qasm("unbalanced braces")
                buf = ""
            elif tok == ";":
                s = " ".join(buf.split())
                buf = ""
                if len(header) < 2:
                    header.append(s)
                    want = ("OPENQASM 3", 'include "stdgates.inc"')[len(header) - 1]
                    if s != want:
                        raise Qasm(f"statement {s!r} instead of {want!r}")
                    continue
                if all(stack):
                    self.statement(s, len(stack) > 1)
            else:
                buf += tok
        if buf.strip() or len(stack) != 1 or len(header) < 2:
            raise Qasm("truncated program")

    def statement(self, s, nested):
        if m := re.fullmatch(r"qubit(?:\[(\d+)\])? ([a-z]\w*)", s):
            if nested:
                raise Qasm("qubit declared in a block")
            n, name = m.groups()
            for x in [name] if n is None else [f"{name}[{k}]" for k in range(int(n))]:
                self.declare(x)
        elif m := re.fullmatch(r"bit(?:\[(\d+)\])? ([a-z]\w*)", s):
            n, name = m.groups()
            for x in [name] if n is None else [f"{name}[{k}]" for k in range(int(n))]:
                if x in self.q or x in self.bits or nested:
                    raise Qasm(f"{x} is declared twice or in a block")
                self.bits[x] = None
        elif m := re.fullmatch(r"([a-z]\w*(?:\[\d+\])?) = measure ([a-z]\w*(?:\[\d+\])?)", s):
            b, qn = m.groups()
            if b not in self.bits:
                raise Qasm(f"bit {b} is not declared")
            ax = self.qubit(qn)
            out = self.forced(b, qn)
            keep = np.zeros(2)
            keep[out] = 1
            self.t = np.moveaxis(np.moveaxis(self.t, ax, -1) * keep, -1, ax)
            self.bits[b] = out
            self.measures += 1
            self.done.add(qn)
        else:
            self.gate(s)

    def vector(self, names, measured):
        """Amplitudes of `names`, the other qubits being in the basis state they were measured in."""
        t = self.t
        idx = [slice(None)] * t.ndim
        for name, ax in self.q.items():
            if name not in names:
                if name not in measured:
                    raise Qasm(f"qubit {name} is neither measured nor an output")
                idx[ax] = measured[name]
        t = t[tuple(idx)]
        rest = [n for n in self.q if n in names]
        return np.transpose(t, [rest.index(n) for n in names]).reshape(-1)


def execute(ctx, text, forced, initial=None, alt=False, mech="invalid-program"):
    m = Machine(forced, initial, alt)
    try:
        m.run(text)
    except Qasm as e:
        ctx.fail(mech, f"{e}", text=text)
    ctx.count("conditions", m.conditions)
    ctx.count("xor_conditions", m.xors)
    return m


def parsed(ctx, text, rng, p=0.15):
    if openqasm3 is None:
        ctx.count("parsed")
        return
    if gen.chance(rng, p):
        try:
            openqasm3.parse(text)
        except Exception as e:  # noqa: BLE001
            ctx.fail("not-parsed", f"the OpenQASM 3 parser refuses the exported text: {e!r}", text=text)
        ctx.count("parsed")


def circuit_case(ctx, rng, c, transpile, known=False):
    n = c.width
    before = list(c.instruction)
    text = circuit_to_qasm3(c, transpile=transpile)
    ctx.check(list(c.instruction) == before, "circuit-modified", "circuit_to_qasm3 modified the circuit")
    ctx.check(text == "\n".join(circuit_to_qasm3_lines(c, transpile=transpile)), "lines", "circuit_to_qasm3_lines differs from circuit_to_qasm3")
    parsed(ctx, text, rng)
    meas = [k for k in c.instruction if k.kind.name == "M"]
    psi = ref.haar_state(rng, n)
    bitsets = list(itertools.product((0, 1), repeat=len(meas)))
    if len(bitsets) > 4:
        bitsets = [bitsets[int(k)] for k in rng.choice(len(bitsets), 4, replace=False)]
    for bits in bitsets:
        want, live = ref.circuit_kraus(c.instruction, n, list(bits), psi)
        by = {f"q[{k.target}]": b for k, b in zip(meas, bits)}
        if len(by) != len(meas):
            raise Skip

        def run(alt):
            class Loaded(Machine):
                """Starts the register in an arbitrary state instead of |0...0>."""

                def declare(self, name):
                    super().declare(name)
                    if len(self.q) == n:
                        self.t = psi.reshape((2,) * n).astype(complex)

            m = Loaded(lambda b, q: by[q], None, alt)
            try:
                m.run(text)
            except Qasm as e:
                ctx.fail("circuit-invalid", f"{e}", text=text, circuit=gen.describe(c))
            ctx.check(m.measures == len(meas), "circuit-measures", "number of measurements in the export", text=text)
            names = [f"q[{k}]" for k in live]
            for k in meas:
                ctx.check(m.bits[f"b[{k.target}]"] == by[f"q[{k.target}]"], "circuit-bit", "the measured bit of the qubit is not the one set", text=text)
            return m.vector(names, by)

        ctx.count("circuit_branches")
        if ref.phase_dist(run(False), want) > TOL:
            if known and ref.phase_dist(run(True), want) < TOL:
                ctx.fail("qasm3-rzz-as-crz", "RZZ is exported as crz, which is a controlled RZ in stdgates.inc", circuit=gen.describe(c))
            ctx.fail("circuit-semantics", "the exported circuit differs from the circuit", text=text, circuit=gen.describe(c), bits=bits)


def circuits(ctx, rng, i):
    n = int(rng.integers(1, 5)) if rng.random() < 0.9 else int(rng.integers(5, 14))
    c = gen.circuit(rng, n, int(rng.integers(1, 14)), measure=0.15, exclude=("rzz",), ccx=0.1)
    if i % 4 == 0:
        c = gen.circuit(rng, n, int(rng.integers(1, 14)), exclude=("rzz", "j"), ccx=0.1)
    kinds = {k.kind.name for k in c.instruction}
    plain = "J" not in kinds and all(k.axis == Axis.Z for k in c.instruction if k.kind.name == "M")
    ctx.nontrivial(circuit_to_qasm3(c))
    circuit_case(ctx, rng, c, True)
    ctx.count("circuits")
    if plain:
        circuit_case(ctx, rng, c, False)
        ctx.count("untranspiled")
    else:
        try:
            circuit_to_qasm3(c, transpile=False)
            ctx.fail("not-refused", "J gates or X/Y measurements exported with transpile=False", circuit=gen.describe(c))
        except ValueError:
            ctx.count("refused")


def rzz(ctx, rng, i):
    n = int(rng.integers(2, 4))
    c = gen.circuit(rng, n, int(rng.integers(0, 4)), exclude=("rzz", "j"))
    a, b = (int(x) for x in rng.permutation(n)[:2])
    c.rzz(a, b, gen.angle(rng))
    ctx.count("rzz")
    text = circuit_to_qasm3(c)
    ctx.nontrivial(text)
    circuit_case(ctx, rng, c, bool(i % 2), known=True)


def node_states(p, rng):
    """The pattern with every prepared node in |0> or |+>."""
    q = Pattern(input_nodes=p.input_nodes)
    for cmd in p:
        if cmd.kind.name == "N":
            q.add(command.N(cmd.node, gen.pick(rng, (BasicStates.PLUS, BasicStates.PLUS, BasicStates.ZERO))))
        elif cmd.kind.name != "T":
            q.add(cmd)
    q.reorder_output_nodes(p.output_nodes)
    return q


def pattern_case(ctx, rng, p, what="pattern"):
    inputs = list(p.input_nodes)
    choice = {v: gen.pick(rng, (BasicStates.PLUS, BasicStates.ZERO)) for v in inputs}
    how = rng.integers(3)
    if how == 0:
        arg, kw = BasicStates.PLUS, {}
        choice = dict.fromkeys(inputs, BasicStates.PLUS)
    elif how == 1:
        s = gen.pick(rng, (BasicStates.PLUS, BasicStates.ZERO))
        choice, kw = dict.fromkeys(inputs, s), {"input_state": s}
    else:
        kw = {"input_state": dict(choice)}
    frozen = mon.Frozen(p)
    text = pattern_to_qasm3(p, **kw)
    frozen.check(ctx, "pattern-modified", "pattern_to_qasm3 modified the pattern")
    parsed(ctx, text, rng)
    ctx.nontrivial(text)
    psi = ref.kron(*(ref.state_vec(choice[v]) for v in inputs)) if inputs else np.ones(1)
    psi = np.asarray(psi).reshape(-1)
    nodes = ref.measured_nodes(list(p))
    if len(p.nodes()) > 11:
        raise Skip
    for res in ref.branches(nodes, rng, 6):
        want = (mon.ref_kraus(p, res) @ psi).reshape(-1)
        m = execute(ctx, text, lambda b, q: res[int(q[1:])], mech=f"{what}-invalid")
        ctx.check(set(m.q) == {f"q{v}" for v in p.nodes()}, f"{what}-qubits", "qubits of the exported program", text=text)
        ctx.check({int(k[1:]): v for k, v in m.bits.items()} == dict(res), f"{what}-bits", "bits of the exported program", text=text)
        try:
            got = m.vector([f"q{v}" for v in p.output_nodes], {f"q{k}": v for k, v in res.items()})
        except Qasm as e:
            ctx.fail(f"{what}-outputs", str(e), text=text)
        ctx.count("pattern_branches")
        ctx.check(abs(np.linalg.norm(got) - np.linalg.norm(want)) < TOL, f"{what}-probability", "probability of the branch", text=text, results=res)
        ctx.check(np.linalg.norm(want) < 1e-6 or ref.phase_dist(got, want) < TOL, f"{what}-semantics", "the exported program differs from the pattern", text=text, results=res)
    ctx.count("patterns")
    return text


def raw(ctx, rng, i):
    if rng.random() < 0.9:
        p = gen.raw_pattern(rng, int(rng.integers(1, 9)), int(rng.integers(0, 4)), cliffords=0.2, corrections=0.4, natural=True)
    else:
        p = gen.big_pattern(rng, 10, 13, cliffords=0.2, natural=True)
    p = node_states(p, rng)
    pattern_case(ctx, rng, p)
    q = single_qubit_domains(p)
    mon_frozen = mon.cmds_key(p)
    ctx.check(all(len(d) <= 1 for c in q for d in ((c.s_domain, c.t_domain) if c.kind.name == "M" else (c.domain,) if c.kind.name in "XZ" else ())), "domains", "single_qubit_domains left a domain with several qubits")
    ctx.check(mon.cmds_key(p) == mon_frozen and list(q.input_nodes) == list(p.input_nodes) and list(q.output_nodes) == list(p.output_nodes), "domains", "single_qubit_domains changed the pattern, its inputs or its outputs")
    mon.same_branches(ctx, p, q, rng, limit=8, mech="single-domains", what="single_qubit_domains")
    text = pattern_case(ctx, rng, q, "single")
    ctx.check("^" not in re.sub(r"//[^\n]*", "", text), "domains", "xor left after single_qubit_domains", text=text)
    ctx.count("single_domain")


def transpiled(ctx, rng, i):
    c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 5)), measure=0.1, ccx=0)
    p = c.transpile().pattern
    r = i % 4
    if r == 1:
        p.standardize()
        p.shift_signals()
        if any(k.kind.name in "ST" for k in p):
            raise Skip
    elif r == 2:
        p = p.infer_pauli_measurements() or p
        p.remove_pauli_measurements()
    p.minimize_space()
    if len(p.nodes()) > 11:
        raise Skip
    pattern_case(ctx, rng, p, "transpiled")


def single(ctx, rng, i):
    """One measurement command: every plane and axis, every angle, both signals, every input."""
    p = Pattern(input_nodes=[3, 4, 5])
    m = gen.measurement(rng)
    p.add(command.M(3, Measurement.Z))
    p.add(command.M(4, Measurement.Z))
    p.add(command.M(5, m, s_domain=gen.subset(rng, {3, 4}), t_domain=gen.subset(rng, {3, 4})))
    text = pattern_to_qasm3(p, input_state={3: BasicStates.PLUS, 4: BasicStates.PLUS, 5: BasicStates.ZERO})
    ctx.nontrivial(text)
    psi = np.asarray(ref.haar_state(rng, 1)).reshape(-1)
    want_in = ref.kron(ref.state_vec(BasicStates.PLUS), ref.state_vec(BasicStates.PLUS), psi).reshape(-1)
    for res in ref.branches([3, 4, 5], rng, 8):
        want = (mon.ref_kraus(p, res) @ want_in).reshape(-1)
        ini = {"q5": psi}
        mm = execute(ctx, text, lambda b, q: res[int(q[1:])], ini)
        got = mm.vector([], {f"q{k}": v for k, v in res.items()})
        ctx.check(abs(abs(got[0]) - abs(want[0])) < TOL, "measurement", "probability of the measured outcome in the export", measurement=m, text=text)
        ctx.count("pattern_branches")


def angles(ctx, rng, i):
    for _ in range(20):
        r = rng.random()
        if r < 0.3:
            a = int(rng.integers(-40, 41)) / int(rng.integers(1, 33))
        elif r < 0.5:
            a = gen.angle(rng)
        elif r < 0.7:
            a = float(rng.uniform(-4, 4))
        elif r < 0.85:
            a = float(gen.pick(rng, (0.25, 1 / 3, 0.5, 1.0, 2 / 7)) + rng.normal() * 10.0 ** -int(rng.integers(3, 12)))
        else:
            a = float(rng.normal() * 10.0 ** int(rng.integers(-12, 4)))
        t = angle_to_qasm3(a)
        ctx.count("angles")
        ctx.nontrivial(t)
        try:
            v = value(t)
        except Qasm as e:
            ctx.fail("angle-syntax", str(e), angle=a)
        ctx.check(abs(v - a * math.pi) <= 1e-7 * max(1, abs(a)), "angle-value", f"angle {a!r} pi exported as {t}")


def refusals(ctx, rng, i):
    x = Placeholder("x")

    def refuses(exc, fn, what):
        try:
            fn()
        except exc:
            ctx.count("refused")
            return
        ctx.fail("not-refused", what)

    a = 2 * x if i % 2 else x
    c = Circuit(2)
    getattr(c, gen.pick(rng, ("rx", "ry", "rz", "j")))(0, a)
    refuses(TypeError, lambda: circuit_to_qasm3(c), "symbolic circuit exported")
    p = Pattern(input_nodes=[0])
    p.add(command.M(0, getattr(Measurement, gen.pick(rng, ("XY", "YZ", "XZ")))(a)))
    refuses(TypeError, lambda: pattern_to_qasm3(p), "symbolic pattern exported")
    s = gen.pick(rng, (BasicStates.MINUS, BasicStates.ONE, BasicStates.PLUS_I, BasicStates.MINUS_I, PlanarState(Plane.XY, float(rng.uniform(0.1, 1.9)))))
    q = Pattern(input_nodes=[0])
    q.add(command.N(1, s))
    refuses(ValueError, lambda: pattern_to_qasm3(q), f"node in {s} exported")
    refuses(ValueError, lambda: pattern_to_qasm3(Pattern(input_nodes=[0]), input_state=s), f"input in {s} exported")
    refuses(ValueError, lambda: pattern_to_qasm3(Pattern(input_nodes=[0, 1]), input_state={0: BasicStates.ZERO, 1: s}), f"input in {s} exported")
    t = Pattern(input_nodes=[0], cmds=[command.T()])
    refuses(ValueError, lambda: pattern_to_qasm3(t), "command without OpenQASM 3 equivalent exported")
    # files
    d = Path(tempfile.mkdtemp(prefix="p27_", dir=os.environ.get("TMPDIR")))
    try:
        r = node_states(gen.raw_pattern(rng, 4, 1, natural=True), rng)
        f = d / gen.pick(rng, ("a", "a.qasm", "b.txt"))
        st = gen.pick(rng, (BasicStates.ZERO, BasicStates.PLUS))
        r.to_qasm3(f if i % 2 else str(f), input_state=st)
        ctx.check([x.name for x in d.iterdir()] == [f.stem + ".qasm"], "file", "name of the exported file")
        ctx.check((d / (f.stem + ".qasm")).read_text(encoding="utf-8") == pattern_to_qasm3(r, input_state=st), "file", "Pattern.to_qasm3 and pattern_to_qasm3 differ")
        ctx.count("files")
        ctx.nontrivial(pattern_to_qasm3(r))
    finally:
        shutil.rmtree(d)


FAMILIES = [
    Family("circuits", circuits, 320, 6000),
    Family("rzz", rzz, 40, 400),
    Family("raw", raw, 130, 3000),
    Family("transpiled", transpiled, 80, 1500),
    Family("single", single, 150, 3000),
    Family("angles", angles, 150, 3000),
    Family("refusals", refusals, 30, 300),
]
