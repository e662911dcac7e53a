"""A call that fails leaves everything as it was: refusals, faults in user code, interruptions."""

import contextlib
import io
import sys
import types
from enum import Enum
from functools import cached_property

import networkx as nx
import numpy as np

import gen
import mon
import ref
from core import Family
from graphix import _linalg, command, instruction, optimization
from graphix.branch_selector import BranchSelector, RandomBranchSelector
from graphix.channels import depolarising_channel, two_qubit_depolarising_channel
from graphix.clifford import Clifford
from graphix.extraction import graph_to_fusion_network
from graphix.flow.core import XZCorrections
from graphix.fundamentals import Axis, Plane
from graphix.graphsim import GraphState
from graphix.measurements import BlochMeasurement, Measurement
from graphix.noise_models import DepolarisingNoiseModel
from graphix.noise_models.amplitude_damping import AmplitudeDampingNoise
from graphix.noise_models.depolarising import DepolarisingNoise, TwoQubitDepolarisingNoise
from graphix.noise_models.noise_model import ApplyNoise
from graphix.opengraph import OpenGraph
from graphix.ops import Ops
from graphix.optimization import StandardizedPattern
from graphix.parameter import Placeholder
from graphix.pattern import Pattern
from graphix.qasm3_exporter import circuit_to_qasm3, pattern_to_qasm3
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, DefaultPrepareMethod
from graphix.states import BasicStates
from graphix.instruction import InstructionVisitor
from graphix.transpiler import Circuit, transpile_swaps

ID = "P39"
RULE = (
    "Calls that fail, in every way a user can cause: wrong indices, shapes, types, orders, mappings, strategies, damaged patterns, circuits, flows and corrections (over a hundred operations of patterns, circuits, dense states, graph states, open graphs, flows); "
    "visitors, mappings, substitutions, branch selectors, measure and prepare methods and noise models that raise at their k-th call, for every k; and an exception injected at a random executed line of an operation that only reads. "
    "Monitor: a deep fingerprint of every object involved before and after; the user's exception comes out itself; after the failure the same call, without the fault, gives the result it gave before; a backend that survived a fault still has as many nodes as qubits and a normalised state. "
    "Non-trivial: a case with several refused calls, injected faults or interruptions; distinct = the object and the calls."
)
ASSUMPTIONS = [
    "calls that add several items one after the other (extend, apply_vops with several nodes) may keep those before the refused one",
    "projecting onto an outcome of probability zero is excluded: its documented RuntimeError comes after the state has been consumed",
    "the spare capacity of a statevector and caches are not part of an object's value",
]
FLOORS = {"refused": 60000, "faults_injected": 2500, "backends_inspected": 500, "interruptions": 8000}
WARM = "all"

ATOMS = (str, bytes, int, float, complex, type(None), type, Enum, np.generic, types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType)


def fp(x, path=()):
    """Everything reachable from an object, as nested tuples; caches excluded."""
    if isinstance(x, ATOMS):
        return repr(x)
    if id(x) in path:
        return "cycle"
    path = (*path, id(x))
    name = type(x).__name__
    if isinstance(x, np.ndarray):
        return (name, x.shape, str(x.dtype), repr(x.tolist()) if x.dtype == object else x.tobytes())
    if isinstance(x, (set, frozenset)):
        return (name, tuple(sorted(map(repr, (fp(v, path) for v in x)))))
    if isinstance(x, (list, tuple)):
        return (name, tuple(fp(v, path) for v in x))
    if isinstance(x, dict) or hasattr(x, "items"):
        return (name, tuple((fp(k, path), fp(v, path)) for k, v in x.items()))
    if isinstance(x, Statevector):  # the spare capacity is not part of the state
        return (name, x.nqubit, fp(np.array(x.psi)))
    if isinstance(x, nx.Graph):
        return (name, repr(list(x.nodes(data=True))), repr([(v, list(x.adj[v].items())) for v in x]))
    if isinstance(x, np.random.Generator):
        return (name, repr(x.bit_generator.state))
    if hasattr(x, "tensor_map"):  # a tensor network
        return (name, tuple((k, t.inds, tuple(sorted(t.tags)), np.asarray(t.data).tobytes()) for k, t in x.tensor_map.items()), tuple(fp(getattr(x, a), path) for a in vars(x) if a in ("default_output_nodes", "_dangling")))
    caches = {k for c in type(x).__mro__ for k, v in vars(c).items() if isinstance(v, cached_property)}
    out = [(k, fp(v, path)) for k, v in sorted(getattr(x, "__dict__", {}).items()) if k not in caches]
    for c in type(x).__mro__:
        slots = c.__dict__.get("__slots__", ())
        out += [(k, fp(getattr(x, k, None), path)) for k in ([slots] if isinstance(slots, str) else slots) if k not in ("__dict__", "__weakref__")]
    return (name, tuple(out))


def similar(a, b):
    """Equal fingerprints, but for rounding."""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == len(b) == 4 and a[0] == b[0] == "ndarray" and isinstance(a[3], bytes):
            return a[1:3] == b[1:3] and np.allclose(np.frombuffer(a[3], a[2]), np.frombuffer(b[3], b[2]), rtol=0, atol=1e-9)
        return len(a) == len(b) and all(map(similar, a, b))
    try:
        return isinstance(a, str) and isinstance(b, str) and abs(complex(a) - complex(b)) < 1e-9
    except ValueError:
        return False


def attempt(ctx, label, f, watched, desc):
    """Call; when it raises, the watched objects are as before."""
    before = [fp(w) for w in watched]
    ctx.count("calls")
    ctx.distinct("operations", label)
    try:
        f()
    except Exception as e:  # noqa: BLE001
        if "0-norm" in str(e):  # documented: the state has been consumed
            ctx.count("zero_norm")
            return False
        ctx.count("refused")
        ctx.distinct("refusals", (label, type(e).__name__, str(e)[:25]))
        for k, w in enumerate(watched):
            a = fp(w)
            ctx.check(a == before[k], f"changed:{label}", f"{label} failed ({type(e).__name__}: {e}) and changed its {type(w).__name__}", before=before[k], after=a, **desc)
        return True
    ctx.count("accepted")
    return False


def hostile(rng, p):
    """Commands of a pattern, damaged."""
    cmds = list(p)
    for _ in range(int(rng.integers(1, 3))):
        r, k = int(rng.integers(8)), int(rng.integers(len(cmds) + 1))
        if r == 0 and cmds:
            del cmds[k % len(cmds)]
        elif r == 1 and cmds:
            cmds.insert(k, gen.pick(rng, cmds))
        elif r == 2 and len(cmds) > 1:
            a, b = rng.integers(len(cmds), size=2)
            cmds[a], cmds[b] = cmds[b], cmds[a]
        elif r == 3:
            cmds.insert(k, command.X(int(rng.integers(-2, 60)), {int(rng.integers(60))}))
        elif r == 4:
            cmds.insert(k, command.E((int(rng.integers(60)), int(rng.integers(60)))))
        elif r == 5:
            cmds.insert(k, command.M(int(rng.integers(60)), gen.measurement(rng), {int(rng.integers(60))}))
        elif r == 6:
            cmds.insert(k, command.S(int(rng.integers(60)), {int(rng.integers(60))}))
        else:
            cmds.insert(k, command.M(int(rng.integers(60)), BlochMeasurement(Placeholder("a"), Plane.XY)))
    return cmds


def pattern_ops(rng, p, q):
    outs, ins = list(p.output_nodes), list(p.input_nodes)
    bad = lambda xs: gen.pick(rng, (xs[:-1], [*xs, 99], [*xs, *xs[:1]], [99, *xs[1:]], xs[:1] * len(xs)))  # noqa: E731
    nodes = sorted(p.nodes()) or [0]

    def raising(v):
        if v == nodes[len(nodes) // 2]:
            raise LookupError("mapping")
        return v + 7

    def bad_meas(m):
        raise LookupError("measurement")

    calls = []

    def late(m):
        calls.append(m)
        if len(calls) > 1:
            raise LookupError("measurement")
        return m

    ks, vs = gen.subset(rng, sorted(q.nodes())), gen.subset(rng, nodes)
    mapping = {int(a): int(b) for a, b in zip(ks, vs)}
    return {
        "reorder_output_nodes": lambda: p.reorder_output_nodes(bad(outs)),
        "reorder_input_nodes": lambda: p.reorder_input_nodes(bad(ins)),
        "standardize": lambda: p.standardize(),
        "shift_signals": lambda: p.shift_signals(method=gen.pick(rng, ("direct", "mc", "xyz"))),
        "minimize_space": lambda: p.minimize_space(),
        "parallelize": lambda: p.parallelize_pattern(),
        "infer": lambda: p.infer_pauli_measurements(),
        "blochify": lambda: p.blochify(),
        "pauli_pushing": lambda: p.perform_pauli_pushing(standardize=bool(rng.integers(2))),
        "remove_pauli": lambda: p.remove_pauli_measurements(standardize=bool(rng.integers(2))),
        "local_clifford": lambda: p.remove_local_clifford_commands(),
        "remove_inputs": lambda: p.remove_input_nodes(),
        "apply": lambda: p.apply(gen.pick(rng, (bad_meas, late))),
        "map": lambda: p.map(gen.pick(rng, (bad_meas, late))),
        "reindex": lambda: p.reindex(raising),
        "node_mapping": lambda: p.node_mapping({nodes[0]: 1, 999: 2} if rng.random() < 0.5 else dict.fromkeys(nodes, 3)),
        "compose": lambda: p.compose(q, mapping, preserve_mapping=bool(rng.integers(2))),
        "check_runnability": lambda: p.check_runnability(),
        "layers": lambda: p.partial_order_layers(),
        "causal": lambda: p.to_causalflow(),
        "gflow": lambda: p.to_gflow(),
        "xzcorr": lambda: p.to_xzcorrections(),
        "pauliflow": lambda: p.to_pauliflow(),
        "opengraph": lambda: p.to_opengraph(),
        "signals": lambda: p.signals(),
        "shift_direct": lambda: p.shift_signals_direct(),
        "sort_measurements": lambda: p.sort_measurement_commands([*nodes, 99]),
        "isolated": lambda: p.isolated_nodes(),
        "max_degree": lambda: p.max_degree(),
        "connected": lambda: p.connected_nodes(gen.pick(rng, (*nodes, 77))),
        "max_space": lambda: p.max_space(),
        "correction_commands": lambda: p.correction_commands(),
        "standard_opengraph": lambda: StandardizedPattern.from_pattern(p).to_opengraph(),
        "qasm": lambda: pattern_to_qasm3(p, {99: "|+>"} if rng.random() < 0.1 else {}),
        "standard_pattern": lambda: StandardizedPattern.from_pattern(p),
        "space_optimal": lambda: StandardizedPattern.from_pattern(p).to_space_optimal_pattern(),
        "standard_flow": lambda: StandardizedPattern.from_pattern(p).to_xzcorrections(),
        "useless": lambda: optimization.remove_useless_domains(p),
        "single": lambda: optimization.single_qubit_domains(p),
        "parameter": lambda: p.replace_parameter(Placeholder("a"), Placeholder("b")),
        "simulate": lambda: p.simulate(gen.pick(rng, ("statevector", "densitymatrix", "tensornetwork", "nope")), input_state=gen.pick(rng, (BasicStates.PLUS, [BasicStates.ZERO], np.ones(3))), rng=np.random.default_rng(1)),
        "simulate_noise": lambda: p.simulate("statevector", noise_model=DepolarisingNoiseModel(), rng=np.random.default_rng(1)),
        "bloch": lambda: p.to_bloch(),
    }


def patterns(ctx, rng, i):
    n = int(rng.integers(1, 8))
    p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=0.1, pauli_obj=0.4, pauli=0.5, max_live=5) if rng.random() < 0.6 else gen.circuit(rng, 2, 3, ccx=0).transpile().pattern
    q = gen.raw_pattern(rng, int(rng.integers(1, 5)), 1)
    if rng.random() < 0.8:
        try:
            p = Pattern(p.input_nodes, hostile(rng, p))
        except Exception:  # noqa: BLE001
            return
    ops = pattern_ops(rng, p, q)
    names = sorted(ops)
    desc = {"pattern": repr(p)}
    seen = 0
    for k in rng.permutation(len(names))[:12]:
        cp = [fp(c) for c in p]
        r = p.copy()
        ops_r = pattern_ops(np.random.default_rng([i, int(k)]), r, q)
        seen += attempt(ctx, names[k], ops_r[names[k]], [r, p, q], desc)
        ctx.check(cp == [fp(c) for c in p], "copy-shares", f"{names[k]} of a copy changed the original", **desc)
    if seen:
        ctx.nontrivial(repr(p))


def matrix(rng, k):
    return rng.normal(size=(k, k)) + 1j * rng.normal(size=(k, k))


def qubit(rng, n):
    return int(gen.pick(rng, (-1, -n - 1, n, n + 3, *range(n))))


def state_ops(rng, s, n):
    """Mostly wrong uses of a dense state of n qubits."""
    q = lambda: qubit(rng, n)  # noqa: E731
    data = gen.pick(rng, (np.ones(3), np.ones(4) / 3, [BasicStates.PLUS] * 3, [[1, 0], [0, 1]], [BasicStates.ZERO, 3], "+", 1.5, [], np.ones((2, 2)), np.diag([2, -1]), np.eye(3) / 3, ref.haar_state(rng, 2), [[1, 2], [3]]))
    op = lambda: gen.pick(rng, (matrix(rng, 3), matrix(rng, 2), matrix(rng, 4), matrix(rng, 8), np.ones(4), matrix(rng, 2)[:1], [[1, 0], [0, 1]], np.zeros((2, 2), dtype=complex), "X"))  # noqa: E731
    chan = gen.pick(rng, (depolarising_channel(0.2), two_qubit_depolarising_channel(0.3), "channel"))
    perms = ([0] * n, list(range(n + 1)), [*range(1, n + 1)], list(range(n - 1)), list(range(n))[::-1])
    one = BasicStates.ONE if rng.random() < 0.5 else BasicStates.ZERO
    out = {
        "add_nodes": lambda: s.add_nodes(int(rng.integers(-1, 4)), data),
        "entangle": lambda: s.entangle((q(), q())),
        "evolve_single": lambda: s.evolve_single(op(), q()),
        "evolve": lambda: s.evolve(op(), [q() for _ in range(int(rng.integers(0, 4)))]),
        "expectation_single": lambda: s.expectation_single(op(), q()),
        "remove_qubit": lambda: s.remove_qubit(q()),
        "project_qubit": lambda: s.project_qubit(gen.pick(rng, (op(), np.outer(ref.state_vec(one), ref.state_vec(one)).astype(complex))), q()),
        "swap": lambda: s.swap((q(), q())),
        "permute": lambda: s.permute(gen.pick(rng, perms)),
        "tensor": lambda: s.tensor(gen.pick(rng, (3, "x", None, Statevector() if isinstance(s, DensityMatrix) else DensityMatrix()))),
        "noise": lambda: s.apply_noise([q()], gen.pick(rng, NOISES)),
        "noise2": lambda: s.apply_noise([q(), q()], gen.pick(rng, NOISES)),
        "fidelity": lambda: s.fidelity(gen.pick(rng, (3, Statevector(nqubit=n + 1), DensityMatrix(nqubit=1)))),
        "constructor": lambda: type(s)(data, int(rng.integers(-1, 4))),
    }
    if isinstance(s, Statevector):
        out |= {
            "expectation_value": lambda: s.expectation_value(op(), [q(), q()]),
            "ensure_capacity": lambda: s.ensure_capacity(int(rng.integers(-3, n + 2))),
            "to_dict": lambda: s.to_dict(gen.pick(rng, ("MSB", "LSB", "other"))),
        }
    else:
        out |= {"channel": lambda: s.apply_channel(chan, [q() for _ in range(int(rng.integers(0, 4)))]), "ptrace": lambda: s.ptrace(gen.pick(rng, (q(), [q(), q()]))), "cnot": lambda: s.cnot((q(), q())), "normalize": lambda: s.normalize()}
    return out


NOISES = [DepolarisingNoise(0.3), TwoQubitDepolarisingNoise(0.4), AmplitudeDampingNoise(0.3)]


def dense(rng, n, cls):
    if cls is Statevector:
        return Statevector(ref.haar_state(rng, n))
    return DensityMatrix(ref.haar_state(rng, n)) if rng.random() < 0.7 else DensityMatrix([BasicStates.ZERO] * n)


def states(ctx, rng, i):
    """Refused operations on dense states."""
    n = int(rng.integers(1, 4))
    cls = (Statevector, DensityMatrix)[i % 2]
    s = dense(rng, n, cls)
    if rng.random() < 0.3:
        s = cls([gen.pick(rng, (BasicStates.ZERO, BasicStates.ONE, BasicStates.PLUS)) for _ in range(n)])
    names = sorted(state_ops(rng, s, n))
    seen = 0
    hist = []
    for _ in range(10):
        if isinstance(s, DensityMatrix) and s.nqubit > 4 or s.nqubit > 6:
            break
        name = gen.pick(rng, names)
        hist.append(name)
        before = fp(s)
        if attempt(ctx, f"{cls.__name__}.{name}", state_ops(rng, s, s.nqubit)[name], [s], {"history": hist}):
            seen += 1
        elif before != fp(s) and rng.random() < 0.7:
            s = dense(rng, n, cls)
            hist.append("new")
    if seen >= 2:
        ctx.nontrivial((cls.__name__, hist))


class Fault(Exception):
    pass


class Visitor(InstructionVisitor):
    """Changes everything, and fails at the k-th call."""

    def __init__(self, k, width):
        self.k, self.width, self.calls = k, width, 0

    def tick(self):
        self.calls += 1
        if self.calls > self.k:
            raise Fault(self.calls)

    def visit_qubit(self, qubit):
        self.tick()
        return self.width - 1 - qubit

    def visit_angle(self, angle):
        self.tick()
        return angle + 0.25

    def visit_axis(self, axis):
        self.tick()
        return axis


def circuit_ops(rng, c):
    n = c.width
    q = lambda: qubit(rng, n)  # noqa: E731
    a = gen.angle(rng)
    k = int(rng.integers(0, 3 * len(c.instruction) + 1))
    calls = []

    def angle(x):
        calls.append(x)
        if len(calls) > k // 3:
            raise Fault
        return x + 1

    one = {name: (lambda name=name: getattr(c, name)(q())) for name in ("h", "s", "x", "y", "z", "i")}
    two = {name: (lambda name=name: getattr(c, name)(q(), q())) for name in ("cnot", "cz", "swap")}
    rot = {name: (lambda name=name: getattr(c, name)(q(), a)) for name in ("rx", "ry", "rz", "j")}
    return one | two | rot | {
        "rzz": lambda: c.rzz(q(), q(), a),
        "ccx": lambda: c.ccx(q(), q(), q()),
        "r": lambda: c.r(q(), gen.pick(rng, (*Axis, 3, "X")), a),
        "m": lambda: c.m(q(), gen.pick(rng, list(Axis))),
        "add": lambda: c.add(gen.pick(rng, (instruction.H(q()), instruction.CNOT(control=q(), target=q()), instruction.RZZ(control=q(), target=q(), angle=a), "H", None))),
        "visit": lambda: c.visit(Visitor(k, n)),
        "visit_copy": lambda: c.visit(Visitor(k, n), copy=True),
        "apply_angle": lambda: c.apply_angle(angle),
        "apply_angle_copy": lambda: c.apply_angle(angle, copy=True),
        "simulate": lambda: c.simulate(gen.pick(rng, ("statevector", "densitymatrix", "tensornetwork", "x")), input_state=gen.pick(rng, (BasicStates.ZERO, np.ones(3), [BasicStates.ZERO] * (n + 1), [])), rng=np.random.default_rng(1)),
        "simulate_selector": lambda: c.simulate(input_state=BasicStates.PLUS, branch_selector=FaultySelector(int(rng.integers(3))), rng=np.random.default_rng(1)),
        "transpile": lambda: c.transpile(transpile_swaps=bool(rng.integers(2))),
        "flow": lambda: c.transpile_to_causalflow(),
        "swaps": lambda: transpile_swaps(c, copy=bool(rng.integers(2))),
        "zmeas": lambda: c.transpile_measurements_to_z_axis(),
        "jrz": lambda: c.transpile_j_to_rzh(),
        "qasm": lambda: circuit_to_qasm3(c),
    }


class FaultySelector(BranchSelector):
    def __init__(self, k, inner=None):
        self.k, self.inner, self.calls = k, inner or RandomBranchSelector(), 0

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        self.calls += 1
        if self.calls > self.k:
            raise Fault(self.calls)
        return self.inner.measure(qubit, f_expectation0, rng)


def circuits(ctx, rng, i):
    n = int(rng.integers(1, 5))
    c = gen.circuit(rng, n, int(rng.integers(0, 10)), measure=gen.pick(rng, (0.0, 0.3)))
    if rng.random() < 0.2:  # instructions put there by hand
        c.instruction.append(gen.pick(rng, (instruction.H(0), instruction.RX(0, 0.5), instruction.CZ((0, n)), instruction.M(0, Axis.X))))
    if rng.random() < 0.3:
        c = c.apply_angle(lambda a: Placeholder("a") if rng.random() < 0.4 else a, copy=True)
    names = sorted(circuit_ops(rng, c))
    seen = 0
    desc = {"circuit": gen.describe(c)}
    other = Circuit(n)
    other.instruction = list(c.instruction)
    for _ in range(16):
        if len(c.instruction) > 14:
            break
        name = gen.pick(rng, names)
        seen += attempt(ctx, f"Circuit.{name}", circuit_ops(rng, c)[name], [c], desc)
    if seen > 3:
        ctx.nontrivial(gen.describe(c))


def backend_ops(rng, be, nodes):
    v = lambda: gen.pick(rng, (*nodes, 77, -1))  # noqa: E731
    n = len(nodes)
    data = gen.pick(rng, (np.ones(3), [BasicStates.PLUS] * 3, np.ones(4) / 3, "plusplus", [1, 0, 0], 3.5, np.ones((2, 2)) * 3))
    m = gen.pick(rng, (gen.measurement(rng), BlochMeasurement(Placeholder("a"), Plane.XY)))
    return {
        "add_nodes": lambda: be.add_nodes([90, 91, 92, 93][: int(rng.integers(1, 5))], data),
        "entangle_nodes": lambda: be.entangle_nodes((v(), v())),
        "measure": lambda: be.measure(v(), m, np.random.default_rng(1)),
        "correct_byproduct": lambda: be.correct_byproduct(gen.pick(rng, (command.X, command.Z))(v(), {1})),
        "apply_clifford": lambda: be.apply_clifford(v(), gen.pick(rng, list(Clifford))),
        "finalize": lambda: be.finalize(gen.pick(rng, (nodes[:-1], [*nodes, 77], [77] * n, nodes[:1] * n))),
        "apply_noise": lambda: be.apply_noise(ApplyNoise(noise=gen.pick(rng, NOISES), nodes=gen.pick(rng, ([v()], [v(), v()])))),
    }


def backends(ctx, rng, i):
    """Refused operations on backends, and selectors that fail within a measurement."""
    cls = (StatevectorBackend, DensityMatrixBackend)[i % 2]
    be = cls(branch_selector=FaultySelector(int(rng.integers(0, 3))))
    nodes = [int(x) for x in rng.permutation(30)[: int(rng.integers(1, 5))]]
    for v in nodes:
        be.add_nodes([v], gen.planar_state(rng))
    for a, b in zip(nodes, nodes[1:], strict=False):
        be.entangle_nodes((a, b))
    seen, hist = 0, []
    names = sorted(backend_ops(rng, be, nodes))
    for _ in range(12):
        nodes = [v for v in (*range(30), 90, 91, 92, 93) if v in list(be.node_index)]
        if not nodes or len(nodes) > 5:
            break
        name = gen.pick(rng, names)
        if name == "add_nodes" and nodes[-1] >= 90:
            continue
        hist.append(name)
        seen += attempt(ctx, f"{cls.__name__}.{name}", backend_ops(rng, be, nodes)[name], [be.state, be.node_index], {"history": hist})
        ctx.check(len(be.node_index) == be.state.nqubit, "index-out-of-step", f"{len(be.node_index)} nodes, {be.state.nqubit} qubits after {hist}")
    if seen > 2:
        ctx.nontrivial((cls.__name__, hist))


def graph_ops(rng, g):
    v = lambda: gen.pick(rng, (*g.nodes, 77, -1))  # noqa: E731
    ch = lambda: gen.pick(rng, (0, 1, 2, -1, True))  # noqa: E731
    return {
        "measure_x": lambda: g.measure_x(v(), ch()),
        "measure_y": lambda: g.measure_y(v(), ch()),
        "measure_z": lambda: g.measure_z(v(), ch()),
        "e1": lambda: g.equivalent_graph_e1(v()),
        "e2": lambda: g.equivalent_graph_e2(v(), v()),
        "fill": lambda: g.equivalent_fill_node(v()),
        "local_complement": lambda: g.local_complement(v()),
        "h": lambda: g.h(v()),
        "s": lambda: g.s(v()),
        "z": lambda: g.z(v()),
        "flip_fill": lambda: g.flip_fill(v()),
        "flip_sign": lambda: g.flip_sign(v()),
        "advance": lambda: g.advance(v()),
        "apply_vops": lambda: g.apply_vops({v(): gen.pick(rng, list(Clifford))}),
        "add_nodes_from": lambda: g.add_nodes_from([gen.pick(rng, (91, 92, (93, {"sign": True}), (94, {"colour": 1})))]),
        "add_node": lambda: g.add_node(95, **gen.pick(rng, ({"sign": True}, {"size": 2}))),
        "to_statevector": lambda: g.to_statevector(),
    }


def graphs(ctx, rng, i):
    n = int(rng.integers(1, 7))
    g = GraphState(nodes=range(n), edges=[(a, b) for a in range(n) for b in range(a) if rng.random() < 0.4], vops={v: gen.pick(rng, list(Clifford)) for v in range(n) if rng.random() < 0.6})
    names = sorted(graph_ops(rng, g))
    seen, hist = 0, []
    for _ in range(14):
        if not g.nodes:
            break
        name = gen.pick(rng, names)
        hist.append(name)
        seen += attempt(ctx, f"GraphState.{name}", graph_ops(rng, g)[name], [g], {"history": hist})
    if seen > 3:
        ctx.nontrivial(hist)


def rand_og(rng, lo, hi):
    n = int(rng.integers(lo, hi))
    return gen.random_opengraph(rng, n, int(rng.integers(0, n + 1)), int(rng.integers(0, n + 1)), pauli_obj=0.4, cliffords=0.2)


def graph_calls(rng, og, og2):
    nodes = list(og.graph.nodes)
    late = []

    def bad(m):
        late.append(m)
        if len(late) > 1:
            raise Fault
        return m

    ks = gen.subset(rng, list(og2.graph.nodes))
    vs = [*gen.subset(rng, nodes)] + [500 + k for k in range(len(ks))]
    return {
        "to_pattern": lambda: og.to_pattern(),
        "to_causalflow": lambda: og.to_causalflow(),
        "to_gflow": lambda: og.to_gflow(),
        "to_pauliflow": lambda: og.to_pauliflow(),
        "to_circuit": lambda: og.to_circuit(),
        "downcast": lambda: og.downcast_bloch(),
        "map": lambda: og.map(bad),
        "compose": lambda: og.compose(og2, dict(zip(ks, vs))),
        "compose_dup": lambda: og.compose(og2, {k: 0 for k in og2.graph.nodes} | {999: 3}),
        "neighbors": lambda: og.neighbors([*nodes[:1], 999]),
        "bad_output": lambda: OpenGraph(og.graph, og.input_nodes, [*og.output_nodes, 999], og.measurements),
        "bad_input": lambda: OpenGraph(og.graph, [*og.input_nodes, *og.input_nodes[:1], 999], og.output_nodes, og.measurements),
        "bad_measure": lambda: OpenGraph(og.graph, og.input_nodes, og.output_nodes, {**og.measurements, 999: Measurement.X}),
        "bad_clifford": lambda: OpenGraph(og.graph, og.input_nodes, og.output_nodes, og.measurements, {999: Clifford.H}),
        "no_measure": lambda: OpenGraph(og.graph, og.input_nodes, og.output_nodes, {}),
    }


def quiet(f):
    """Some refusals are explained on the standard output."""
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def flow_calls(rng, f, og):
    xz = f.to_xzcorrections()
    nodes = sorted(og.measurements)
    drop = {k: v for k, v in f.correction_function.items() if rng.random() < 0.7}
    layers = list(f.partial_order_layers)
    rng.shuffle(layers)
    cut = layers[: int(rng.integers(len(layers) + 1))]
    bad = type(f)(og, gen.pick(rng, (drop, dict(f.correction_function), {k: {k, 999} for k in f.correction_function})), gen.pick(rng, (layers, cut, [set(), *layers])))
    order = [int(x) for x in rng.permutation(nodes)]
    return {
        "check_well_formed": (lambda: bad.check_well_formed(), [bad, og]),
        "bad_corrections": (lambda: bad.to_xzcorrections(), [bad, og]),
        "bad_circuit": (lambda: bad.extract_circuit(), [bad, og]),
        "to_pattern_order": (lambda: quiet(lambda: xz.to_pattern(gen.pick(rng, (order, order[:-1], [*order, 999])))), [xz, og, order]),
        "is_compatible": (lambda: quiet(lambda: xz.is_compatible(order)), [xz, order]),
        "from_mapping": (lambda: XZCorrections.from_measured_nodes_mapping(og, {n: {999} for n in nodes[:1]}, {999: {1}}), [og, xz]),
        "from_mapping_loop": (lambda: XZCorrections.from_measured_nodes_mapping(og, {a: {b} for a, b in zip(nodes, nodes[1:] + nodes[:1])}), [og, xz]),
        "xz_causal": (lambda: xz.to_causalflow(), [xz, og]),
        "xz_gflow": (lambda: xz.to_gflow(), [xz, og]),
        "xz_pauli": (lambda: xz.to_pauliflow(), [xz, og]),
        "label": (lambda: f.node_measurement_label(999), [f, og]),
    }


def opengraphs(ctx, rng, i):
    """Refused operations on open graphs, flows and corrections."""
    if rng.random() < 0.5:
        og, f = rand_og(rng, 1, 7), None
    else:
        found = gen.pauliflow_opengraph(rng, 3, 7)
        if found is None:
            return
        og, f = found
    og2 = rand_og(rng, 1, 5)
    seen = 0
    desc = {"og": repr(og)}
    for name in rng.permutation(sorted(graph_calls(rng, og, og2))):
        seen += attempt(ctx, f"OpenGraph.{name}", graph_calls(rng, og, og2)[name], [og, og2], desc)
    if f is not None:
        og, f = f.og, f
        for name in sorted(flow_calls(rng, f, og)):
            call, watched = flow_calls(rng, f, og)[name]
            seen += attempt(ctx, f"flow.{name}", call, [*watched, f], desc)
    if seen > 3:
        ctx.nontrivial(mon.og_key(og))


class Faults:
    """User code that fails at the k-th call, whichever it is."""

    def __init__(self, k):
        self.k, self.calls, self.raised = k, 0, None

    def tick(self):
        self.calls += 1
        if self.calls == self.k:
            self.raised = Fault(self.k)
            raise self.raised

    def selector(self):
        tick = self.tick

        class Selector(RandomBranchSelector):
            def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
                tick()
                r = super().measure(qubit, f_expectation0, rng, stacklevel=stacklevel)
                tick()
                return r

        return Selector()

    def measure_method(self):
        tick = self.tick

        class Method(DefaultMeasureMethod):
            def describe_measurement(self, cmd):
                tick()
                return super().describe_measurement(cmd)

            def store_measurement_outcome(self, node, result):
                tick()
                super().store_measurement_outcome(node, result)

        return Method()

    def prepare_method(self):
        tick = self.tick

        class Prepare(DefaultPrepareMethod):
            def prepare(self, backend, cmd, rng=None):
                tick()
                super().prepare(backend, cmd, rng)

        return Prepare()

    def noise(self):
        tick = self.tick

        class Model(DepolarisingNoiseModel):
            def input_nodes(self, nodes, rng=None, *, stacklevel=1):
                tick()
                return super().input_nodes(nodes, rng)

            def command(self, cmd, rng=None, *, stacklevel=1):
                tick()
                return super().command(cmd, rng)

            def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
                tick()
                return super().confuse_result(cmd, result, rng)

        return Model(measure_error_prob=0.3, x_error_prob=0.2)


def observe(p, kind, psi, seed, faults=None, noisy=False, be=None):
    """Outcomes, state and number of draws of one run."""
    g = np.random.default_rng(seed)
    f = faults or Faults(0)
    mm = f.measure_method()
    kw = {"prepare_method": f.prepare_method(), "measure_method": mm, "rng": g}
    if be is None:
        kw["branch_selector"] = f.selector()
    if noisy:
        kw["noise_model"] = f.noise()
    st = p.simulate(be or kind, input_state=psi, **kw)
    return canon_results(mm.results), np.asarray(st.rho if hasattr(st, "rho") else st.to_statevector() if hasattr(st, "to_statevector") else st.psi).copy(), repr(g.bit_generator.state), f.calls


def canon_results(r):
    return sorted((k, int(v)) for k, v in r.items())


def faults(ctx, rng, i):
    """A selector, measure method, prepare method, noise model or generator fails in the middle of a run."""
    kind = ("statevector", "densitymatrix", "tensornetwork")[i % 3]
    noisy = kind == "densitymatrix" and rng.random() < 0.6
    if kind == "tensornetwork":
        p = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)), ccx=0.0).transpile().pattern
        psi = BasicStates.PLUS
    else:
        p = gen.raw_pattern(rng, int(rng.integers(2, 8)), int(rng.integers(0, 3)), max_live=4)
        psi = gen.states_for(rng, len(p.input_nodes))
    seed = int(rng.integers(2**62))
    desc = {"pattern": mon.cmds_key(p), "backend": kind}
    full = observe(p, kind, psi, seed, noisy=noisy)
    before = fp(p), fp(psi)
    if not full[3]:
        return
    spots = range(1, full[3] + 1) if full[3] <= 12 else sorted({int(x) for x in rng.integers(1, full[3] + 1, 12)})
    for k in spots:
        f = Faults(k)
        be = None
        if kind != "tensornetwork" and rng.random() < 0.4:
            be = (StatevectorBackend if kind == "statevector" else DensityMatrixBackend)(branch_selector=f.selector())
        try:
            observe(p, kind, psi, seed, f, noisy, be)
        except Fault as e:
            ctx.check(e is f.raised, "other-exception", f"{e!r} instead of the exception raised by the user's code", **desc)
        else:
            ctx.fail("fault-swallowed", f"the exception of call {k} of the user's code has disappeared", **desc)
        ctx.count("faults_injected")
        ctx.check((fp(p), fp(psi)) == before, "fault-changes-arguments", f"after a fault in call {k}", **desc)
        if be is not None:  # the qubits of the state are those of the index, and it is still a state
            ix = be.node_index
            nodes = [v for v in sorted(p.nodes()) if v in list(ix)]
            ctx.check(len(ix) == be.state.nqubit == be.nqubit, "index-out-of-step", f"{len(ix)} nodes and {be.state.nqubit} qubits after a fault in call {k}", **desc)
            ctx.check(sorted(ix.index(v) for v in nodes) == list(range(len(ix))), "index-out-of-step", f"{list(ix)}", **desc)
            a = np.asarray(be.state.rho if kind == "densitymatrix" else be.state.psi)
            tr = np.trace(a) if kind == "densitymatrix" else np.vdot(a, a)
            ctx.check(abs(tr - 1) < 1e-6, "fault-denormalises", f"norm {tr} after a fault in call {k}", **desc)
            ctx.count("backends_inspected")
        again = observe(p, kind, psi, seed, noisy=noisy)
        ctx.check(again[0] == full[0] and again[2:] == full[2:] and again[1].shape == full[1].shape and np.abs(again[1] - full[1]).max(initial=0) < 1e-9, "fault-changes-results", f"another result after a fault in call {k}", **desc)
    ctx.nontrivial(desc)


class Interrupted(BaseException):
    pass


def trace_lines(limit=None):
    """A trace function counting the lines executed in graphix; raises at the given one."""
    state = {"n": 0, "where": None}

    def local(frame, event, arg):  # noqa: ARG001
        if event == "line":
            state["n"] += 1
            if limit is not None and state["n"] == limit:
                state["where"] = (frame.f_code.co_filename.rsplit("/graphix/", 1)[-1], frame.f_lineno)
                raise Interrupted
        return local

    def top(frame, event, arg):  # noqa: ARG001
        return local if "/graphix/" in frame.f_code.co_filename and "/verif/" not in frame.f_code.co_filename else None

    return top, state


def readings(rng):
    """(watched objects, {name: reading operation}): nothing here is supposed to change its arguments."""
    r = int(rng.integers(5))
    if r == 0:
        c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 7)), measure=0.1)
        psi = gen.states_for(rng, c.width)
        return [c, psi], {
            "transpile": lambda: c.transpile().pattern,
            "flow": lambda: c.transpile_to_causalflow().flow if not any(g.kind.name == "SWAP" for g in c.instruction) else 0,
            "swaps": lambda: transpile_swaps(c, copy=True),
            "simulate": lambda: c.simulate(input_state=psi, rng=np.random.default_rng(1)),
            "simulate-dm": lambda: c.simulate("densitymatrix", input_state=psi, rng=np.random.default_rng(1)),
            "qasm": lambda: circuit_to_qasm3(c.transpile_measurements_to_z_axis()) if not any(g.kind.name == "RZZ" for g in c.instruction) else 0,
            "angle": lambda: c.apply_angle(lambda a: a + 1, copy=True),
            "jrz": lambda: c.transpile_j_to_rzh(),
            "repr": lambda: repr(c),
        }
    if r <= 2:
        p = gen.raw_pattern(rng, int(rng.integers(2, 8)), int(rng.integers(0, 3)), pauli_obj=0.4, pauli=0.5, max_live=4) if r == 1 else gen.circuit(rng, 2, 4, ccx=0.0).transpile().pattern
        psi = gen.states_for(rng, len(p.input_nodes))
        q = gen.raw_pattern(rng, 4, 1)
        sp = StandardizedPattern.from_pattern(p)
        out = {
            "simulate": lambda: p.simulate(input_state=psi, rng=np.random.default_rng(1)),
            "simulate-dm": lambda: p.simulate("densitymatrix", input_state=psi, rng=np.random.default_rng(1)),
            "text": lambda: (p.to_ascii(), p.to_unicode(), p.to_latex(), repr(p)),
            "copy": lambda: p.copy(),
            "compose": lambda: p.compose(q, {}),
            "reindex": lambda: p.reindex(lambda v: v + 3, copy=True),
            "infer": lambda: p.infer_pauli_measurements(copy=True),
            "bloch": lambda: p.to_bloch(),
            "push": lambda: p.perform_pauli_pushing(copy=True),
            "remove": lambda: p.remove_pauli_measurements(copy=True),
            "space": lambda: p.minimize_space(copy=True),
            "clifford": lambda: p.remove_local_clifford_commands(copy=True),
            "standard": lambda: StandardizedPattern.from_pattern(p).to_pattern(),
            "optimal": lambda: StandardizedPattern.from_pattern(p).to_space_optimal_pattern(),
            "useless": lambda: optimization.remove_useless_domains(p),
            "single": lambda: optimization.single_qubit_domains(p),
            "layers": lambda: (p.partial_order_layers(), p.nodes(), p.max_space(), p.space_list()),
            "check": lambda: p.check_runnability(),
            "qasm": lambda: pattern_to_qasm3(p),
            "sp-layers": lambda: sp.partial_order_layers(),
            "sp-space": lambda: sp.max_space(),
            "sp-push": lambda: sp.perform_pauli_pushing(),
            "sp-pattern": lambda: sp.to_pattern(),
        }
        if r == 2:
            out |= {"opengraph": lambda: p.to_opengraph(), "causal": lambda: p.to_bloch().to_causalflow(), "gflow": lambda: p.to_bloch().to_gflow(), "pauli": lambda: p.to_pauliflow(), "xz": lambda: p.to_xzcorrections(), "tn": lambda: p.simulate("tensornetwork", rng=np.random.default_rng(1)).to_statevector()}
        return [p, q, sp, psi], out
    if r == 3:
        found = gen.pauliflow_opengraph(rng, 3, 7)
        if found is None:
            return [], {}
        og, f = found
        og2 = rand_og(rng, 2, 5)
        xz = f.to_xzcorrections()
        return [og, og2, f, xz], {
            "pauliflow": lambda: og.to_pauliflow(),
            "gflow": lambda: og.to_bloch().to_gflow_or_none(),
            "causal": lambda: og.to_bloch().to_causalflow_or_none(),
            "pattern": lambda: og.to_pattern(),
            "xz-pattern": lambda: xz.to_pattern(),
            "xz": lambda: f.to_xzcorrections(),
            "xz-pauli": lambda: xz.to_pauliflow(),
            "check": lambda: (f.check_well_formed(), xz.check_well_formed(), f.is_focused()),
            "compose": lambda: og.compose(og2, {}),
            "text": lambda: (f.to_ascii(), xz.to_unicode(), repr(og), repr(f)),
            "infer": lambda: og.infer_pauli_measurements(),
            "close": lambda: og.isclose(og2),
            "dag": lambda: (xz.to_dag(), xz.generate_total_measurement_order()),
            "circuit": lambda: f.extract_circuit().to_circuit() if f.is_focused() and len(og.input_nodes) <= len(og.output_nodes) and not og.output_cliffords else 0,
        }
    n = int(rng.integers(1, 6))
    g = GraphState(nodes=range(n), edges=[(a, b) for a in range(n) for b in range(a) if rng.random() < 0.5], vops={v: gen.pick(rng, list(Clifford)) for v in range(n)})
    sv = Statevector(ref.haar_state(rng, n))
    dm = DensityMatrix(ref.haar_state(rng, min(n, 3)))
    m = _linalg.MatGF2(rng.integers(0, 2, size=(n, n + 2)).astype(np.uint8))
    return [g, sv, dm, m], {
        "statevector": lambda: g.to_statevector(),
        "vops": lambda: g.extract_vops(),
        "fusion": lambda: graph_to_fusion_network(g),
        "to_dict": lambda: (sv.to_dict(), sv.to_prob_dict()),
        "draw": lambda: sv.draw(),
        "fidelity": lambda: (sv.fidelity(sv), dm.fidelity(Statevector(nqubit=dm.nqubit))),
        "expectation": lambda: (sv.expectation_single(Ops.X, 0), sv.expectation_value(Ops.Z, [0]), dm.expectation_single(Ops.Y, 0)),
        "gf2": lambda: (m.gauss_elimination(copy=True) if hasattr(m, "gauss_elimination") else 0, m.null_space(), m.right_inverse(), m.compute_rank()),
    }


def interrupted(ctx, rng, i):
    """An exception strikes at an arbitrary line of an operation that only reads: nothing remains of it."""
    watched, ops = readings(rng)
    if not ops:
        return
    for name in [str(x) for x in rng.permutation(sorted(ops))[:4]]:
        before = [fp(w) for w in watched]
        top, state = trace_lines()
        old = sys.gettrace()
        sys.settrace(top)
        try:
            want = fp(ops[name]())
        except Exception:  # noqa: BLE001
            want = None
        finally:
            sys.settrace(old)
        total = state["n"]
        ctx.check([fp(w) for w in watched] == before, f"reading-changes:{name}", f"{name} changed its arguments")
        if want is None or not total:
            ctx.count("not_applicable")
            continue
        for k in sorted({int(x) for x in rng.integers(1, total + 1, 4)}):
            top, state = trace_lines(k)
            sys.settrace(top)
            try:
                ops[name]()
            except Interrupted:
                ctx.count("interruptions")
                ctx.distinct("interrupted_lines", state["where"])
            except BaseException as e:  # noqa: BLE001
                sys.settrace(old)
                ctx.count("turned_into:" + type(e).__name__)
            else:
                ctx.count("swallowed")
            finally:
                sys.settrace(old)
            for w, b in zip(watched, before, strict=True):
                a = fp(w)
                ctx.check(a == b, f"interrupted:{name}", f"{name} interrupted at {state['where']} left a changed {type(w).__name__}", before=b, after=a)
            try:
                got = fp(ops[name]())
            except Exception as e:  # noqa: BLE001
                got = repr(e)
            ctx.check(similar(got, want), f"resumed:{name}", f"{name} gives another result after an interruption at {state['where']}", want=want, got=got)
        ctx.nontrivial((name, total, before))


FAMILIES = [
    Family("faults", faults, 500, 15000),
    Family("interrupted", interrupted, 900, 30000),
    Family("opengraphs", opengraphs, 600, 20000),
    Family("circuits", circuits, 2000, 40000),
    Family("backends", backends, 1500, 30000),
    Family("graphs", graphs, 1500, 30000),
    Family("states", states, 2000, 40000),
    Family("patterns", patterns, 2000, 40000),
]
