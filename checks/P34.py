"""Tensor networks represent the state their operations produce (dense reference model)."""

import warnings

import numpy as np

import gen
import mon
import ref
from core import Family, Violation
from graphix import Pattern, command
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector
from graphix.sim.tensornet import MBQCTensorNet, TensorNetworkBackend
from graphix.states import BasicStates

ID = "P34"
QUICK_SCALE = 3
RULE = (
    "Random histories of operations on an MBQCTensorNet (nodes added in every form, graph states, gates on one or several qubits decomposed or not, CZ through the backend, measurements in Pauli or arbitrary bases with forced or selected outcomes, shallow and deep copies that diverge) and patterns run by both preparation strategies. "
    "Oracle: a dense unnormalised vector updated with numpy; every query (coefficients, amplitudes, statevector, norm, expectation values, open tensors) compared after each step group, on permuted indices. Non-trivial: >= 3 operations and >= 2 qubits; distinct = the history."
)
ASSUMPTIONS = [
    "coefficients and statevectors are asked for all open nodes, in any order",
    "patterns run with this backend have uniformly random outcomes, except on isolated nodes (documented restriction of the backend)",
]
FLOORS = {"histories": 200, "operations": 1400, "statevectors": 250, "coefficients": 400, "expectations": 350, "norms": 250, "copies": 80, "measurements": 150, "graph_states": 60, "refused": 80, "patterns": 60, "isolated": 30, "strategies": 60}
WARM = ()

NAMED = {"plus": BasicStates.PLUS, "minus": BasicStates.MINUS, "zero": BasicStates.ZERO, "one": BasicStates.ONE, "iplus": BasicStates.PLUS_I, "iminus": BasicStates.MINUS_I}
VEC = {
    "plus": np.array([1, 1]) / np.sqrt(2),
    "minus": np.array([1, -1]) / np.sqrt(2),
    "zero": np.array([1, 0]),
    "one": np.array([0, 1]),
    "iplus": np.array([1, 1j]) / np.sqrt(2),
    "iminus": np.array([1, -1j]) / np.sqrt(2),
}
PAULI_VEC = {"X": ("plus", "minus"), "Y": ("iplus", "iminus"), "Z": ("zero", "one")}


class Recorder(BranchSelector):
    """Chooses outcomes from its own list and records what it is asked."""

    def __init__(self, rng):
        self.rng, self.asked = rng, []

    def __deepcopy__(self, memo):
        return self

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        r = int(self.rng.integers(2))
        p = f_expectation0()
        if p < 1e-9:
            r = 1
        elif p > 1 - 1e-9:
            r = 0
        self.asked.append((qubit, p, r))
        return r


class Dense:
    def __init__(self, nodes=(), t=None):
        self.nodes = list(nodes)
        self.t = np.array(1.0 + 0j) if t is None else t

    def copy(self):
        return Dense(self.nodes, self.t.copy())

    def add(self, node, vec):
        self.t = np.multiply.outer(self.t, vec)
        self.nodes.append(node)

    def gate(self, mat, nodes):
        n, k = len(self.nodes), len(nodes)
        ax = [self.nodes.index(v) for v in nodes]
        g = np.asarray(mat, dtype=complex).reshape((2,) * (2 * k))
        t = np.tensordot(g, self.t, axes=(list(range(k, 2 * k)), ax))
        rest = [a for a in range(n) if a not in ax]
        self.t = np.transpose(t, np.argsort(ax + rest))

    def project(self, vec, node):
        a = self.nodes.index(node)
        self.t = np.tensordot(np.conj(vec), self.t, axes=([0], [a]))
        self.nodes.remove(node)

    def vector(self, order):
        return np.transpose(self.t, [self.nodes.index(v) for v in order]).reshape(-1)

    def norm(self):
        return float(np.linalg.norm(self.t))


def close(a, b, scale=1.0):
    return np.allclose(a, b, atol=1e-8 * max(scale, 1e-3), rtol=1e-7)


def queries(ctx, rng, net, d, hist, full=True):
    if not net.tensor_map:
        return
    what = {"history": hist}
    order = [d.nodes[k] for k in rng.permutation(len(d.nodes))]
    nrm = d.norm()
    got = net.norm()
    ctx.check(isinstance(got, float) and close(got, nrm, nrm), "norm", f"norm {got}, expected {nrm}", **what)
    ctx.count("norms")
    if nrm < 1e-6:
        return
    v = d.vector(order)
    default = gen.chance(rng, 0.5)
    if default:
        net.default_output_nodes = list(order)
        idx = None
    else:
        idx = gen.pick(rng, (order, tuple(order)))
    sv = net.to_statevector() if default else net.to_statevector(idx)
    ctx.check(sv.shape == (1 << len(order),) and close(sv, v / nrm), "statevector", f"to_statevector({idx})", expected=v / nrm, got=sv, **what)
    ctx.count("statevectors")
    if default:
        ctx.check(close(net.flatten(), v / nrm), "statevector", "flatten", **what)
    for _ in range(2):
        b = int(rng.integers(1 << len(order)))
        arg = gen.pick(rng, (b, f"{b:0{max(len(order), 1)}b}"))
        normalize = gen.chance(rng, 0.5)
        kw = {} if normalize and gen.chance(rng, 0.5) else {"normalize": normalize}
        c = net.basis_coefficient(arg, **kw) if default else net.basis_coefficient(arg, indices=idx, **kw)
        want = v[b] / nrm if normalize else v[b]
        ctx.check(close(c, want, 1 if normalize else nrm), "coefficient", f"basis_coefficient({arg!r}, normalize={normalize}) is {c}, expected {want}", **what)
        ctx.count("coefficients")
        if default:
            a = net.basis_amplitude(arg)
            ctx.check(close(a, abs(v[b]) ** 2 / nrm**2), "amplitude", f"basis_amplitude({arg!r}) is {a}", **what)
    if d.nodes:
        k = int(rng.integers(1, min(len(order), 3) + 1))
        pos = [int(x) for x in rng.permutation(len(order))[:k]]
        op = gen.pick(rng, (ref.haar_unitary(rng, 1 << k), None))
        if op is None:
            h = rng.normal(size=(1 << k, 1 << k)) + 1j * rng.normal(size=(1 << k, 1 << k))
            op = h + h.conj().T
        keep = op.copy()
        if gen.chance(rng, 0.5):
            op = op.reshape((2,) * (2 * k))
        out = None if default else gen.pick(rng, (list(order), tuple(order), iter(order)))
        if not default and gen.chance(rng, 0.3):
            # nodes that are not listed are traced out
            cut = order[: max(pos) + 1]
            out = list(cut)
        kw = {} if gen.chance(rng, 0.6) else {"optimize": "greedy"}
        e = net.expectation_value(op, gen.pick(rng, (pos, tuple(pos))), **({} if out is None else {"output_node_indices": out}), **kw)
        dd = d.copy()
        dd.gate(keep, [order[q] for q in pos])
        want = np.vdot(d.vector(order), dd.vector(order)) / nrm**2
        ctx.check(close(e, want), "expectation", f"expectation_value on {pos} of {order} is {e}, expected {want}", **what)
        ctx.check(np.array_equal(op.reshape(keep.shape), keep), "argument-modified", "the operator was changed", **what)
        ctx.count("expectations")


def raises(ctx, exc, fn, what):
    try:
        fn()
    except exc:
        ctx.count("refused")
    except Exception as e:  # noqa: BLE001
        ctx.fail("refusal-kind", f"{what} raised {type(e).__name__}: {e}")
    else:
        ctx.fail("not-refused", what)


def a_state(rng):
    if gen.chance(rng, 0.5):
        name = gen.pick(rng, list(VEC))
        return name, VEC[name]
    v = ref.haar_state(rng, 1)
    if gen.chance(rng, 0.3):
        v = v.real / np.linalg.norm(v.real)
    return v, np.asarray(v, dtype=complex)


def histories(ctx, rng, i):
    lab = gen.labels(rng, 12)
    sel = Recorder(rng)
    d = Dense()
    hist = []
    top = 5 if gen.chance(rng, 0.9) else 9
    if gen.chance(rng, 0.4):
        n = int(rng.integers(1, 5 if top == 5 else 9))
        nodes = lab[:n]
        edges = [tuple(int(x) for x in rng.permutation([nodes[a], nodes[b]])) for a in range(n) for b in range(a) if gen.chance(rng, 0.6)]
        net = MBQCTensorNet(sel, gen.pick(rng, (nodes, iter(nodes), set(nodes))), gen.pick(rng, (edges, iter(edges))), default_output_nodes=gen.pick(rng, (None, nodes, iter(nodes))))
        for v in nodes:
            d.add(v, VEC["plus"])
        for e in edges:
            d.gate(ref.CZ, e)
        hist.append(("graph", nodes, edges))
        todo = lab[n:]
        ctx.count("graph_states")
    else:
        net = MBQCTensorNet(sel, default_output_nodes=None)
        todo = list(lab)
    pattern = Pattern(input_nodes=[])
    backend = TensorNetworkBackend(pattern, "sequential", branch_selector=sel)
    forks = []
    for _step in range(int(rng.integers(3, 14))):
        acts = []
        if todo and len(d.nodes) < top:
            acts += ["add"] * 3 + ["adds"]
        if d.nodes:
            acts += ["single"] * 3 + ["evolve"] * 2
        if len(d.nodes) >= 2:
            acts += ["evolve"] * 3 + ["measure"] * 2
        elif d.nodes:
            acts += ["measure"] * (len(hist) > 5)
        acts += ["copy"]
        a = gen.pick(rng, acts)
        if a == "add":
            v = todo.pop()
            s, vec = a_state(rng)
            if isinstance(s, str) and s == "plus" and gen.chance(rng, 0.5):
                net.add_qubit(v)
            else:
                net.add_qubit(v, s)
            d.add(v, vec)
            t = net.open_tensor(gen.pick(rng, (v, str(v))))
            ctx.check(t.dtype == np.complex128 and close(t, vec), "open-tensor", f"open_tensor of a node added in state {s!r}", got=t)
        elif a == "adds":
            k = int(rng.integers(0, min(len(todo), top + 1 - len(d.nodes)) + 1))
            vs = [todo.pop() for _ in range(k)]
            form = gen.pick(rng, ("default", "str", "list", "iter", "vector", "array", "complexes"))
            pairs = [a_state(rng) for _ in vs]
            if form == "default":
                net.add_qubits(vs)
                vecs = [VEC["plus"]] * k
            elif form == "str":
                name = gen.pick(rng, list(VEC))
                net.add_qubits(vs, name)
                vecs = [VEC[name]] * k
            elif form in {"list", "iter"} or k == 0:
                arg = [s for s, _ in pairs]
                net.add_qubits(vs, arg if form == "list" else iter(arg))
                vecs = [x for _, x in pairs]
            elif form == "array":
                arr = np.array([x for _, x in pairs])
                net.add_qubits(vs, arr)
                vecs = list(arr)
            else:
                x = ref.haar_state(rng, 1)
                if gen.chance(rng, 0.3):
                    x = x.real / np.linalg.norm(x.real)
                net.add_qubits(vs, x if form == "vector" else [complex(c) for c in x])
                vecs = [x] * k
            for v, x in zip(vs, vecs, strict=True):
                d.add(v, np.asarray(x, dtype=complex))
            a = f"adds {form} {vs}"
        elif a == "single":
            v = gen.pick(rng, d.nodes)
            u = gen.pick(rng, (ref.haar_unitary(rng, 2), ref.CLIFFORD[int(rng.integers(24))], rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))))
            net.evolve_single(v, u, **({"label": "G"} if gen.chance(rng, 0.3) else {}))
            d.gate(u, [v])
            a = f"single {v}"
        elif a == "evolve":
            order = [d.nodes[k] for k in rng.permutation(len(d.nodes))]
            net.default_output_nodes = list(order)
            k = int(rng.integers(1, min(3, len(order)) + 1))
            pos = [int(x) for x in rng.permutation(len(order))[:k]]
            kind = rng.random()
            u = ref.haar_unitary(rng, 1 << k)
            if kind < 0.2:
                u = rng.normal(size=u.shape) + 1j * rng.normal(size=u.shape)
            elif kind < 0.4:
                u = gen.pick(rng, (np.eye(1 << k), ref.kron(*[ref.haar_unitary(rng, 2) for _ in range(k)])))
            elif kind < 0.5 and k == 2:
                u = ref.CZ
            u = np.asarray(u, dtype=complex)
            keep = u.copy()
            arg = u.reshape((2,) * (2 * k)) if gen.chance(rng, 0.4) else u
            if gen.chance(rng, 0.5):
                net.evolve(arg, pos, decompose=gen.chance(rng, 0.5))
            else:
                net.evolve(arg, pos)
            ctx.check(np.array_equal(u, keep), "argument-modified", "evolve changed the operator")
            d.gate(keep, [order[q] for q in pos])
            a = f"evolve {[order[q] for q in pos]}"
        elif a == "measure":
            v = gen.pick(rng, d.nodes)
            style = rng.random()
            asked = len(sel.asked)
            if style < 0.4:
                vec = ref.haar_state(rng, 1) * gen.pick(rng, (1, 1, np.sqrt(2)))
                r = net.measure_single(v, basis=vec)
                ctx.check(r == 0 and len(sel.asked) == asked, "measure-result", f"projection on a given state returned {r}, selector asked {len(sel.asked) - asked} times")
            else:
                basis = gen.pick(rng, ("X", "Y", "Z"))
                kw = {} if basis == "Z" and gen.chance(rng, 0.5) else {"basis": basis}
                if style < 0.7:
                    r = int(rng.integers(2))
                    got = net.measure_single(v, outcome=r, **kw)
                    ctx.check(got == r and len(sel.asked) == asked, "measure-result", f"outcome {r} was asked, {got} returned")
                else:
                    r = net.measure_single(v, **kw)
                    ctx.check(len(sel.asked) == asked + 1 and sel.asked[-1][0] == v and sel.asked[-1][2] == r, "measure-result", "selector not followed", asked=sel.asked[asked:])
                vec = VEC[PAULI_VEC[basis][r]]
            d.project(vec, v)
            ctx.count("measurements")
            a = f"measure {v}"
        else:
            deep = gen.chance(rng, 0.4)
            c = net.copy(deep=deep)
            ctx.check(type(c) is type(net), "copy", f"copy is a {type(c).__name__}")
            if gen.chance(rng, 0.5):
                forks.append((c, d.copy(), list(hist)))
            else:
                forks.append((net, d.copy(), list(hist)))
                net = c
            ctx.count("copies")
            a = f"copy deep={deep}"
        hist.append(a)
        ctx.count("operations")
        if gen.chance(rng, 0.25):
            queries(ctx, rng, net, d, hist)
    queries(ctx, rng, net, d, hist)
    for c, dd, h in forks[-2:]:
        queries(ctx, rng, c, dd, [*h, "(copy diverged)", *hist])
        if dd.nodes:
            c.evolve_single(dd.nodes[0], ref.H)
            queries(ctx, rng, net, d, [*hist, "(after a gate on a copy)"])
    ctx.count("histories")
    if len(hist) >= 3 and len(d.nodes) >= 2:
        ctx.nontrivial((hist, [complex(x) for x in d.vector(d.nodes)[:2]]))
        ctx.sample(hist)
    del backend


def refusals(ctx, rng, i):
    net = MBQCTensorNet(ConstBranchSelector(0))
    raises(ctx, TypeError, lambda: net.add_qubit(0, gen.pick(rng, ("Plus", "0", "", 3, None))), "add_qubit with an unknown state")
    raises(ctx, ValueError, lambda: net.add_qubit(0, gen.pick(rng, (np.ones(3) / np.sqrt(3), np.eye(2), np.ones((1, 2)) / np.sqrt(2)))), "add_qubit with a vector of another shape")
    raises(ctx, ValueError, lambda: net.add_qubit(0, gen.pick(rng, (np.ones(2), np.zeros(2), np.array([0.5, 0.5j])))), "add_qubit with a vector that is not normalised")
    raises(ctx, ValueError, lambda: net.add_qubits([0, 1], gen.pick(rng, (["plus"], ["plus", "zero", "one"]))), "add_qubits with another number of states")
    net = MBQCTensorNet(ConstBranchSelector(0))
    net.add_qubit(3)
    net.add_qubit(5, "zero")
    before = net.to_statevector([3, 5])
    raises(ctx, ValueError, lambda: net.to_statevector(), "to_statevector without output nodes")
    raises(ctx, ValueError, lambda: net.basis_coefficient(0), "basis_coefficient without output nodes")
    raises(ctx, ValueError, lambda: net.expectation_value(ref.X, [0]), "expectation_value without output nodes")
    raises(ctx, ValueError, lambda: net.evolve(ref.X, [0]), "evolve without output nodes")
    raises(ctx, NotImplementedError, lambda: net.measure_single(3, bypass_probability_calculation=False), "measure_single without bypass_probability_calculation")
    raises(ctx, ValueError, lambda: net.measure_single(3, basis=gen.pick(rng, ("W", "x", "")), outcome=0), "measure_single in an unknown basis")
    raises(ctx, Warning, lambda: net.measure_single(3, basis=np.array([1, 0]), outcome=1), "measure_single with a basis vector and an outcome")
    ctx.check(close(net.to_statevector([3, 5]), before), "refusal-modifies", "refused calls changed the network")
    for bad in ("tree", "", "Auto"):
        raises(ctx, ValueError, lambda bad=bad: TensorNetworkBackend(Pattern(input_nodes=[0]), bad), f"graph preparation strategy {bad!r}")
    raises(ctx, NotImplementedError, lambda: TensorNetworkBackend(Pattern(input_nodes=[0]), input_state=BasicStates.ZERO), "input state |0>")
    q = Pattern(input_nodes=[0], cmds=[command.N(1, state=BasicStates.ZERO)])
    raises(ctx, (NotImplementedError, ValueError), lambda: q.simulate("tensornetwork", branch_selector=ConstBranchSelector(0)), "preparation of |0>")
    p = Pattern(input_nodes=[0], cmds=[command.N(1), command.E((0, 1)), command.M(0), command.X(1, {0}), command.N(2), command.E((1, 2))])
    if not p.is_standard():
        raises(ctx, ValueError, lambda: TensorNetworkBackend(p, "parallel"), "parallel preparation of a pattern that is not standard")


def run_pattern(ctx, rng, p, prep, what):
    """Simulate with random outcomes; compare with the reference branch."""
    sel = Recorder(rng)
    kw = {} if prep is None else {"graph_prep": prep}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        net = p.simulate("tensornetwork", branch_selector=sel, **kw)
    ctx.check(net.default_output_nodes == p.output_nodes, "output-nodes", f"{net.default_output_nodes}", pattern=repr(p))
    meas = [c.node for c in p if c.kind.name == "M"]
    ctx.check([q for q, _, _ in sel.asked] == meas, "questions", f"selector asked {[q for q, _, _ in sel.asked]}, measured {meas}", pattern=repr(p))
    outs = {q: r for q, _, r in sel.asked}
    k = mon.ref_kraus(p, outs)
    n_in = len(p.input_nodes)
    psi = k @ (np.ones(1 << n_in) / np.sqrt(1 << n_in))
    nrm = np.linalg.norm(psi)
    ctx.check(nrm > 1e-9, "impossible-branch", f"{outs} has probability 0", pattern=repr(p))
    sv = net.to_statevector()
    ov = abs(np.vdot(sv, psi)) / nrm
    ctx.check(abs(ov - 1) < 1e-7, "pattern-state", f"state of {what} with {prep}: overlap {ov}", pattern=repr(p), outcomes=outs)
    ctx.count("strategies")
    return outs


def some_deterministic(rng):
    c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 6)))
    p = c.transpile().pattern
    if gen.chance(rng, 0.4):
        p = p.infer_pauli_measurements()
    if gen.chance(rng, 0.5):
        p.standardize()
    if gen.chance(rng, 0.3):
        p.standardize()
        p.shift_signals()
    return p


def patterns(ctx, rng, i):
    p = some_deterministic(rng)
    if len(p.nodes()) > 26:
        return
    extra = sorted(p.nodes())[-1] + 1
    if gen.chance(rng, 0.5):
        # isolated nodes, measured in a basis that makes one outcome certain or likely, or left as outputs
        cmds = [command.N(extra + k) for k in range(2)]
        cmds += [command.C(extra, gen.Clifford(int(rng.integers(24))))] if gen.chance(rng, 0.4) else []
        cmds += [command.Z(extra, set())] if gen.chance(rng, 0.3) else []
        cmds += [command.M(extra, gen.measurement(rng))]
        pre = [c for c in p if c.kind.name == "N"]
        rest = [c for c in p if c.kind.name != "N"]
        q = Pattern(input_nodes=p.input_nodes, cmds=[*pre, *cmds[:2], *rest, *cmds[2:]] if gen.chance(rng, 0.5) else [*p, *cmds])
        p = q
        ctx.count("isolated")
    for prep in (None, "sequential", "parallel", "auto"):
        if prep == "parallel" and not p.is_standard():
            continue
        if prep == "parallel" and p.max_degree() > 10:
            continue
        if gen.chance(rng, 0.6) or prep == "parallel":
            run_pattern(ctx, rng, p, prep, "a pattern")
    ctx.count("patterns")
    ctx.nontrivial(repr(p))


def backend_ops(ctx, rng, i):
    """Nodes, edges and corrections through the backend, step by step."""
    n = int(rng.integers(2, 5)) if rng.random() < 0.85 else int(rng.integers(5, 9))
    lab = gen.labels(rng, n)
    sel = Recorder(rng)
    b = TensorNetworkBackend(Pattern(input_nodes=[]), "sequential", branch_selector=sel)
    d = Dense()
    hist = []
    b.add_nodes(lab)
    for v in lab:
        d.add(v, VEC["plus"])
    for _ in range(int(rng.integers(2, 12))):
        a = rng.random()
        v = gen.pick(rng, lab)
        if a < 0.5:
            e = tuple(int(x) for x in rng.permutation(lab)[:2])
            b.entangle_nodes(e)
            d.gate(ref.CZ, e)
            hist.append(("E", e))
        elif a < 0.75:
            c = int(rng.integers(24))
            b.apply_clifford(v, gen.Clifford(c))
            d.gate(np.asarray(gen.Clifford(c).matrix), [v])
            hist.append(("C", v, c))
        else:
            cls = gen.pick(rng, (command.X, command.Z))
            b.correct_byproduct(cls(v, set()))
            d.gate(ref.X if cls is command.X else ref.Z, [v])
            hist.append((cls.__name__, v))
        ctx.count("operations")
    queries(ctx, rng, b.state, d, hist)
    ctx.count("histories")
    ctx.nontrivial(hist)


FAMILIES = [
    Family("histories", histories, 320, 7000, cpu_limit=60),
    Family("backend", backend_ops, 120, 2500, cpu_limit=60),
    Family("patterns", patterns, 130, 2500, cpu_limit=60),
    Family("refusals", refusals, 8, 60),
]
