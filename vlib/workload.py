"""Scripted work over the whole library, for P37: every scenario is a function of its number alone.

A scenario yields (step, payload) pairs; a payload is text (or nested lists of text) or an array.
Nothing here may depend on the iteration order of sets or on anything but `k`.
"""

import types
import warnings
from collections.abc import Mapping
from enum import Enum

import networkx as nx
import numpy as np

import gen
from graphix import random_objects as ro
from graphix.branch_selector import RandomBranchSelector
from graphix.clifford import Clifford
from graphix.command import E, M, N, X
from graphix.channels import dephasing_channel, depolarising_channel, pauli_channel, two_qubit_depolarising_channel
from graphix.extraction import graph_to_fusion_network
from graphix.fundamentals import Axis, Plane
from graphix.graphsim import GraphState
from graphix.measurements import Measurement
from graphix.noise_models import DepolarisingNoiseModel
from graphix.ops import Ops
from graphix.optimization import StandardizedPattern, remove_useless_domains, single_qubit_domains
from graphix.parameter import Placeholder
from graphix.pattern import Pattern
from graphix.pauli import Pauli
from graphix.qasm3_exporter import circuit_to_qasm3, pattern_to_qasm3
from graphix.remove_pauli_measurements import PauliPushingCut, remove_pauli_measurements
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates
from graphix.simulator import DefaultMeasureMethod
from graphix.transpiler import transpile_swaps


def canon(x):
    """Text of a value in which sets are sorted."""
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(map(canon, x))) + "}"
    if isinstance(x, dict):
        return "{" + ", ".join(f"{canon(k)}: {canon(v)}" for k, v in x.items()) + "}"
    if isinstance(x, (list, tuple)):
        return "[" + ", ".join(map(canon, x)) + "]"
    return repr(x)


def text(p):
    """Commands of a pattern in their order, domains sorted."""
    out = [repr(p.input_nodes), repr(p.output_nodes)]
    for c in p:
        k = c.kind.name
        if k == "M":
            out.append(f"M {c.node} {c.measurement!r} {sorted(c.s_domain)} {sorted(c.t_domain)}")
        elif k in "XZ":
            out.append(f"{k} {c.node} {sorted(c.domain)}")
        else:
            out.append(repr(c))
    return out


KEPT = None


def keep(x):
    """Remember what an operation returned (single-threaded, only while KEPT is a list)."""
    if KEPT is not None:
        KEPT.append(x)
    return x


def vandalise(objs):
    """Overwrite every mutable container reachable from the given results; return how many."""
    seen, todo, hit = {}, list(objs), []
    while todo:
        x = todo.pop()
        if id(x) in seen or x is None or isinstance(x, (str, bytes, int, float, complex, type, Enum, types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, np.random.Generator, Clifford, Measurement)):
            continue
        seen[id(x)] = x
        if isinstance(x, (list, tuple, set, frozenset)):
            todo.extend(x)
        elif isinstance(x, Mapping):
            todo.extend(x.keys())
            todo.extend(x.values())
        elif isinstance(x, np.ndarray):
            pass
        elif isinstance(x, nx.Graph):
            hit.append(x)
            continue
        else:
            todo.extend(getattr(x, "__dict__", {}).values())
            for c in type(x).__mro__:
                slots = c.__dict__.get("__slots__", ())
                todo.extend(getattr(x, n, None) for n in ([slots] if isinstance(slots, str) else slots))
        if isinstance(x, (list, set, dict)) or (isinstance(x, np.ndarray) and x.flags.writeable and x.size):
            hit.append(x)
    for x in hit:
        if isinstance(x, np.ndarray):
            x.fill(1)
        else:
            x.clear()
    return len(hit)


def run(p, seed, backend="statevector", **kw):
    mm = DefaultMeasureMethod()
    st = p.simulate(backend, rng=np.random.default_rng(seed), measure_method=mm, **kw)
    return canon(mm.results), np.asarray(st.rho if hasattr(st, "rho") else st.flatten())


def circuit(k):
    rng = np.random.default_rng([k, 1])
    c = keep(gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(3, 10)), measure=0.1, ccx=0.03, pauli=0.5))
    yield "circuit", repr(c)
    r = keep(c.simulate(rng=np.random.default_rng(k)))
    yield "simulate", repr(r.classical_measures)
    yield "state", np.asarray(r.state.flatten())
    sw = keep(transpile_swaps(c, copy=True))
    yield "swaps", repr((sw.circuit, sw.outputs))
    yield "qasm", circuit_to_qasm3(c.transpile_measurements_to_z_axis()) if "RZZ" not in repr(c) else ""
    tp = keep(c.transpile())
    p = tp.pattern
    yield "transpile", [text(p), repr(tp.classical_outputs)]
    p.check_runnability()
    for name, f in (
        ("standardize", lambda q: q.standardize()),
        ("direct", lambda q: q.shift_signals(method="direct")),
        ("mc", lambda q: q.shift_signals(method="mc")),
        ("space", lambda q: q.minimize_space()),
        ("parallel", lambda q: q.parallelize_pattern()),
        ("infer", lambda q: q.infer_pauli_measurements()),
        ("push", lambda q: q.perform_pauli_pushing()),
        ("remove", lambda q: q.remove_pauli_measurements()),
        ("clifford", lambda q: q.remove_local_clifford_commands()),
    ):
        keep(f(p))
        keep(list(p))
        yield name, text(p)
        yield name + " text", [p.to_ascii(), p.to_unicode(), p.to_latex()]
    out, st = run(p, k)
    yield "outcomes", out
    yield "pattern state", st
    yield "pattern qasm", pattern_to_qasm3(p)


def opengraph(k):
    rng = np.random.default_rng([k, 2])
    if rng.random() < 0.5:
        og = gen.random_opengraph(rng, int(rng.integers(2, 9)), int(rng.integers(0, 3)), int(rng.integers(1, 4)), pauli_obj=0.3, cliffords=0.2)
    else:
        og = gen.planted_opengraph(rng, int(rng.integers(1, 8)), int(rng.integers(1, 4)), pauli_obj=0.3)[0]
    yield "open graph", canon([sorted(og.graph.nodes), sorted(map(sorted, og.graph.edges)), og.input_nodes, og.output_nodes, dict(sorted(og.measurements.items()))])
    og = keep(keep(og).infer_pauli_measurements())
    b = keep(og.to_bloch())
    for name, f in (("causal", b.to_causalflow_or_none()), ("gflow", b.to_gflow_or_none()), ("pauli", og.to_pauliflow_or_none())):
        if f is None:
            yield name, "none"
            continue
        keep(f)
        yield name, [canon(dict(sorted(f.correction_function.items()))), canon(list(f.partial_order_layers)), str(f)]
        xz = keep(f.to_xzcorrections())
        yield name + " corrections", [canon(dict(sorted(xz.x_corrections.items()))), canon(dict(sorted(xz.z_corrections.items()))), str(xz)]
        yield name + " order", repr(keep(xz.generate_total_measurement_order()))
        p = keep(xz.to_pattern())
        yield name + " pattern", text(p)
        if not any(c.kind.name == "C" for c in p):
            out, st = run(p, k)
            yield name + " outcomes", out
            yield name + " state", st
        yield name + " back", str(StandardizedPattern.from_pattern(p).to_opengraph().to_pauliflow_or_none() if name == "pauli" else "")
        if name != "causal" and not og.output_cliffords and len(og.input_nodes) == len(og.output_nodes):
            er = keep(f.extract_circuit())
            yield name + " extraction", canon(er.clifford_map)
            yield name + " circuit", repr(keep(er.to_circuit()))


def pattern(k):
    rng = np.random.default_rng([k, 3])
    n = int(rng.integers(2, 9))
    p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=0.1, pauli_obj=0.5)
    q = gen.raw_pattern(rng, 4, 2, cliffords=0.0)
    keep((p, q))
    yield "pattern", text(p)
    yield "noise", text(p) and repr(run(p, k, "densitymatrix", noise_model=DepolarisingNoiseModel(0.1, 0.1, 0.1, 0.2, 0.1, 0.3))[0])
    yield "pushed", text(keep(keep(keep(PauliPushingCut.from_standardizedpattern(keep(StandardizedPattern.from_pattern(p)))).to_standardizedpattern()).to_pattern()))
    yield "removed", text(remove_pauli_measurements(PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(p))).to_pattern())
    r, m = keep(p.compose(q, dict(zip(q.input_nodes, p.output_nodes))))
    yield "composed", [text(r), canon(m)]
    yield "mapping", canon(keep(p.node_mapping(start=3, avoids={4, 7, 5})))
    yield "standard", text(StandardizedPattern.from_pattern(r).to_pattern())
    yield "space optimal", text(StandardizedPattern.from_pattern(r).to_space_optimal_pattern())
    s = keep(StandardizedPattern.from_pattern(p).to_pattern())
    yield "domains", [text(keep(remove_useless_domains(s))), text(keep(single_qubit_domains(s)))]
    yield "layers", canon(list(keep(s.partial_order_layers())))
    yield "shift", canon(keep(r.shift_signals(method="direct")))
    r.minimize_space()
    yield "space", [text(r), repr(r.space_list())]
    out, st = run(p, k, branch_selector=RandomBranchSelector(pr_calc=bool(k % 2)))
    yield "outcomes", out
    yield "state", st


def others(k):
    rng = np.random.default_rng([k, 4])
    g = nx.gnp_random_graph(int(rng.integers(1, 12)), 0.3, seed=int(rng.integers(1000)))
    yield "fusion", [repr((sorted(map(repr, r.cltype.name)), sorted(r.graph.nodes), sorted(map(sorted, r.graph.edges)))) for r in keep(graph_to_fusion_network(g, max_ghz=5, max_lin=4))]
    gs = keep(GraphState(nodes=sorted(g.nodes), edges=sorted(g.edges)))
    for v in sorted(g.nodes):
        getattr(gs, gen.pick(rng, ("h", "s", "z")))(v)
    yield "measured", repr([gs.measure_z(0), sorted(gs.edges), sorted((v, sorted(map(str, d.items()))) for v, d in gs.nodes(data=True))])
    for name, f in (
        ("unitary", lambda r: ro.rand_unit(4, r)), ("herm", lambda r: ro.rand_herm(3, r)), ("dm", lambda r: ro.rand_dm(4, r)),
        ("gauss", lambda r: ro.rand_gauss_cpx_mat(3, r)), ("channel", lambda r: np.concatenate([d.operator for d in ro.rand_channel_kraus(2, rng=r)])),
    ):  # fmt: skip
        x = keep(f(np.random.default_rng(k)))
        yield name, np.asarray(x.rho if hasattr(x, "rho") else x)
    yield "random circuit", repr(keep(ro.rand_circuit(3, 4, np.random.default_rng(k), use_ccx=bool(k % 2), use_j=True)))
    qs = [Placeholder(x) for x in "abcdef"]
    yield "random parametric circuit", repr(keep(ro.rand_circuit(2, 4, np.random.default_rng(k), parameters=iter(qs))))
    sv = keep(Statevector(nqubit=3))
    u = ro.rand_unit(4, np.random.default_rng(k))
    sv.evolve(u, [2, 0])
    yield "evolved", np.asarray(sv.flatten())
    yield "drawn", sv.draw()
    dm = keep(DensityMatrix(sv))
    dm.apply_channel(keep(depolarising_channel(0.25)), [1])
    yield "noisy", np.asarray(dm.rho)
    names = ["a", "b", "c", "d"]
    ps = [Placeholder(x) for x in names]
    c = gen.circuit(rng, 2, 6, ccx=0, angle_fn=lambda: ps[int(rng.integers(4))] * float(rng.integers(1, 4)) + 0.25)
    keep(c)
    yield "parametric", text(keep(c.transpile()).pattern)
    yield "substituted", text(keep(keep(c.with_parameters({p: j / 8 for j, p in enumerate(ps)})).transpile()).pattern)


def tables(k):
    """Values handed out for constants: gates, states, tables, channels."""
    rng = np.random.default_rng([k, 5])
    for _ in range(6):
        a, b = Clifford(int(rng.integers(24))), Clifford(int(rng.integers(24)))
        og = keep(a.to_opengraph())
        yield "clifford", canon([a @ b, a.conj, keep(a.hsz), keep(a.qasm3), og.measurements, sorted(og.graph.edges)])
        yield "matrix", np.array(keep(a.matrix))
        x = keep(gen.pick(rng, (Ops.X, Ops.H, Ops.CZ, Ops.CNOT, Ops.S, Ops.SWAP, Ops.CCX)))
        yield "operator", np.array(x)
        t = float(rng.random())
        f, n = gen.pick(rng, ((Ops.rx, 2), (Ops.rz, 2), (Ops.rzz, 4), (Ops.ry, 2)))
        yield "rotation", np.array(keep(f(t)))
        yield "power", [np.array(x) for x in keep(Ops.build_tensor_pauli_ops(2))][int(rng.integers(16))]
        yield "state", np.array(keep(gen.pick(rng, (BasicStates.PLUS, BasicStates.MINUS_I, BasicStates.ZERO)).to_statevector_numpy()))
        for ch in (depolarising_channel(t), dephasing_channel(t), two_qubit_depolarising_channel(t / 2), pauli_channel(t / 4, t / 3, t / 5)):
            yield "channel", np.array([d.coef * d.operator for d in keep(ch)])
        m = gen.measurement(rng, pauli_obj=0.5)
        yield "measurement", canon([m, m.to_bloch(), m.to_pauli_or_bloch(abs_tol=float(gen.pick(rng, (0, 0.3)))), m.clifford(a)])
        yield "pauli", canon([keep(list(Pauli.iterate())), Plane.from_axes(*gen.pick(rng, ((Axis.X, Axis.Y), (Axis.Z, Axis.X))))])
        p = keep(Pattern(input_nodes=[0], cmds=[N(1), E((0, 1)), M(0, m), X(1, {0})]))
        yield "pattern", [text(p), canon([keep(x) for x in (p.nodes(), p.isolated_nodes(), p.clifford_commands(), p.correction_commands(), p.space_list(), p.measurement_commands(), list(p.partial_order_layers()))])]
        yield "open graph", canon(sorted(keep(p.to_opengraph()).graph.edges))


SCENARIOS = (circuit, opengraph, pattern, others, tables)


def scenario(j):
    """All steps of scenario number j; an exception of the library is a step like any other."""
    name = SCENARIOS[j % len(SCENARIOS)]
    it = name(j)
    while True:
        try:
            yield next(it)
        except StopIteration:
            return
        except Exception as e:  # noqa: BLE001
            yield "raised", f"{type(e).__name__}: {e}"
            return


def differ(a, b):
    """None, or where two step lists differ."""
    for (n, x), (m, y) in zip(a, b):
        if n != m:
            return f"step {n} against {m}"
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            if not (isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and np.allclose(x, y, atol=1e-9, equal_nan=True)):
                return f"step {n}: {x!r} against {y!r}"
        elif x != y:
            return f"step {n}: {x} against {y}"
    return None if len(a) == len(b) else f"{len(a)} steps against {len(b)}"


warnings.simplefilter("ignore")
