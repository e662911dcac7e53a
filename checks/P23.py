"""Backends agree with each other, whatever the form of the input and the way they are driven."""

import itertools

import numpy as np

import gen
import mon
import ref
from core import Family
from graphix import command
from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector
from graphix.noise_models import DepolarisingNoiseModel
from graphix.noise_models.noise_model import NoiselessNoiseModel
from graphix.pattern import Pattern
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.simulator import DefaultMeasureMethod, DefaultPrepareMethod, MeasureMethod, PatternSimulator, PrepareMethod
from graphix.states import BasicStates

ID = "P23"
QUICK_SCALE = 2
RULE = (
    "Random patterns (any planes, domains, Cliffords; and patterns from open graphs with flow for the tensor network) run by the state-vector, density-matrix and tensor-network backends (every preparation strategy) with the same forced outcomes and the same input in every accepted form, also on backends driven by the user, resumed from one pattern to the next, or with user-defined prepare and measure methods whose calls are logged. "
    "Non-trivial: a pattern with >= 2 measurements and >= 1 edge whose output all backends produced; distinct = (pattern, outcomes, input)."
)
ASSUMPTIONS = ["the tensor network is only compared on patterns with flow and |+> inputs, as documented (it assumes uniformly random outcomes)"]
FLOORS = {"dense_runs": 3500, "tn_runs": 250, "forms": 1500, "resumed": 400, "logged_commands": 4000, "refusals": 3500, "prepared_backends": 400}
WARM = "all"


def forms(rng, n, dm):
    """(name, flat vector, data) for one input state."""
    r = int(rng.integers(7 if dm else 6))
    if r == 0:
        s = gen.planar_state(rng) if rng.random() < 0.5 else gen.pick(rng, gen.BASIC)
        return "state", ref.kron(*([ref.state_vec(s).reshape(-1, 1)] * n)).reshape(-1), s
    if r == 1 and n:
        ss = [gen.planar_state(rng) if rng.random() < 0.5 else gen.pick(rng, gen.BASIC) for _ in range(n)]
        return "states", ref.kron(*(ref.state_vec(s).reshape(-1, 1) for s in ss)).reshape(-1), gen.pick(rng, (ss, tuple(ss), iter(ss)))
    v = gen.states_for(rng, n)
    if r == 2:
        return "array", v, v.copy()
    if r == 3:
        return "list", v, gen.pick(rng, ([complex(x) for x in v], iter(list(v))))
    if r == 6:
        return "matrix", v, gen.pick(rng, (np.outer(v, v.conj()), np.outer(v, v.conj()).tolist(), DensityMatrix(v)))
    return "statevector", v, Statevector(v, max_qubits=n + int(rng.integers(0, 3)))


def same_state(ctx, st, want, mech, desc):
    """`st` is a real output state; `want` an unnormalised vector."""
    w = want / np.linalg.norm(want)
    if isinstance(st, DensityMatrix):
        ok = st.rho.shape == (w.size, w.size)
        d = float(np.linalg.norm(np.asarray(st.rho) - np.outer(w, w.conj()))) if ok else np.inf
    elif isinstance(st, Statevector):
        d = ref.phase_dist(np.array(st.psi), w)
    else:
        d = ref.phase_dist(np.asarray(st.to_statevector()), w)
    ctx.check(d < 1e-6, mech, f"{type(st).__name__} differs from the reference ({d:.3g})", **desc)


def agree(ctx, rng, i):
    p = gen.raw_pattern(rng, int(rng.integers(2, 7)), int(rng.integers(0, 3)), states=0.3, max_live=4, ticks=0.05)
    before = mon.cmds_key(p)
    n = len(p.input_nodes)
    name, psi, data = forms(rng, n, False)
    res, want = mon.feasible_results(p, rng, psi)
    if res is None:
        return
    desc = {"pattern": before, "form": name, "outcomes": res}
    ctx.count("forms")
    mm = DefaultMeasureMethod()
    st = p.simulate(input_state=data, branch_selector=FixedBranchSelector(dict(res)), measure_method=mm)
    ctx.check({k: int(v) for k, v in mm.results.items()} == res, "recorded", f"recorded {mm.results}", **desc)
    same_state(ctx, st, want, "statevector", desc)
    ctx.check(mon.cmds_key(p) == before, "pattern-modified", "simulation modified the pattern", **desc)
    for nm in (None, NoiselessNoiseModel(), DepolarisingNoiseModel()):
        if nm is not None and rng.random() < 0.6:
            continue
        name2, v2, d2 = forms(rng, n, True)
        if name2 != "matrix":
            d2 = gen.pick(rng, (psi.copy(), Statevector(psi), DensityMatrix(psi), np.outer(psi, psi.conj())))
            v2 = psi
            w2 = want
        else:
            w2 = ref.pattern_kraus(p, res) @ v2
            if np.linalg.norm(w2) * 2 ** (len(res) / 2) < 1e-3:
                continue
        mm = DefaultMeasureMethod()
        st = p.simulate("densitymatrix", input_state=d2, branch_selector=FixedBranchSelector(dict(res)), measure_method=mm, noise_model=nm)
        same_state(ctx, st, w2, "densitymatrix", {**desc, "form2": type(d2).__name__})
        ctx.check({k: int(v) for k, v in mm.results.items()} == res, "recorded", f"recorded {mm.results}", **desc)
        ctx.count("dense_runs")
    ctx.count("dense_runs")
    # a backend the user made, empty or with the inputs already in it
    for cls in (StatevectorBackend, DensityMatrixBackend):
        bs = FixedBranchSelector(dict(res))
        b = StatevectorBackend.with_capacity(int(rng.integers(0, 7)), branch_selector=bs) if cls is StatevectorBackend and rng.random() < 0.5 else cls(branch_selector=bs)
        if rng.random() < 0.5:
            b.add_nodes(p.input_nodes, psi)
            st = p.simulate(b, input_state=None)
        else:
            st = p.simulate(b, input_state=psi)
        ctx.count("prepared_backends")
        ctx.check(st is b.state and b.nqubit == len(p.output_nodes), "backend-state", f"{b.nqubit} qubits left", **desc)
        same_state(ctx, st, want, "own-backend", desc)
        # outputs can be addressed by their node afterwards
        if p.output_nodes:
            v = gen.pick(rng, list(p.output_nodes))
            m = gen.measurement(rng)
            w = np.tensordot(ref.meas_vec(m, 0).conj(), want.reshape((2,) * len(p.output_nodes)), axes=(0, list(p.output_nodes).index(v))).reshape(-1)
            if np.linalg.norm(w) > 1e-2 * np.linalg.norm(want):
                bs.results[v] = 0
                b.measure(v, m)
                same_state(ctx, b.state, w, "output-order", desc)
    if len(res) >= 2 and any(c.kind.name == "E" for c in p):
        ctx.nontrivial((before, res, repr(psi)))
    ctx.sample(desc)


def tensor(ctx, rng, i):
    """The tensor network computes the same state on patterns with flow, with every preparation strategy."""
    if rng.random() < 0.5:
        p = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)), ccx=0.0).transpile().pattern
        r = rng.random()
        if r < 0.7:
            p.standardize()
        if r < 0.4:
            p.shift_signals()
    else:
        found = gen.pauliflow_opengraph(rng, 3, 8, kind=gen.pick(rng, ("pauli", "gflow", "cflow")))
        if found is None:
            return
        p = found[0].to_pattern()
        if rng.random() < 0.3:
            p.minimize_space()
    if p.n_node > 26:
        return
    if rng.random() < 0.3 and p.output_nodes:
        p.reorder_output_nodes([int(x) for x in rng.permutation(p.output_nodes)])
    nodes = ref.measured_nodes(p)
    res = {v: int(rng.integers(2)) for v in nodes}
    psi = np.full(2 ** len(p.input_nodes), 2 ** (-len(p.input_nodes) / 2), dtype=complex)
    want = ref.pattern_kraus(p, res) @ psi
    prep = gen.pick(rng, (None, "auto", "sequential", "parallel") if p.is_standard() else (None, "sequential"))
    desc = {"pattern": mon.cmds_key(p), "outcomes": res, "graph_prep": prep}
    mm = DefaultMeasureMethod()
    st = p.simulate(gen.pick(rng, ("tensornetwork", "mps")), graph_prep=prep, branch_selector=FixedBranchSelector(dict(res)), measure_method=mm)
    ctx.count("tn_runs")
    ctx.distinct("tn_preps", prep)
    ctx.check({k: int(v) for k, v in mm.results.items()} == res, "recorded", f"recorded {mm.results}", **desc)
    if p.output_nodes:
        same_state(ctx, st, want, "tensornetwork", desc)
    if not p.is_standard():
        try:
            p.simulate("tensornetwork", graph_prep="parallel", branch_selector=ConstBranchSelector(0))
        except ValueError:
            ctx.count("refusals")
        else:
            ctx.fail("parallel-nonstandard", "parallel preparation accepts a non-standard pattern", **desc)
    if len(res) >= 2:
        ctx.nontrivial((desc["pattern"], res, prep))


def resume(ctx, rng, i):
    """Running B on the backend that ran A is running A followed by B."""
    a = gen.raw_pattern(rng, int(rng.integers(2, 5)), int(rng.integers(0, 3)), max_live=4, n_outputs=int(rng.integers(1, 3)))
    b = gen.raw_pattern(rng, int(rng.integers(2, 5)), len(a.output_nodes), max_live=4)
    if len(b.input_nodes) != len(a.output_nodes):
        return
    # B on fresh labels, except its inputs: the outputs of A in a random order
    shuffled = [int(x) for x in rng.permutation(a.output_nodes)]
    used = {v for c in a for v in ((c.nodes if c.kind.name == "E" else (c.node,)) if c.kind.name != "T" else ())} | set(a.input_nodes)
    fresh = itertools.count(max(used, default=0) + 1)
    m = dict(zip(b.input_nodes, shuffled))
    for c in b:
        if c.kind.name == "N":
            m[c.node] = next(fresh)

    def ren(c):
        k = c.kind.name
        dom = lambda s: {m[v] for v in s}  # noqa: E731
        if k == "N":
            return command.N(m[c.node], state=c.state)
        if k == "E":
            return command.E((m[c.nodes[0]], m[c.nodes[1]]))
        if k == "M":
            return command.M(m[c.node], c.measurement, s_domain=dom(c.s_domain), t_domain=dom(c.t_domain))
        if k == "C":
            return command.C(m[c.node], c.clifford)
        if k == "T":
            return c
        return type(c)(m[c.node], dom(c.domain))

    b2 = Pattern(input_nodes=shuffled, cmds=[ren(c) for c in b])
    b2.reorder_output_nodes([m[v] for v in b.output_nodes])
    psi = gen.states_for(rng, len(a.input_nodes))
    ra, va = mon.feasible_results(a, rng, psi)
    if ra is None:
        return
    t = va.reshape((2,) * len(a.output_nodes))
    vb_in = np.transpose(t, [list(a.output_nodes).index(v) for v in shuffled]).reshape(-1) if shuffled else va
    rb, vb = mon.feasible_results(b2, rng, vb_in / np.linalg.norm(vb_in))
    if rb is None:
        return
    desc = {"A": mon.cmds_key(a), "B": mon.cmds_key(b2), "outcomes": {**ra, **rb}}
    for cls in (StatevectorBackend, DensityMatrixBackend):
        be = cls(branch_selector=FixedBranchSelector({**ra, **rb}))
        mm = DefaultMeasureMethod()
        a.simulate(be, input_state=psi, measure_method=mm)
        same_state(ctx, be.state, va, "resume-first", desc)
        # an explicit input on a backend that holds qubits is refused, and so is a wrong number of prepared qubits
        for bad in (lambda: b2.simulate(be), lambda: Pattern(input_nodes=[0, 1, 2, 3, 4]).simulate(be, input_state=None)):
            if be.nqubit == 0:
                break
            try:
                bad()
            except ValueError:
                ctx.count("refusals")
                continue
            ctx.fail("backend-not-empty", "simulation accepted a backend with the wrong qubits", **desc)
        b2.simulate(be, input_state=None, measure_method=mm)
        ctx.check({k: int(v) for k, v in mm.results.items()} == {**ra, **rb}, "recorded", f"recorded {mm.results}", **desc)
        st = be.state
        want = vb
        if list(b2.output_nodes) or not a.output_nodes:
            same_state(ctx, st, want, "resumed", desc)
        ctx.count("resumed")


class LogPrepare(PrepareMethod):
    def __init__(self, log):
        self.log, self.inner = log, DefaultPrepareMethod()

    def prepare(self, backend, cmd, rng=None):
        self.log.append(("N", cmd.node))
        self.inner.prepare(backend, cmd, rng)


class LogMeasure(MeasureMethod):
    """A delegated measurement: the client hides outcomes with random flips of its own."""

    def __init__(self, log, pad):
        self.log, self.pad, self.results = log, pad, {}

    def describe_measurement(self, cmd):
        self.log.append(("M", cmd.node))
        m = cmd.measurement
        from graphix.clifford import Clifford

        if self.check_domain(cmd.s_domain):
            m = m.clifford(Clifford.X)
        if self.check_domain(cmd.t_domain):
            m = m.clifford(Clifford.Z)
        if self.pad.get(cmd.node):  # an orthogonal Pauli flips the outcome
            flip = {"XY": Clifford.Z, "YZ": Clifford.X, "XZ": Clifford.Y}[m.to_bloch().plane.name]
            m = m.to_bloch().clifford(flip)
        return m

    def measurement_outcome(self, node):
        return self.results[node]

    def store_measurement_outcome(self, node, result):
        self.log.append(("store", node))
        self.results[node] = result ^ self.pad.get(node, 0)


def methods(ctx, rng, i):
    """User-defined prepare and measure methods are asked exactly once per command, in order, and obeyed."""
    p = gen.raw_pattern(rng, int(rng.integers(2, 7)), int(rng.integers(0, 3)), max_live=4)
    psi = gen.states_for(rng, len(p.input_nodes))
    res, want = mon.feasible_results(p, rng, psi)
    if res is None:
        return
    pad = {v: int(rng.integers(2)) for v in res}
    log = []
    mm = LogMeasure(log, pad)
    kind = gen.pick(rng, ("statevector", "densitymatrix"))
    sim = PatternSimulator(p, kind, prepare_method=LogPrepare(log), measure_method=mm, branch_selector=FixedBranchSelector({v: res[v] ^ pad[v] for v in res}))
    sim.run(input_state=psi)
    desc = {"pattern": mon.cmds_key(p), "outcomes": res, "pad": pad}
    ctx.check(sim.measure_method is mm and sim.pattern is p, "methods", "simulator does not expose its methods", **desc)
    expected = []
    for c in p:
        if c.kind.name == "N":
            expected.append(("N", c.node))
        elif c.kind.name == "M":
            expected += [("M", c.node), ("store", c.node)]
    ctx.count("logged_commands", len(log))
    ctx.check(log == expected, "exactly-once", f"calls {log} instead of {expected}", **desc)
    ctx.check({k: int(v) for k, v in mm.results.items()} == res, "recorded", f"recorded {mm.results}", **desc)
    same_state(ctx, sim.backend.state, want, "delegated", desc)
    # results given to the default method are read, copied and not modified
    if res:
        given = {10**6: 1}
        d = DefaultMeasureMethod(given)
        p.simulate(input_state=psi, branch_selector=FixedBranchSelector(dict(res)), measure_method=d)
        ctx.check(given == {10**6: 1} and {k: int(v) for k, v in d.results.items()} == {**given, **res}, "results-copied", f"given {given}, results {d.results}", **desc)


def refusals(ctx, rng, i):
    p = gen.raw_pattern(rng, 4, 2, max_live=4, n_outputs=2)
    n = len(p.input_nodes)
    bs = ConstBranchSelector(0)
    v = gen.states_for(rng, n + 1)
    nm = DepolarisingNoiseModel()
    cases = {
        "unknown-backend": lambda: p.simulate("qasm"),
        "noise-sv": lambda: p.simulate("statevector", noise_model=nm),
        "noise-tn": lambda: p.simulate("tensornetwork", noise_model=nm),
        "symbolic-sv": lambda: p.simulate("statevector", symbolic=True),
        "symbolic-tn": lambda: p.simulate("tensornetwork", symbolic=True),
        "prep-sv": lambda: p.simulate("statevector", graph_prep="parallel"),
        "prep-dm": lambda: p.simulate("densitymatrix", graph_prep="auto"),
        "prep-unknown": lambda: p.simulate("tensornetwork", graph_prep="magic"),
        "own-selector": lambda: p.simulate(StatevectorBackend(), branch_selector=bs),
        "own-prep": lambda: p.simulate(DensityMatrixBackend(), graph_prep="auto"),
        "own-symbolic": lambda: p.simulate(DensityMatrixBackend(), symbolic=True),
        "none-sv": lambda: p.simulate(input_state=None),
        "none-dm": lambda: p.simulate("densitymatrix", input_state=None),
        "too-many-qubits": lambda: p.simulate(gen.pick(rng, ("statevector", "densitymatrix")), input_state=v, branch_selector=bs),
        "too-many-states": lambda: p.simulate(gen.pick(rng, ("statevector", "densitymatrix")), input_state=[BasicStates.PLUS] * (n + 1), branch_selector=bs),
        "too-few-states": lambda: p.simulate(gen.pick(rng, ("statevector", "densitymatrix")), input_state=[BasicStates.PLUS] * (n - 1), branch_selector=bs),
        "not-normalised": lambda: p.simulate(input_state=1.5 * gen.states_for(rng, n), branch_selector=bs),
        "unassigned": lambda: p.simulate(branch_selector=FixedBranchSelector({})),
        "signal": lambda: Pattern(input_nodes=[0], cmds=[command.S(0, set())]).simulate(),
        "tn-input": lambda: p.simulate("tensornetwork", input_state=BasicStates.ZERO),
        "not-runnable": lambda: Pattern(input_nodes=[0], cmds=[command.X(0, {7})]).simulate(),
    }
    if not ref.measured_nodes(p):
        cases.pop("unassigned")
    for name, f in cases.items():
        try:
            f()
        except (ValueError, NotImplementedError) as e:
            ctx.check(isinstance(e, ValueError) or name == "tn-input", "refusal-kind", f"{name}: {e!r}")
            ctx.count("refusals")
            continue
        except Exception as e:  # noqa: BLE001
            from graphix.pattern import RunnabilityError

            if name in ("not-runnable", "signal") and isinstance(e, RunnabilityError):
                ctx.count("refusals")
                continue
            raise
        ctx.fail(f"accepted-{name}", f"{name} accepted", pattern=mon.cmds_key(p))

FAMILIES = [
    Family("agree", agree, 2200, 80000),
    Family("tensor", tensor, 330, 6000),
    Family("resume", resume, 700, 20000),
    Family("methods", methods, 1200, 30000),
    Family("refusals", refusals, 220, 3000),
]
