"""Warnings: issued exactly when due, once, at the line of the user, and harmless when turned into errors."""

import re
import threading
import warnings

import numpy as np

import gen
import mon
import ref
import workload
from core import Family, Skip
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.flow.exceptions import FlowError
from graphix.measurements import BlochMeasurement, PauliMeasurement
from graphix.noise_models import AmplitudeDampingNoiseModel, DepolarisingNoiseModel
from graphix.noise_models.noise_model import ComposeNoiseModel, NoiselessNoiseModel
from graphix.opengraph import OpenGraphError
from graphix.optimization import StandardizedPattern
from graphix import random_objects as ro
from graphix.pattern import DrawPatternAnnotations, Pattern, PatternError
from graphix.remove_pauli_measurements import PauliPushingCut, remove_pauli_measurements
from graphix.rng import ensure_rng
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.sim.tensornet import TensorNetworkBackend
from graphix.simulator import PatternSimulator
from graphix.visualization import GraphVisualizer

warnings.resetwarnings()
warnings.simplefilter("ignore")

ID = "P38"
RULE = (
    "Every operation that can warn is called on random patterns, open graphs and circuits, directly and with every stack level from the end of a chain of wrapper functions, while all warnings are recorded. "
    "Oracle: the condition of each warning computed independently (Pauli angles that are not inferred, nodes that cannot be left, measurements lost, Cliffords before entanglements, outputs that cannot be kept in place, "
    "no noise, default generator used, deprecated strategy); each is reported exactly once per operation and at the line that the stack level names, and nothing else is reported. Noise models and branch selectors of the user, called with a stack level, must be able to report at the same line. "
    "With warnings turned into errors the operation is interrupted: all objects must be as before and the operation repeated must give what it gives on a fresh copy. Whole programs are run with everything recorded: only these warnings may appear. "
    "Non-trivial: a call that warned; distinct = operation, stack level and object."
)
ASSUMPTIONS = ["the default-generator warning may be repeated within one operation (once per draw)", "warnings raised by other libraries at their own lines are theirs"]
FLOORS = {"calls": 6000, "warned": 2500, "silent": 1200, "deep": 1500, "interrupted": 500, "user_models": 300, "programs": 100, "drawn": 600}
WARM = ()

NON_INFERRED = "non-inferred Pauli"
LEAVE = "leave_nodes"
LOST = "isolated node was removed"
CLIFF = "contains Clifford commands"
PRESERVE = "preserve_mapping"
NOISELESS = "densitymatrix backend with no noise"
DEFAULT = "Default random-number generator"
DEPRECATED = "deprecated"
NO_FLOW = "not consistent with a flow"
MINE = "user model"
KNOWN = (NON_INFERRED, LEAVE, LOST, CLIFF, PRESERVE, NOISELESS, DEFAULT, DEPRECATED, NO_FLOW, MINE)


def one(f):
    return f()


def two(f):
    return one(f)


def three(f):
    return two(f)


CHAIN = [(__file__, g.__code__.co_firstlineno + 1) for g in (one, two, three)]


def observe(f, sl):
    """Call f(stacklevel) at the end of the chain: (result or exception, recorded warnings, the line they must name)."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        out = three(lambda: f(sl))
    own = [w for w in ws if any(k in str(w.message) for k in KNOWN) or "/graphix/" in w.filename or w.filename == __file__]
    return out, own


def place(f, sl):
    """Where f(stacklevel) reports: its own line for 1, then the lambda of `observe`, then the chain."""
    return [(__file__, f.__code__.co_firstlineno), (__file__, LAMBDA), *CHAIN][sl - 1]


LAMBDA = observe.__code__.co_firstlineno + 4


def judge(ctx, name, ws, want, where, **desc):
    """`want`: {text: exact count, or None for at least one}."""
    ctx.count("calls")
    ctx.count("warned" if ws else "silent")
    if where in CHAIN and ws:
        ctx.count("deep")
    seen = {}
    for w in ws:
        k = next((k for k in KNOWN if k in str(w.message)), str(w.message))
        seen[k] = seen.get(k, 0) + 1
        ctx.check((w.filename, w.lineno) == where, "warning-line", f"{name}: {str(w.message)[:60]!r} reported at {w.filename}:{w.lineno}, expected line {where[1]} of the caller", **desc)
    for k in {*seen, *want}:
        n = want.get(k, 0)
        ok = seen.get(k, 0) >= 1 if n is None else seen.get(k, 0) == n
        ctx.check(ok, "warning-count", f"{name}: {k!r} reported {seen.get(k, 0)} times, expected {'some' if n is None else n}", **desc)
    if ws:
        ctx.nontrivial(f"{name} {where} {desc!r}")


def hidden(ms):
    return any(isinstance(m, BlochMeasurement) and m.to_pauli_or_none() is not None for m in ms)


def rand_pattern(rng, hi=7, **kw):
    n = int(rng.integers(1, hi))
    kw.setdefault("pauli", float(rng.choice([0.0, 0.3, 0.8])))
    return gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), **kw)


def meas(p):
    return [c.measurement for c in p if c.kind.name == "M"]


def pushing(rng, p):
    """(name, call, expected warnings)"""
    std = StandardizedPattern.from_pattern(p)
    want = {NON_INFERRED: 1} if hidden(meas(p)) else {}
    leave = None
    plain = [c.node for c in std.m_list if not isinstance(c.measurement, PauliMeasurement)]
    if rng.random() < 0.5:
        leave = gen.subset(rng, [c.node for c in std.m_list], 0.4) or None
    name = gen.pick(rng, ("cut", "std", "pattern", "remove", "cut+remove"))
    if leave and name in ("cut", "std", "pattern") and any(v in leave for v in plain):
        want = {**want, LEAVE: 1}
    if name == "cut":
        return name, (lambda s: PauliPushingCut.from_standardizedpattern(std, leave, stacklevel=s)), want
    if name == "std":
        return name, (lambda s: std.perform_pauli_pushing(leave, stacklevel=s)), want
    if name == "pattern":
        c = bool(rng.integers(2))
        z = bool(rng.integers(2))
        q = p.copy()
        return name, (lambda s: q.perform_pauli_pushing(leave_nodes=leave, copy=c, standardize=z, stacklevel=s)), want
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cut = PauliPushingCut.from_standardizedpattern(std)
        done = remove_pauli_measurements(cut)
    lost = len(plain) - sum(not isinstance(c.measurement, PauliMeasurement) for c in done.m_list)
    if name == "remove":
        q = p.copy()
        return name, (lambda s: q.remove_pauli_measurements(copy=False, stacklevel=s)), {**want, **({LOST: lost} if lost else {})}
    return name, (lambda s: remove_pauli_measurements(cut, stacklevel=s)), {LOST: lost} if lost else {}


def push(ctx, rng, i):
    p = rand_pattern(rng, edges=float(rng.choice([0.3, 1.3])), pauli_obj=float(rng.choice([0.3, 0.8])))
    name, f, want = pushing(rng, p)
    sl = int(rng.integers(1, 6))
    _, ws = observe(f, sl)
    judge(ctx, name, ws, want, place(f, sl), pattern=repr(p))


def graph_call(rng, og):
    warns = {NON_INFERRED: 1} if hidden(og.measurements.values()) else {}

    def quiet(g):
        try:
            return g()
        except (OpenGraphError, FlowError, TypeError, ValueError, NotImplementedError):
            return None

    name = gen.pick(rng, ("to_pauliflow", "to_pauliflow_or_none", "to_pattern", "to_circuit", "gflow", "roundtrip"))
    if name == "to_pauliflow":
        return name, (lambda s: quiet(lambda: og.to_pauliflow(stacklevel=s + 2))), warns
    if name == "to_pauliflow_or_none":
        return name, (lambda s: og.to_pauliflow_or_none(stacklevel=s)), warns
    if name == "to_pattern":
        try:
            causal = og.downcast_bloch().to_causalflow_or_none() is not None
        except TypeError:
            causal = False
        return name, (lambda s: quiet(lambda: og.to_pattern(stacklevel=s + 2))), {} if causal else warns
    if name == "to_circuit":
        return name, (lambda s: quiet(lambda: og.to_circuit(stacklevel=s + 2))), warns
    bloch = og.to_bloch()
    if name == "gflow":
        def circuit():
            fl = bloch.to_gflow_or_none()
            return None if fl is None else fl.extract_circuit().to_circuit()

        return name, (lambda s: quiet(circuit)), {}

    def trip():
        fl = bloch.to_causalflow_or_none() or bloch.to_gflow_or_none()
        if fl is not None:
            p = fl.to_xzcorrections().to_pattern()
            x = p.to_xzcorrections()
            return x.to_pauliflow(), x.to_pattern(), p.to_opengraph(), p.to_pauliflow()
        return None

    return name, (lambda s: quiet(trip)), {}


def opengraphs(ctx, rng, i):
    r = i % 3
    if r == 0:
        n = int(rng.integers(1, 7))
        og = gen.random_opengraph(rng, n, int(rng.integers(0, min(n, 2) + 1)), int(rng.integers(0, min(n, 3) + 1)), pauli_obj=float(rng.choice([0, 0.4])), pauli=float(rng.choice([0.1, 0.6])))
    else:
        found = gen.pauliflow_opengraph(rng, 2, 7, kind="pauli" if r == 1 else "gflow")
        if found is None:
            raise Skip("no flow")
        og = found[0]
    name, f, want = graph_call(rng, og)
    sl = int(rng.integers(1, 5))
    _, ws = observe(f, sl)
    judge(ctx, name, ws, want, place(f, sl), og=mon.og_key(og))


def compose(ctx, rng, i):
    p1 = rand_pattern(rng, 6, standardizable=bool(rng.integers(2)), cliffords=float(rng.choice([0.0, 0.2])))
    p2 = rand_pattern(rng, 6, standardizable=bool(rng.integers(2)), cliffords=float(rng.choice([0.0, 0.2])))
    outs, ins = p1.output_nodes, p2.input_nodes
    k = int(rng.integers(0, min(len(outs), len(ins)) + 1))
    mapping = {int(a): int(b) for a, b in zip(rng.permutation(ins)[:k], rng.permutation(outs)[:k])} if k else {}
    keep = bool(rng.integers(2))
    want = {}
    if any(c.kind.name == "C" for c in p1) and any(c.kind.name == "E" for c in p2):
        want[CLIFF] = 1
    if keep and not k == len(ins) == len(p2.output_nodes):
        want[PRESERVE] = 1
    f = lambda s: p1.compose(p2, mapping, keep)  # noqa: E731
    _, ws = observe(f, 1)
    judge(ctx, "compose", ws, want, place(f, 1), p1=repr(p1), p2=repr(p2), mapping=mapping, keep=keep)


class Model(NoiselessNoiseModel):
    """A noise model of the user that reports every call."""

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):
        warnings.warn("user model: inputs", stacklevel=stacklevel + 1)
        return super().input_nodes(nodes, rng, stacklevel=stacklevel + 1)

    def command(self, cmd, rng=None, *, stacklevel=1):
        warnings.warn("user model: command", stacklevel=stacklevel + 1)
        return super().command(cmd, rng, stacklevel=stacklevel + 1)

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
        warnings.warn("user model: result", stacklevel=stacklevel + 1)
        return super().confuse_result(cmd, result, rng, stacklevel=stacklevel + 1)


class Selector(BranchSelector):
    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        warnings.warn("user model: outcome", stacklevel=stacklevel + 1)
        return RandomBranchSelector().measure(qubit, f_expectation0, np.random.default_rng(0))


def simulation(rng, ctx):
    """(name, call, expected, object)"""
    given = bool(rng.integers(2))
    g = lambda: np.random.default_rng(5) if given else None  # noqa: E731
    name = gen.pick(rng, ("statevector", "densitymatrix", "densitymatrix", "noise", "backend", "simulator", "simulator", "circuit", "tensornetwork", "deprecated", "model", "model", "selector", "confuse", "ensure"))
    draws = None if not given else 0
    if name == "circuit":
        c = gen.circuit(rng, 2, 4, measure=0.3)
        m = any(x.kind.name == "M" for x in c.instruction)
        return name, (lambda s: c.simulate(rng=g(), stacklevel=s)), {DEFAULT: draws} if m and not given else {}, c
    if name == "ensure":
        return name, (lambda s: ensure_rng(g(), stacklevel=s)), {} if given else {DEFAULT: 1}, None
    if name == "confuse":
        nm = gen.pick(rng, (DepolarisingNoiseModel(measure_error_prob=0.5), AmplitudeDampingNoiseModel(measure_error_prob=0.5)))
        nm = nm if rng.integers(2) else ComposeNoiseModel([NoiselessNoiseModel(), nm])
        from graphix.command import M

        cmd = M(0, BlochMeasurement(0.3, gen.PLANES[0]))
        return name, (lambda s: nm.confuse_result(cmd, 0, rng=g(), stacklevel=s)), {} if given else {DEFAULT: 1}, None
    if name in ("tensornetwork", "deprecated"):
        p = gen.circuit(rng, 1, 3, ccx=0.0).transpile().pattern
        p.standardize()
        m = bool(ref.measured_nodes(p))
        if name == "deprecated":
            if rng.integers(2):
                return name, (lambda s: TensorNetworkBackend(p, graph_prep="opt", stacklevel=s)), {DEPRECATED: 1}, p
            return name, (lambda s: p.simulate("tensornetwork", graph_prep="opt", rng=g(), stacklevel=s)), {DEPRECATED: 1, **({DEFAULT: None} if m and not given else {})}, p
        return name, (lambda s: p.simulate("tensornetwork", rng=g(), stacklevel=s)), {DEFAULT: None} if m and not given else {}, p
    p = rand_pattern(rng, 5)
    m = bool(ref.measured_nodes(p))
    rnd = {DEFAULT: None} if m and not given else {}
    if name == "statevector":
        r = int(rng.integers(3))
        if r == 0:
            return name, (lambda s: p.simulate(rng=g(), stacklevel=s)), rnd, p
        if r == 1:
            return name, (lambda s: p.simulate(branch_selector=FixedBranchSelector({}, RandomBranchSelector()), rng=g(), stacklevel=s)), rnd, p
        return name, (lambda s: p.simulate(backend=StatevectorBackend(branch_selector=RandomBranchSelector(pr_calc=True)), rng=g(), stacklevel=s)), rnd, p
    if name == "densitymatrix":
        return name, (lambda s: p.simulate("densitymatrix", rng=g(), stacklevel=s)), {**rnd, NOISELESS: 1}, p
    if name == "noise":
        nm = gen.pick(rng, (DepolarisingNoiseModel(entanglement_error_prob=0.1), NoiselessNoiseModel(), AmplitudeDampingNoiseModel(prepare_error_prob=0.2)))
        return name, (lambda s: p.simulate("densitymatrix", noise_model=nm, rng=g(), stacklevel=s)), rnd, p
    if name == "backend":
        return name, (lambda s: p.simulate(DensityMatrixBackend(), rng=g(), stacklevel=s)), rnd, p
    if name == "simulator":
        if rng.integers(2):
            dm = bool(rng.integers(2))
            return "PatternSimulator", (lambda s: PatternSimulator(p, "densitymatrix" if dm else "statevector", stacklevel=s)), {NOISELESS: 1} if dm else {}, p
        sim = PatternSimulator(p)
        return "run", (lambda s: sim.run(rng=g(), stacklevel=s)), rnd, None
    if name == "model":
        ctx.count("user_models")
        nm = Model() if rng.integers(2) else ComposeNoiseModel([Model(), NoiselessNoiseModel()])
        n = 1 + len(list(p)) + len(ref.measured_nodes(p))
        return name, (lambda s: p.simulate("densitymatrix", noise_model=nm, rng=g(), stacklevel=s)), {**rnd, MINE: n}, p
    ctx.count("user_models")
    sel = Selector() if rng.integers(2) else FixedBranchSelector({}, Selector())
    dm = bool(rng.integers(2))
    nm = NoiselessNoiseModel() if dm else None
    return name, (lambda s: p.simulate("densitymatrix" if dm else "statevector", noise_model=nm, branch_selector=sel, stacklevel=s)), {MINE: len(ref.measured_nodes(p))} if m else {}, p


def simulate(ctx, rng, i):
    name, f, want, obj = simulation(rng, ctx)
    sl = int(rng.integers(1, 6))
    _, ws = observe(f, sl)
    if name == "circuit":
        want = {k: None for k in want}
    judge(ctx, name, ws, want, place(f, sl), obj=repr(obj))
    for w in ws:
        if DEPRECATED in str(w.message):
            ctx.check(re.search(r"'opt'.*'parallel'", str(w.message)), "warning-text", f"{w.message}")


def snapshot(o):
    return mon.og_key(o) if hasattr(o, "graph") else (mon.cmds_key(o), o.n_node)


def randoms(ctx, rng, i):
    """Random objects without generator, in the main thread or another one."""
    calls = {
        "rand_herm": lambda s, g: ro.rand_herm(2, g, stacklevel=s),
        "rand_unit": lambda s, g: ro.rand_unit(1 + i % 2, g, stacklevel=s),
        "rand_dm": lambda s, g: ro.rand_dm(2, g, stacklevel=s),
        "rand_gauss_cpx_mat": lambda s, g: ro.rand_gauss_cpx_mat(2, g, stacklevel=s),
        "rand_channel_kraus": lambda s, g: ro.rand_channel_kraus(2, g, stacklevel=s),
        "rand_pauli_channel_kraus": lambda s, g: ro.rand_pauli_channel_kraus(2, g, stacklevel=s),
        "rand_gate": lambda s, g: ro.rand_gate(2, 1, [(0, 1)], rng=g, stacklevel=s),
        "rand_circuit": lambda s, g: ro.rand_circuit(2, 2, g, stacklevel=s),
        "rand_state_vector": lambda s, g: ro.rand_state_vector(2, g, stacklevel=s),
    }
    name = gen.pick(rng, sorted(calls))
    g = np.random.default_rng(1) if rng.integers(2) else None
    call = calls[name]
    f = lambda s: call(s + 1, g)  # noqa: E731
    sl = int(rng.integers(1, 6))
    out = []
    if rng.random() < 0.3:
        t = threading.Thread(target=lambda: out.append(observe(f, sl)))
        t.start()
        t.join()
    else:
        out.append(observe(f, sl))
    ctx.check(out, "default-failed", f"{name} failed in a thread")
    if out:
        judge(ctx, name, out[0][1], {} if g is not None else {DEFAULT: None}, place(f, sl))


def draws(ctx, rng, i):
    """Drawing a pattern tells when its own flow cannot be used."""
    p = rand_pattern(rng) if i % 2 else gen.circuit(rng, 2, 5).transpile().pattern
    from_pattern = bool(rng.integers(2))
    ann = gen.pick(rng, (None, DrawPatternAnnotations.XZCorrections, *[DrawPatternAnnotations.Flow] * 4))
    want = {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        xz, og = p.to_xzcorrections(), p.to_opengraph()
        has = lambda g: not isinstance(outcome(g), str)  # noqa: E731
        if ann is DrawPatternAnnotations.Flow:
            own = from_pattern and (has(lambda: xz.downcast_bloch().to_causalflow()) or has(lambda: xz.to_pauliflow()))
            if from_pattern and not own:
                want[NO_FLOW] = 1
            if not own and not has(lambda: og.downcast_bloch().to_causalflow()) and hidden(og.measurements.values()):
                want[NON_INFERRED] = 1

    def quiet(g):
        try:
            return g()
        except PatternError:
            return None

    f = lambda s: quiet(lambda: p.draw(annotations=ann, flow_from_pattern=from_pattern, stacklevel=s + 2))  # noqa: E731
    sl = int(rng.integers(1, 6))
    real = GraphVisualizer.visualize
    GraphVisualizer.visualize = lambda self: None  # the figure itself is the business of P33
    try:
        _, ws = observe(f, sl)
    finally:
        GraphVisualizer.visualize = real
    ctx.count("drawn")
    judge(ctx, "draw", ws, want, place(f, sl), pattern=repr(p))


def outcome(f):
    try:
        return f()
    except (OpenGraphError, FlowError, TypeError, ValueError) as e:
        return f"{type(e).__name__}: {e}"


def interrupted(ctx, rng, i):
    """Turned into an error, a warning interrupts the operation before anything has changed."""
    kind = i % 3
    if kind == 0:
        p = rand_pattern(rng, edges=float(rng.choice([0.3, 1.3])), pauli_obj=float(rng.choice([0.3, 0.8])))
        c, z = bool(rng.integers(2)), bool(rng.integers(2))
        leave = gen.subset(rng, ref.measured_nodes(p), 0.4) or None
        f = gen.pick(rng, (
            lambda q: q.perform_pauli_pushing(leave_nodes=leave, copy=c, standardize=z),
            lambda q: q.remove_pauli_measurements(copy=c, standardize=z),
        ))
        objs = [p]
    elif kind == 1:
        n = int(rng.integers(1, 6))
        og = gen.random_opengraph(rng, n, 0, int(rng.integers(0, n + 1)), pauli=0.7)
        f = gen.pick(rng, (lambda o: o.to_pauliflow_or_none(), lambda o: o.to_pattern()))
        objs = [og]
    else:
        p1, p2 = (rand_pattern(rng, 5, standardizable=False, cliffords=0.3) for _ in range(2))
        f = lambda q: q.compose(p2, {}, True)  # noqa: E731
        objs = [p1, p2]
    x = objs[0]
    before = [snapshot(o) for o in objs]
    fresh = x.copy() if hasattr(x, "copy") else x
    with warnings.catch_warnings():
        warnings.simplefilter("error")
        try:
            f(x)
        except UserWarning:
            ctx.count("interrupted")
            ctx.nontrivial(f"interrupted {kind} {x!r}")
        except (OpenGraphError, FlowError, TypeError, ValueError):
            raise Skip("refused before warning") from None
        else:
            raise Skip("no warning")
    ctx.check([snapshot(o) for o in objs] == before, "interrupted-changed", f"an operation interrupted by a warning changed its arguments: {x!r}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = outcome(lambda: f(x)), outcome(lambda: f(fresh))
    key = lambda r: mon.cmds_key(r) if isinstance(r, Pattern) else str(r)  # noqa: E731
    ctx.check(key(a) == key(b), "interrupted-differs", f"after an interruption the operation gives {a!r} instead of {b!r}")


def programs(ctx, rng, i):
    """Whole programs: nothing is reported but the documented warnings, and never inside the library."""
    j = int(rng.integers(10**6))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        for _ in workload.scenario(j):
            pass
    ctx.count("programs")
    for w in ws:
        if "/graphix/" not in w.filename and "/verif/" not in w.filename and w.filename != workload.__file__:
            continue
        ctx.check(any(k in str(w.message) for k in KNOWN), "unexpected-warning", f"scenario {j}: {w.category.__name__} at {w.filename}:{w.lineno}: {w.message}")
        ctx.check("/graphix/" not in w.filename or "/verif/" in w.filename, "warning-inside", f"scenario {j}: reported inside the library at {w.filename}:{w.lineno}: {w.message}")
    if ws:
        ctx.nontrivial(f"program {j}")


FAMILIES = [
    Family("push", push, 3000, 30000),
    Family("opengraphs", opengraphs, 2400, 24000),
    Family("compose", compose, 1500, 15000),
    Family("simulate", simulate, 2400, 24000),
    Family("randoms", randoms, 900, 9000),
    Family("draws", draws, 900, 9000),
    Family("interrupted", interrupted, 1500, 15000),
    Family("programs", programs, 150, 2000),
]
