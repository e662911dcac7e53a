"""Circuit -> pattern: every branch of the transpiled pattern is the circuit, for every input."""

import itertools

import numpy as np

import gen
import mon
import ref
from core import Family
from graphix.clifford import Clifford  # noqa: F401
from graphix.transpiler import Circuit

ID = "P01"
RULE = (
    "Random circuits (width 1-5, up to 14 gates over the whole gate set, Pauli / Clifford+T / generic / negative / "
    "large angles), every single gate and every ordered pair of gates, each transpiled with and without SWAP "
    "elimination and after the documented optimisation pipeline. A case is non-trivial when the pattern has at least one measurement; "
    "distinct = distinct instruction lists. Oracle: in every sampled outcome branch the reference map of the "
    "emitted commands equals the product of textbook gate matrices up to phase with weight 2^-m/2."
)
ASSUMPTIONS = [
    "reference interpreter (vlib/ref.py) follows the measurement-calculus definitions",
    "branches beyond 12 per pattern are sampled",
    "the statevector is compared up to a global phase, tolerance 1e-6",
]
FLOORS = {"branches_compared": 500, "simulations_compared": 50, "pipelines_compared": 50}
WARM = "all"


def unitary(c):
    return ref.circuit_kraus(c.instruction, c.width, [])[0]


def _check(ctx, rng, c, limit=10, simulate=True, pipeline=True):
    u = unitary(c)
    before = repr(c)
    for swaps in (True, False):
        tp = c.transpile(transpile_swaps=swaps)
        p = tp.pattern
        ctx.check(len(p.input_nodes) == c.width and len(p.output_nodes) == c.width, "arity", "wrong number of inputs/outputs", circuit=gen.describe(c))
        ctx.check(len(tp.classical_outputs) == 0, "classical-outputs", "classical outputs without measurement")
        mon.implements(ctx, p, u, rng, limit=limit, mech="transpile-semantics", what=f"{gen.describe(c)} transpile_swaps={swaps}")
        if ref.measured_nodes(p):
            ctx.nontrivial(before)
    ctx.check(repr(c) == before, "transpile-mutates-circuit", "transpile changed the circuit")
    f = c.transpile_to_causalflow()
    f.flow.check_well_formed()
    ctx.count("flows_wellformed")
    if simulate:
        psi = gen.states_for(rng, c.width)
        st = p.simulate(input_state=psi, rng=rng)
        d = ref.ray_dist(st.flatten(), u @ psi)
        ctx.count("simulations_compared")
        ctx.check(d < ref.TOL, "simulate-semantics", f"pattern simulation differs from the circuit ({d:.3g})", circuit=gen.describe(c))
        cs = c.simulate(input_state=psi).state.flatten()
        d = ref.ray_dist(cs, u @ psi)
        ctx.check(d < ref.TOL, "circuit-simulate", f"Circuit.simulate differs from the gate matrices ({d:.3g})", circuit=gen.describe(c))
    if pipeline:
        q = c.transpile().pattern
        steps = []
        order = ["standardize", "shift", "infer", "push", "remove", "localclifford", "minspace"]
        if rng.random() < 0.5:
            order = [s for s in order if rng.random() < 0.7]
        for s in order:
            steps.append(s)
            if s == "standardize":
                q.standardize()
            elif s == "shift":
                if not q.is_standard():
                    q.standardize()
                q.shift_signals(method=gen.pick(rng, ("direct", "mc")))
            elif s == "infer":
                q.infer_pauli_measurements()
            elif s == "push":
                q.perform_pauli_pushing()
            elif s == "remove":
                q.remove_pauli_measurements()
            elif s == "localclifford":
                q.remove_local_clifford_commands()
            elif s == "minspace":
                q.minimize_space()
        mon.implements(ctx, q, u, rng, limit=6, mech="pipeline-semantics", what=f"{gen.describe(c)} after {steps}")
        ctx.count("pipelines_compared")


def random_circuits(ctx, rng, i):
    w = int(rng.integers(1, 5))
    c = gen.circuit(rng, w, int(rng.integers(0, 15)), pauli=gen.pick(rng, (0.1, 0.4, 0.9)))
    ctx.distinct("gate_kinds", tuple(sorted({g.kind.name for g in c.instruction})))
    ctx.sample(gen.describe(c))
    _check(ctx, rng, c)


def larger(ctx, rng, i):
    w = int(rng.integers(4, 8))
    c = gen.circuit(rng, w, int(rng.integers(12, 30)), pauli=gen.pick(rng, (0.1, 0.5, 0.9)), ccx=0.03)
    _check(ctx, rng, c, limit=3)


_A1 = (0.0, 0.25, 0.5, 1.0, 1.5, -0.5, 2.0, 0.3)
_GATES1 = [(g,) for g in ("h", "s", "x", "y", "z", "i")] + [(g, a) for g in ("rx", "ry", "rz", "j") for a in _A1]
_GATES2 = [("cnot",), ("cz",), ("swap",), ("rzz", 0.3), ("rzz", 1.0), ("rzz", -0.5)]
_OPS = (
    [(g[0], (q,), g[1:]) for g in _GATES1 for q in range(3)]
    + [(g[0], qs, g[1:]) for g in _GATES2 for qs in itertools.permutations(range(3), 2)]
    + [("ccx", qs, ()) for qs in itertools.permutations(range(3))]
)


def _apply(c, op):
    getattr(c, op[0])(*op[1], *op[2])


def single_gates(ctx, rng, i):
    c = Circuit(3)
    _apply(c, _OPS[i % len(_OPS)])
    _check(ctx, rng, c, limit=16, pipeline=False)
    ctx.count("gates_enumerated")


def gate_pairs(ctx, rng, i):
    c = Circuit(3)
    for _ in range(2):
        _apply(c, _OPS[int(rng.integers(len(_OPS)))])
    _check(ctx, rng, c, limit=6, simulate=False)


def preset_instructions(ctx, rng, i):
    """Circuits built through the constructor / add / extend are the same circuits."""
    w = int(rng.integers(1, 4))
    c = gen.circuit(rng, w, int(rng.integers(1, 9)))
    d = Circuit(w, instr=list(c.instruction))
    e = Circuit(w)
    e.extend(c.instruction)
    for x in (d, e):
        ctx.check(repr(x) == repr(c), "circuit-constructor", "constructor/extend changed the instructions", a=c, b=x)
    u = unitary(c)
    mon.implements(ctx, d.transpile().pattern, u, rng, limit=4, mech="transpile-semantics", what=gen.describe(d))
    f = c.transpile_j_to_rzh()
    ctx.check(ref.phase_dist(unitary(f), u) < ref.TOL, "transpile_j_to_rzh", "J elimination changed the unitary", circuit=gen.describe(c))
    ctx.check(all(g.kind.name != "J" for g in f.instruction), "transpile_j_to_rzh", "J gate left")
    np.testing.assert_allclose(np.abs(np.linalg.det(u)), 1)


FAMILIES = [
    Family("single_gates", single_gates, len(_OPS), len(_OPS), exhaustive=True),
    Family("gate_pairs", gate_pairs, 700, 9000),
    Family("random_circuits", random_circuits, 700, 9000),
    Family("larger", larger, 60, 1500),
    Family("preset_instructions", preset_instructions, 150, 2000),
]
