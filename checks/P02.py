"""Circuits with measurements: joint outcome/state behaviour survives transpilation and rewriting."""

import itertools

import numpy as np

import gen
import mon
import ref
from core import Family
from graphix.branch_selector import FixedBranchSelector
from graphix.fundamentals import Axis
from graphix.optimization import StandardizedPattern
from graphix.remove_pauli_measurements import PauliPushingCut
from graphix.transpiler import Circuit, OutputKind, transpile_swaps

ID = "P02"
RULE = (
    "Random circuits with 1-4 mid-circuit X/Y/Z measurements interleaved with gates and SWAPs (measured in any qubit "
    "order, possibly all qubits). Oracle: for each joint assignment of gate-ordered outcomes and sampled auxiliary "
    "branches the pattern's reference map is the circuit's own branch map with weight 2^-m/2, and classical_outputs / classical_measures "
    "list outcomes in gate order. Non-trivial: at least one measurement followed or preceded by a gate; distinct = instruction list."
)
ASSUMPTIONS = ["reference circuit interpreter removes measured wires and keeps the order of the others", "auxiliary branches sampled (<= 4 per outcome assignment)"]
FLOORS = {"branches_compared": 500, "circuit_simulations": 100, "pattern_simulations": 60, "swapped_circuits": 50, "out_of_order_measurements": 30}
WARM = "all"


def measurements(c):
    return [g for g in c.instruction if g.kind.name == "M"]


def check_transpile(ctx, rng, c, limit=4):
    ms = measurements(c)
    for swaps in (True, False):
        tp = c.transpile(transpile_swaps=swaps)
        p, co = tp.pattern, list(tp.classical_outputs)
        ctx.check(len(co) == len(ms) and len(set(co)) == len(ms), "classical-outputs-count", "one node per measurement", circuit=gen.describe(c), classical_outputs=co)
        ctx.check(len(p.output_nodes) == c.width - len(ms), "arity", "wrong number of quantum outputs", circuit=gen.describe(c))
        aux = [v for v in ref.measured_nodes(p) if v not in co]
        ctx.check(set(co) <= set(ref.measured_nodes(p)), "classical-outputs-measured", "classical output never measured", classical_outputs=co)
        for bits in itertools.product((0, 1), repeat=len(ms)):
            kc, _ = ref.circuit_kraus(c.instruction, c.width, bits)
            mon.implements(
                ctx, p, kc, rng, limit=limit, nodes=aux, fixed=dict(zip(co, bits)),
                mech="measured-circuit-semantics", what=f"{gen.describe(c)} transpile_swaps={swaps} outcomes={bits}",
            )  # fmt: skip
    return tp


def meas_circuits(ctx, rng, i):
    w = int(rng.integers(1, 5)) if rng.random() < 0.9 else int(rng.integers(5, 8))
    c = gen.circuit(rng, w, int(rng.integers(2, 12 + w)), measure=0.25, ccx=0.03)
    if not measurements(c) or rng.random() < 0.3:
        for q in rng.permutation(sorted(c.active_qubits))[: int(rng.integers(1, 3))]:
            if len(measurements(c)) < 4:
                c.m(int(q), gen.pick(rng, gen.AXES))
    ms = measurements(c)
    if len(ms) > 4:
        return
    order = [m.target for m in ms]
    if order != sorted(order):
        ctx.count("out_of_order_measurements")
    if any(g.kind.name == "SWAP" for g in c.instruction):
        ctx.count("swapped_circuits")
    if len(c.instruction) > len(ms):
        ctx.nontrivial(repr(c))
    ctx.sample(gen.describe(c))
    tp = check_transpile(ctx, rng, c)
    # the real circuit simulator, forced on a feasible branch
    psi = gen.states_for(rng, w)
    for _ in range(6):
        bits = [int(b) for b in rng.integers(0, 2, len(ms))]
        kc, live = ref.circuit_kraus(c.instruction, w, bits)
        out = kc @ psi
        if np.linalg.norm(out) > 1e-3:
            break
    else:
        return
    for backend in ("statevector", "densitymatrix"):
        r = c.simulate(backend, input_state=psi, branch_selector=FixedBranchSelector({m.target: b for m, b in zip(ms, bits)}))
        ctx.count("circuit_simulations")
        ctx.check(list(r.classical_measures) == bits, "circuit-classical-measures", "classical_measures are not the outcomes in gate order", circuit=gen.describe(c), got=r.classical_measures, forced=bits)
        st = r.state.flatten() if backend == "statevector" else r.state.rho
        want = out / np.linalg.norm(out)
        if backend == "statevector":
            d = ref.ray_dist(st, want)
        else:
            d = float(np.linalg.norm(st - np.outer(want, want.conj())))
        ctx.check(d < ref.TOL, f"circuit-simulate-{backend}", f"post-measurement state differs ({d:.3g})", circuit=gen.describe(c), outcomes=bits)
    # and the pattern simulator with the same classical outcomes
    p, co = tp.pattern, list(tp.classical_outputs)
    res = {v: int(rng.integers(2)) for v in ref.measured_nodes(p)}
    res.update(zip(co, bits))
    st, recorded = mon.simulate_forced(p, res, psi)
    ctx.count("pattern_simulations")
    ctx.check([recorded[v] for v in co] == bits, "pattern-recorded-outcomes", "recorded outcomes differ from the forced ones", circuit=gen.describe(c))
    d = ref.ray_dist(st.flatten(), out)
    ctx.check(d < ref.TOL, "pattern-simulate", f"pattern output state differs for these outcomes ({d:.3g})", circuit=gen.describe(c), outcomes=bits)


def rewrites(ctx, rng, i):
    """transpile_measurements_to_z_axis, transpile_swaps, transpile_j_to_rzh keep every branch."""
    w = int(rng.integers(1, 5))
    c = gen.circuit(rng, w, int(rng.integers(2, 14)), measure=0.2)
    ms = measurements(c)
    if len(ms) > 4:
        return
    z = c.transpile_measurements_to_z_axis()
    j = c.transpile_j_to_rzh()
    before = repr(c)
    sw = transpile_swaps(c, copy=True)
    ctx.check(repr(c) == before, "transpile-swaps-copy", "transpile_swaps(copy=True) changed the circuit")
    ctx.check(all(g.axis == Axis.Z for g in measurements(z)), "z-axis-form", "measurement left on another axis")
    ctx.check(not any(g.kind.name == "SWAP" for g in sw.circuit.instruction), "swap-left", "SWAP gate left")
    ctx.check(len(sw.outputs) == w, "swap-outputs", "outputs has the wrong width")
    ctx.nontrivial(before)
    for bits in itertools.product((0, 1), repeat=len(ms)):
        kc, live = ref.circuit_kraus(c.instruction, w, bits)
        for name, d in (("z_axis", z), ("j_to_rzh", j)):
            kd, live2 = ref.circuit_kraus(d.instruction, w, bits)
            ctx.count("branches_compared")
            ctx.check(live == live2 and ref.phase_dist(kc, kd) < ref.TOL, f"rewrite-{name}", "rewritten circuit differs", circuit=gen.describe(c), after=gen.describe(d), outcomes=bits)
        ks, live_s = ref.circuit_kraus(sw.circuit.instruction, w, bits)
        # original wire q is wire outputs[q].index of the swapped circuit, or measurement outputs[q].index
        t = ks.reshape((2,) * len(live_s) + (2**w,))
        want = [o.index for q, o in enumerate(sw.outputs) if o.kind == OutputKind.Qubit]
        ctx.check([q for q, o in enumerate(sw.outputs) if o.kind == OutputKind.Qubit] == live and sorted(want) == sorted(live_s), "swap-outputs", "outputs do not name the unmeasured wires", circuit=gen.describe(c), outputs=sw.outputs)
        t = np.transpose(t, [live_s.index(x) for x in want] + [len(live_s)])
        ctx.check(ref.phase_dist(kc, t.reshape(kc.shape)) < ref.TOL, "rewrite-swaps", "swap-free circuit differs", circuit=gen.describe(c), after=gen.describe(sw.circuit), outputs=sw.outputs)
        midx = {m.target: k for k, m in enumerate(ms)}
        for q, o in enumerate(sw.outputs):
            if o.kind == OutputKind.Bit:
                ctx.check(midx.get(q) == o.index, "swap-bit-index", "measurement index of a measured wire is wrong", circuit=gen.describe(c), outputs=sw.outputs)
    # the in-place form gives the same thing
    d = Circuit(w, instr=[g.visit(_IDENT, copy=True) for g in c.instruction])
    r2 = transpile_swaps(d, copy=False)
    ctx.check(repr(r2.circuit.instruction) == repr(sw.circuit.instruction) and r2.outputs == sw.outputs and r2.circuit is d, "transpile-swaps-inplace", "in-place and copying forms disagree", circuit=before)
    # (active_qubits is public state of the circuit: further gates may be appended)
    ctx.count("swap_rewrites")


def pipeline(ctx, rng, i):
    """Classical outputs keep their meaning through standardisation, signal shifting, space minimisation."""
    from graphix.pattern import shift_outcomes

    w = int(rng.integers(1, 4))
    c = gen.circuit(rng, w, int(rng.integers(2, 8)), measure=0.25, ccx=0.0)
    ms = measurements(c)
    if not ms or len(ms) > 3:
        return
    tp = c.transpile()
    p, co = tp.pattern, list(tp.classical_outputs)
    ctx.nontrivial(repr(c))
    q = p.copy()
    q.standardize()
    sig, push = {}, {}
    if rng.random() < 0.6:
        sig = q.shift_signals()
    if rng.random() < 0.5:
        # Pushing re-labels the outcomes it shifts: keep the classical outputs out of it, or read them
        # back through the cut's shifted domains (both are documented).
        q.infer_pauli_measurements()
        if not sig and rng.random() < 0.5:
            q.perform_pauli_pushing(leave_nodes=set(co))
        else:
            cut = PauliPushingCut.from_standardizedpattern(StandardizedPattern.from_pattern(q))
            push = cut.shifted_domains
            q = cut.to_standardizedpattern().to_pattern()
    if rng.random() < 0.7:
        q.minimize_space()
    nodes = ref.measured_nodes(q)
    for res in ref.branches(nodes, rng, 16):
        # shift_outcomes: outcomes measured by the shifted pattern -> outcomes of the original
        orig = shift_outcomes(res, push) if push else res
        orig = shift_outcomes(orig, sig) if sig else orig
        bits = [orig[v] for v in co]
        kc, _ = ref.circuit_kraus(c.instruction, w, bits)
        kq = mon.ref_kraus(q, res, "pipeline")
        aux = len(nodes) - len(co)
        ctx.count("branches_compared")
        ctx.check(ref.phase_dist(kq, kc * 2 ** (-aux / 2)) < ref.TOL, "classical-pipeline", "classical outcomes lost their meaning", circuit=gen.describe(c), outcomes=res, signals=sig)


from graphix.instruction import InstructionVisitor  # noqa: E402

_IDENT = InstructionVisitor()

FAMILIES = [
    Family("meas_circuits", meas_circuits, 700, 16000),
    Family("rewrites", rewrites, 500, 12000),
    Family("pipeline", pipeline, 300, 8000),
]
