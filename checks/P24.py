"""Outcomes follow the Born rule, obey the branch selector, and are reproducible from the seed."""

import sys
import threading
import warnings
from contextlib import contextmanager

import numpy as np

import gen
import mon
import ref
from core import Family
from graphix import command
from graphix.branch_selector import BranchSelector, ConstBranchSelector, FixedBranchSelector, RandomBranchSelector
from graphix.measurements import BlochMeasurement
from graphix.noise_models import AmplitudeDampingNoiseModel, DepolarisingNoiseModel
from graphix.noise_models.noise_model import ComposeNoiseModel
from graphix.pattern import Pattern
from graphix.rng import ensure_rng
from graphix.sim.density_matrix import DensityMatrixBackend
from graphix.sim.statevec import StatevectorBackend
from graphix.states import BasicStates
from graphix.simulator import DefaultMeasureMethod, PatternSimulator
from P21 import plausible

ID = "P24"
RULE = (
    "Random patterns, circuits with measurements and single-qubit backends. A monitor placed in the branch selector records which qubit is asked about, how often, in which order and with which announced probability (compared with the reference); random selectors are run hundreds of times with one seeded generator and their joint outcome frequencies compared with the Born rule; with a generator given, a tripwire watches for any other source of randomness. "
    "Non-trivial: a pattern or circuit whose joint outcome distribution is not uniform, or a reproduced run with >= 3 random outcomes; distinct = (program, input)."
)
ASSUMPTIONS = [
    "statistical monitors reject deviations whose probability is below 1e-11 (Chernoff bound)",
    "the tensor network announces 1/2 for every non-isolated node (documented limitation), so it is only compared on patterns with flow",
]
FLOORS = {"announced": 6000, "sampled_runs": 30000, "selector_draws": 600000, "rare_runs": 25, "reproduced": 900, "default_rng_warnings": 500, "seeds_differ": 20}
WARM = "all"


class Watch(BranchSelector):
    """Records every question of the simulator and answers with a feasible outcome."""

    def __init__(self, rng):
        self.rng, self.seen = rng, []

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        p0 = f_expectation0()
        r = int(p0 < 0.999 and (p0 < 0.001 or self.rng.random() < 0.5))
        self.seen.append((qubit, float(p0), r))
        return r


def judge_watch(ctx, seen, order, conditional, desc):
    """`conditional(prefix)` gives the two unnormalised probabilities of the next outcome."""
    ctx.check([q for q, _, _ in seen] == order, "asked-once-in-order", f"asked about {[q for q, _, _ in seen]} instead of {order}", **desc)
    for k, (q, p0, _) in enumerate(seen):
        a, b = conditional([r for _, _, r in seen[:k]])
        ctx.count("announced")
        ctx.check(abs(p0 - a / (a + b)) < 1e-6, "announced-probability", f"probability of outcome 0 of {q} announced as {p0}, is {a / (a + b)}", **desc)


def joint(kraus_of, m, psi):
    """Probabilities of all joint outcomes, as an array with one axis per measurement."""
    p = np.zeros((2,) * m)
    for bits in np.ndindex(*p.shape):
        p[bits] = np.linalg.norm(kraus_of(bits) @ psi) ** 2
    return p


def announced(ctx, rng, i):
    """The selector is asked exactly once per measurement, in order, with the right probability."""
    r = rng.random()
    if r < 0.4:
        p = gen.raw_pattern(rng, int(rng.integers(2, 7)), int(rng.integers(0, 3)), states=0.4, max_live=4)
        nodes = [c.node for c in p if c.kind.name == "M"]
        if len(nodes) > 6:
            return
        psi = gen.states_for(rng, len(p.input_nodes))
        pr = joint(lambda b: ref.pattern_kraus(p, dict(zip(nodes, b))), len(nodes), psi)
        desc = {"pattern": mon.cmds_key(p)}
        for kind in ("statevector", "densitymatrix"):
            w = Watch(rng)
            mm = DefaultMeasureMethod()
            p.simulate(kind, input_state=psi, branch_selector=w, measure_method=mm)
            judge_watch(ctx, w.seen, nodes, lambda pre: tuple(pr[(*pre, b)].sum() for b in (0, 1)), {**desc, "backend": kind})
            ctx.check({k: int(v) for k, v in mm.results.items()} == {q: r for q, _, r in w.seen}, "answer-recorded", f"{mm.results} recorded for {w.seen}", **desc)
    elif r < 0.75:
        c = gen.circuit(rng, int(rng.integers(1, 5)), int(rng.integers(1, 10)), measure=0.3)
        ms = [g.target for g in c.instruction if g.kind.name == "M"]
        psi = gen.states_for(rng, c.width)
        pr = joint(lambda b: ref.circuit_kraus(c.instruction, c.width, b)[0], len(ms), psi)
        for kind in ("statevector", "densitymatrix"):
            w = Watch(rng)
            res = c.simulate(kind, input_state=psi, branch_selector=w)
            judge_watch(ctx, w.seen, ms, lambda pre: tuple(pr[(*pre, b)].sum() for b in (0, 1)), {"circuit": gen.describe(c)})
            ctx.check([int(x) for x in res.classical_measures] == [r for _, _, r in w.seen], "answer-recorded", f"{res.classical_measures} recorded for {w.seen}", circuit=gen.describe(c))
    else:
        # the tensor network: uniform for nodes with neighbours, exact for isolated ones
        if rng.random() < 0.5:
            p = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)), ccx=0.0).transpile().pattern
        else:
            found = gen.pauliflow_opengraph(rng, 3, 7)
            if found is None:
                return
            p = found[0].to_pattern()
        w = Watch(rng)
        p.simulate("tensornetwork", branch_selector=w)
        judge_watch(ctx, w.seen, [c.node for c in p if c.kind.name == "M"], lambda pre: (0.5, 0.5), {"pattern": mon.cmds_key(p)})
        iso = Pattern(cmds=[command.N(0), command.C(0, gen.pick(rng, list(gen.Clifford))), command.M(0, gen.measurement(rng))])
        k0, k1 = (float(np.linalg.norm(ref.pattern_kraus(iso, {0: b})) ** 2) for b in (0, 1))
        w = Watch(rng)
        iso.simulate("tensornetwork", branch_selector=w)
        judge_watch(ctx, w.seen, [0], lambda pre: (k0, k1), {"pattern": mon.cmds_key(iso)})


RUNS = 200


def compare(ctx, counts, probs, desc):
    n = sum(counts.values())
    for bits in np.ndindex(*probs.shape):
        k, q = counts.get(bits, 0), float(probs[bits])
        q = 0.0 if q < 1e-12 else min(q, 1.0)
        ctx.check(plausible(k, n, q) if q > 1e-9 else k == 0, "frequency", f"outcomes {bits} seen {k} times in {n} runs; probability {q:.4f}", **desc)
    for ax in range(probs.ndim):
        q = float(probs.sum(axis=tuple(a for a in range(probs.ndim) if a != ax))[1])
        k = sum(v for b, v in counts.items() if b[ax])
        ctx.check(plausible(k, n, min(max(q, 0.0), 1.0)) if 1e-9 < q < 1 - 1e-9 else True, "marginal", f"outcome {ax} is 1 in {k} of {n} runs; probability {q:.4f}", **desc)


def statistics(ctx, rng, i):
    g = np.random.default_rng(int(rng.integers(2**62)))
    counts = {}
    r = rng.random()
    sel = gen.pick(rng, (None, lambda: RandomBranchSelector(), lambda: FixedBranchSelector({}, RandomBranchSelector(pr_calc=True))))
    kind = gen.pick(rng, ("statevector", "statevector", "densitymatrix"))
    if r < 0.6:
        p = gen.raw_pattern(rng, int(rng.integers(2, 5)), int(rng.integers(0, 2)), states=0.4, max_live=3)
        nodes = [c.node for c in p if c.kind.name == "M"]
        if not 1 <= len(nodes) <= 3:
            return
        psi = gen.states_for(rng, len(p.input_nodes))
        probs = joint(lambda b: ref.pattern_kraus(p, dict(zip(nodes, b))), len(nodes), psi)
        desc = {"pattern": mon.cmds_key(p)}
        for _ in range(RUNS):
            mm = DefaultMeasureMethod()
            p.simulate(kind, input_state=psi, rng=g, measure_method=mm, branch_selector=sel() if sel else None)
            b = tuple(int(mm.results[v]) for v in nodes)
            counts[b] = counts.get(b, 0) + 1
            ctx.count("sampled_runs")
    elif r < 0.9:
        c = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(2, 8)), measure=0.3)
        m = sum(x.kind.name == "M" for x in c.instruction)
        if not m:
            return
        psi = gen.states_for(rng, c.width)
        probs = joint(lambda b: ref.circuit_kraus(c.instruction, c.width, b)[0], m, psi)
        desc = {"circuit": gen.describe(c)}
        for _ in range(RUNS):
            b = tuple(int(x) for x in c.simulate(kind, input_state=psi, rng=g, branch_selector=sel() if sel else None).classical_measures)
            counts[b] = counts.get(b, 0) + 1
            ctx.count("sampled_runs")
    else:
        # uniform branches: patterns with flow, also with pr_calc=False and on the tensor network
        found = gen.pauliflow_opengraph(rng, 3, 6)
        if found is None:
            return
        p = found[0].to_pattern()
        nodes = [c.node for c in p if c.kind.name == "M"]
        if len(nodes) > 4:
            return
        kind = gen.pick(rng, ("statevector", "densitymatrix", "tensornetwork"))
        sel = gen.pick(rng, (lambda: RandomBranchSelector(pr_calc=False), lambda: RandomBranchSelector()))
        desc = {"pattern": mon.cmds_key(p), "backend": kind}
        probs = np.full((2,) * len(nodes), 0.5 ** len(nodes))
        for _ in range(100):
            mm = DefaultMeasureMethod()
            p.simulate(kind, rng=g, measure_method=mm, branch_selector=sel())
            b = tuple(int(mm.results[v]) for v in nodes)
            counts[b] = counts.get(b, 0) + 1
            ctx.count("sampled_runs")
    compare(ctx, counts, probs, desc)
    ctx.distinct("joint_outcomes", (desc, sorted(counts)))
    if probs.max() - probs.min() > 1e-6:
        ctx.nontrivial(desc)
    ctx.sample({**desc, "counts": counts})


def selectors(ctx, rng, i):
    """Branch selectors alone."""
    g = np.random.default_rng(int(rng.integers(2**62)))
    asked = []
    p0 = gen.pick(rng, (0.0, 1.0, 0.5, float(rng.random()), float(rng.random()), 1e-3, 0.999))

    def f():
        asked.append(1)
        return p0

    n = 2000
    s = RandomBranchSelector()
    out = [s.measure(3, f, g) for _ in range(n)]
    ctx.count("selector_draws", n)
    ctx.check(set(map(int, out)) <= {0, 1} and all(o in (0, 1) for o in out), "outcome-values", f"{set(out)}")
    ctx.check(plausible(sum(out), n, 1 - p0), "random-selector", f"{sum(out)} ones of {n} for p0={p0}")
    ctx.check(len(asked) == n, "asked", f"probability asked {len(asked)} times in {n} draws")
    pairs = sum(a != b for a, b in zip(out, out[1:], strict=False))
    ctx.check(plausible(sum(a != b for a, b in zip(out[::2], out[1::2], strict=False)), n // 2, 2 * p0 * (1 - p0)), "independent", f"{pairs} alternations")
    asked.clear()
    s = RandomBranchSelector(pr_calc=False)
    out = [s.measure(3, f, g) for _ in range(n)]
    ctx.count("selector_draws", n)
    ctx.check(not asked, "lazy", "the probability is computed although pr_calc is False")
    ctx.check(plausible(int(sum(out)), n, 0.5) and set(map(int, out)) <= {0, 1}, "uniform-selector", f"{sum(out)} ones of {n}")
    b = int(rng.integers(2))
    ctx.check([ConstBranchSelector(b).measure(int(q), f, None) for q in rng.integers(0, 50, 5)] == [b] * 5 and not asked, "const-selector", "")
    results = {int(q): int(rng.integers(2)) for q in rng.integers(0, 12, 5)}
    copy = dict(results)
    for default in (None, ConstBranchSelector(1 - b), RandomBranchSelector(), RandomBranchSelector(False), FixedBranchSelector({13: 1, 12: 0})):
        fs = FixedBranchSelector(results, default) if default is not None or rng.random() < 0.5 else FixedBranchSelector(results)
        for q in range(14):
            asked.clear()
            g1, g2 = np.random.default_rng(i), np.random.default_rng(i)
            try:
                got = fs.measure(q, f, g1)
            except ValueError:
                got = "refused"
            if q in copy:
                want, na = copy[q], 0
            elif default is None:
                want, na = "refused", 0
            else:
                asked_so_far = len(asked)
                try:
                    want = default.measure(q, f, g2)
                except ValueError:
                    want = "refused"
                na = len(asked) - asked_so_far
                ctx.check(asked_so_far == na, "default-asked", f"{asked_so_far} questions instead of {na}")
            ctx.check(got == want, "fixed-selector", f"qubit {q}: {got} instead of {want}", results=copy, default=default)
            ctx.check(repr(g1.bit_generator.state) == repr(g2.bit_generator.state), "default-generator", "the default selector does not use the generator given", default=default)
            ctx.count("selector_draws")
    ctx.check(results == copy, "results-modified", f"{results}")
    # one qubit, straight on the backend, also for state/measurement pairs with certain outcomes
    st = gen.planar_state(rng) if rng.random() < 0.6 else gen.pick(rng, gen.BASIC)
    m = gen.measurement(rng)
    q1 = float(abs(np.vdot(ref.meas_vec(m, 1), ref.state_vec(st))) ** 2)
    for cls in (StatevectorBackend, DensityMatrixBackend):
        k = 0
        for _ in range(150):
            be = cls()
            be.add_nodes([0], st)
            k += int(be.measure(0, m, rng=g))
        ctx.count("sampled_runs", 150)
        q = 0.0 if q1 < 1e-12 else 1.0 if q1 > 1 - 1e-12 else q1
        ctx.check(plausible(k, 150, q), "frequency", f"{k} ones of 150; probability {q}", state=st, measurement=m)


def rare(ctx, rng, i):
    """Rare outcomes do occur, with their small probability, and certain ones always."""
    g = np.random.default_rng(int(rng.integers(2**62)))
    eps = gen.pick(rng, (0.0, 1e-13, 1e-3, 2e-3, 4e-3, 8e-3, 0.015, 0.03, 0.06, 0.12, float(rng.uniform(0.001, 0.2))))
    p0 = 1 - eps if rng.random() < 0.5 else eps
    n = 20000 if eps > 1.5e-3 or eps < 1e-6 else 60000
    sel = gen.pick(rng, (RandomBranchSelector(), RandomBranchSelector(pr_calc=True), FixedBranchSelector({5: 1}, RandomBranchSelector())))
    k = sum(int(sel.measure(3, lambda: p0, g)) for _ in range(n))
    ctx.count("selector_draws", n)
    ctx.count("rare_runs")
    ctx.check(plausible(k, n, 1 - p0) if 1e-9 < p0 < 1 - 1e-9 else k in (0, n) and (k == n) == (p0 < 0.5), "rare-selector", f"{k} ones of {n} for p0={p0}")
    # the same on the backends: a measurement close to the state prepared
    t = float(rng.uniform(0.06, 0.12))
    q1 = float(np.sin(t * np.pi / 2) ** 2)
    plane = gen.pick(rng, gen.PLANES)
    st = {"XY": BasicStates.PLUS, "XZ": BasicStates.ZERO, "YZ": BasicStates.ZERO}[plane.name]
    m = BlochMeasurement(t if rng.random() < 0.5 else -t, plane)
    q1 = float(abs(np.vdot(ref.meas_vec(m, 1), ref.state_vec(st))) ** 2)
    cls = StatevectorBackend if i % 3 else DensityMatrixBackend
    k, n = 0, 3000 if i % 3 else 1500
    for _ in range(n):
        be = cls(branch_selector=sel)
        be.add_nodes([0], st)
        k += int(be.measure(0, m, rng=g))
    ctx.count("sampled_runs", n)
    ctx.check(plausible(k, n, q1), "rare-outcome", f"{k} ones of {n}; probability {q1}", state=st, measurement=m, backend=cls.__name__)


@contextmanager
def tripwire(ctx, desc):
    """No randomness except that of the generator the user gave."""
    seen = []
    orig = np.random.default_rng

    def fake(*a, **k):
        fr = sys._getframe(1)
        if "/graphix/" in fr.f_code.co_filename:
            seen.append((fr.f_code.co_filename, fr.f_lineno))
        return orig(*a, **k)

    legacy = repr(np.random.get_state())
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        np.random.default_rng = fake
        try:
            yield
        finally:
            np.random.default_rng = orig
    ctx.check(not seen, "other-generator", f"new generators at {seen}", **desc)
    bad = [x for x in w if "Default random-number generator" in str(x.message)]
    ctx.check(not bad, "default-generator-used", f"default generator used although one was given: {[(x.filename, x.lineno) for x in bad]}", **desc)
    ctx.check(repr(np.random.get_state()) == legacy, "legacy-generator", "global numpy generator used", **desc)


def models(rng):
    mk = lambda: gen.pick(  # noqa: E731
        rng,
        (
            DepolarisingNoiseModel(measure_error_prob=0.5, x_error_prob=0.3),
            AmplitudeDampingNoiseModel(measure_error_prob=0.5, prepare_error_prob=0.2),
        ),
    )
    return mk() if rng.random() < 0.5 else ComposeNoiseModel([mk(), mk()])


def runnable(rng):
    """A description and a function of a generator whose result must only depend on the generator."""
    r = int(rng.integers(6))
    if r <= 2:
        p = gen.raw_pattern(rng, int(rng.integers(3, 8)) if rng.random() < 0.8 else int(rng.integers(8, 16)), int(rng.integers(0, 3)), max_live=4)
        psi = gen.states_for(rng, len(p.input_nodes))
        nm = models(rng) if r == 1 else None
        kind = "statevector" if r == 2 else "densitymatrix"
        sel = gen.pick(rng, (None, RandomBranchSelector(), FixedBranchSelector({}, RandomBranchSelector())))

        def run(g):
            mm = DefaultMeasureMethod()
            if rng_driver:
                be = (StatevectorBackend if kind == "statevector" else DensityMatrixBackend)(branch_selector=sel or RandomBranchSelector())
                s = PatternSimulator(p, be, measure_method=mm, noise_model=nm)
                s.run(psi, g)
                st = be.state
            else:
                st = p.simulate(kind, input_state=psi, rng=g, measure_method=mm, noise_model=nm, branch_selector=sel)
            return {k: int(v) for k, v in mm.results.items()}, np.array(st.psi if kind == "statevector" else st.rho)

        rng_driver = rng.random() < 0.4
        return {"pattern": mon.cmds_key(p), "backend": kind, "noise": repr(nm)}, run
    if r == 3:
        c = gen.circuit(rng, int(rng.integers(1, 5)), int(rng.integers(2, 12)), measure=0.3)
        kind = gen.pick(rng, ("statevector", "densitymatrix"))

        def run(g):
            res = c.simulate(kind, rng=g)
            return tuple(res.classical_measures), np.array(res.state.psi if kind == "statevector" else res.state.rho)

        return {"circuit": gen.describe(c), "backend": kind}, run
    p = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(2, 5)), ccx=0.0).transpile().pattern
    if r == 4:

        def run(g):
            mm = DefaultMeasureMethod()
            st = p.simulate("tensornetwork", rng=g, measure_method=mm)
            return {k: int(v) for k, v in mm.results.items()}, np.asarray(st.to_statevector())

        return {"pattern": mon.cmds_key(p), "backend": "tensornetwork"}, run
    if rng.random() < 0.7:
        p.standardize()
        p.shift_signals()
        p.remove_pauli_measurements()

    def run(g):
        mm = DefaultMeasureMethod()
        st = p.simulate(rng=g, measure_method=mm, branch_selector=RandomBranchSelector(pr_calc=False))
        return {k: int(v) for k, v in mm.results.items()}, np.array(st.psi)

    return {"pattern": mon.cmds_key(p), "backend": "pr_calc=False"}, run


def reproducible(ctx, rng, i):
    seed = int(rng.integers(2**62))
    desc, run = runnable(rng)
    outs = []
    for _ in range(2):
        g = np.random.default_rng(seed)
        with tripwire(ctx, desc):
            res, st = run(g)
        outs.append((res, st, repr(g.bit_generator.state)))
        # a draw in between must not matter
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ensure_rng(None).random()
    ctx.count("reproduced")
    (r1, s1, g1), (r2, s2, g2) = outs
    ctx.check(r1 == r2, "outcomes-reproducible", f"{r1} then {r2}", **desc)
    ctx.check(s1.shape == s2.shape and np.abs(s1 - s2).max(initial=0) < 1e-9, "state-reproducible", "the output state depends on something else than the seed", **desc)
    ctx.check(g1 == g2, "draws-reproducible", "the number of draws differs", **desc)
    if len(r1) >= 3:
        ctx.nontrivial((desc, seed))


def seeds(ctx, rng, i):
    """Different seeds explore different branches."""
    p = gen.circuit(rng, 3, 8, ccx=0.0, exclude=("SWAP",)).transpile().pattern
    if len(ref.measured_nodes(p)) < 3:
        return
    runs = 48 // len(ref.measured_nodes(p)) + 1
    outs = []
    for s in range(2):
        g = np.random.default_rng(int(rng.integers(2**62)))
        o = []
        for _ in range(runs):
            mm = DefaultMeasureMethod()
            p.simulate(rng=g, measure_method=mm)
            o.append(sorted((k, int(v)) for k, v in mm.results.items()))
        outs.append(o)
    ctx.count("seeds_differ")
    ctx.check(outs[0] != outs[1], "seed-ignored", "two seeds gave the same 48 outcomes", pattern=mon.cmds_key(p))


def default(ctx, rng, i):
    """Without a generator: a warning, and a per-thread generator that is kept."""
    p = gen.raw_pattern(rng, 4, 1, max_live=4)
    if not ref.measured_nodes(p):
        return
    c = gen.circuit(rng, 2, 6, measure=0.4)
    nm = models(rng)
    flow = gen.circuit(rng, 1, 3, ccx=0.0).transpile().pattern
    calls = {
        "simulate": lambda **k: p.simulate(**k),
        "simulate-dm": lambda **k: p.simulate("densitymatrix", **k),
        "simulate-fixed": lambda **k: p.simulate(branch_selector=FixedBranchSelector({}, RandomBranchSelector()), **k),
        "simulate-noise": lambda **k: p.simulate("densitymatrix", noise_model=nm, **k),
        "run": lambda **k: PatternSimulator(p).run(**k),
        "selector": lambda **k: RandomBranchSelector(gen.chance(rng, 0.5)).measure(0, lambda: 0.5, **k),
        "confuse": lambda **k: nm.confuse_result(command.M(0, BlochMeasurement(0.3, gen.PLANES[0])), 0, **k),
    }
    if any(x.kind.name == "M" for x in c.instruction):
        calls["circuit"] = lambda **k: c.simulate(**k)
    if ref.measured_nodes(flow):
        calls["tensor"] = lambda **k: flow.simulate("tensornetwork", **k)
    name = gen.pick(rng, sorted(calls))
    f = calls[name]
    for sl in (1, 2):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            f(stacklevel=sl) if sl > 1 or rng.random() < 0.5 else f()
        ws = [x for x in w if "Default random-number generator" in str(x.message)]
        ctx.count("default_rng_warnings", len(ws))
        ctx.check(ws, "no-warning", f"{name}: no warning although the default generator is used")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = ensure_rng(), ensure_rng(None)
        other = []
        t = threading.Thread(target=lambda: other.append(ensure_rng()))
        t.start()
        t.join()
    ctx.check(a is b, "default-kept", "a new default generator for every call")
    ctx.check(other and other[0] is not a, "default-per-thread", "two threads share the default generator")
    ctx.check(a.random() != other[0].random(), "default-seeded", "two default generators give the same numbers")
    g = np.random.default_rng(1)
    ctx.check(ensure_rng(g) is g, "given-generator", "another generator returned")


FAMILIES = [
    Family("announced", announced, 2200, 40000),
    Family("statistics", statistics, 400, 5000),
    Family("selectors", selectors, 120, 2500),
    Family("rare", rare, 36, 900),
    Family("reproducible", reproducible, 1000, 25000),
    Family("seeds", seeds, 50, 600),
    Family("default", default, 400, 4000),
]
