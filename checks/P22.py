"""Noisy simulation follows the noise model: state, outcome probabilities and recorded outcomes."""

import numpy as np

import gen
import ref
from core import Family
from P21 import ad1, plausible
from graphix.branch_selector import BranchSelector
from graphix.channels import KrausChannel, KrausData
from graphix.noise_models import (
    AmplitudeDampingNoiseModel,
    ApplyNoise,
    ComposeNoiseModel,
    DepolarisingNoiseModel,
    Noise,
    NoiseModel,
)
from graphix.noise_models.noise_model import NoiselessNoiseModel
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector
from graphix.simulator import DefaultMeasureMethod, PatternSimulator

ID = "P22"
RULE = (
    "Random patterns (any planes, domains, Cliffords, interleavings; also transpiled circuits) simulated with random depolarising / amplitude-damping / composed / custom noise models (conditional noise, random Kraus noise), from pure, mixed and pre-loaded inputs; a monitor in the branch selector records every outcome probability and a monitor around the model every confused outcome, and an independent density-matrix interpreter replays them. "
    "Non-trivial: >= 2 measurements, >= 1 entangling command and >= 3 noise operations with probability > 0; distinct = (pattern, model)."
)
ASSUMPTIONS = ["the position of noise is that of the NoiseModel classes: after N, E and performed corrections, before M, on input nodes unless input_state is None"]
FLOORS = {"runs": 900, "measurements": 3500, "flipped": 500, "custom": 150, "composed": 250, "mixed_inputs": 100, "preloaded": 60, "conditional_noise": 150, "rates": 20000}
WARM = "all"


class Rho:
    """Density tensor over named nodes."""

    def __init__(self, nodes, rho):
        self.nodes, self.rho = list(nodes), np.asarray(rho, dtype=complex)

    def _t(self):
        return self.rho.reshape((2,) * (2 * len(self.nodes)))

    def add(self, node, v):
        self.rho = np.kron(self.rho, np.outer(v, v.conj()))
        self.nodes.append(node)

    def krauses(self, ks, nodes):
        n = len(self.nodes)
        qs = [self.nodes.index(v) for v in nodes]
        out = 0
        for k in ks:
            t = ref.apply(k, qs, self._t())
            out = out + ref.apply(k.conj(), [q + n for q in qs], t)
        self.rho = out.reshape(2**n, 2**n)

    def project(self, node, v):
        n, q = len(self.nodes), self.nodes.index(node)
        t = np.tensordot(v.conj(), self._t(), axes=(0, q))
        t = np.tensordot(v, t, axes=(0, q + n - 1))
        self.nodes.pop(q)
        self.rho = t.reshape(2 ** (n - 1), 2 ** (n - 1))
        return float(np.trace(self.rho).real)

    def ordered(self, nodes):
        n = len(nodes)
        p = [self.nodes.index(v) for v in nodes]
        return np.transpose(self._t(), [*p, *(x + n for x in p)]).reshape(2**n, 2**n)


def depol(p, k):
    ps = [ref.I2, ref.X, ref.Y, ref.Z] if k == 1 else [np.kron(ref.PAULI[a], ref.PAULI[b]) for a in "IXYZ" for b in "IXYZ"]
    w = [1 - p] + [p / (len(ps) - 1)] * (len(ps) - 1)
    return [np.sqrt(x) * m for x, m in zip(w, ps)]


def damp(p, k):
    return ad1(p) if k == 1 else [np.kron(a, b) for a in ad1(p) for b in ad1(p)]


class Watch(BranchSelector):
    """Chooses the branch and records the probability the backend announces."""

    def __init__(self, rng, forced=None):
        self.rng, self.seen, self.forced = rng, [], forced

    def measure(self, qubit, f_expectation0, rng=None, *, stacklevel=1):
        p0 = f_expectation0()
        r = int(self.rng.random() > p0) if self.rng.random() < 0.3 else int(p0 < 0.999 and (p0 < 0.001 or self.rng.random() < 0.5))
        self.seen.append((qubit, p0, r))
        return r


class RandomNoise(Noise):
    def __init__(self, ks):
        self.ks = ks

    @property
    def nqubits(self):
        return self.ks[0].shape[0].bit_length() - 1

    def to_krauschannel(self):
        return KrausChannel([KrausData(1.0, k) for k in self.ks])


class Custom(NoiseModel):
    """A user's noise model: random channels anywhere, conditional ones included."""

    def __init__(self, ctx, rng, inputs):
        self.ctx, self.rng = ctx, rng
        self.live, self.measured = list(inputs), []
        self.produced = []
        self.start = []

    def _noise(self):
        if not self.live:
            return []
        k = 1 if len(self.live) < 2 or self.rng.random() < 0.6 else 2
        nodes = [self.live[int(x)] for x in self.rng.permutation(len(self.live))[:k]]
        r = int(self.rng.integers(1, 4))
        u = ref.haar_unitary(self.rng, r * 2**k)[:, : 2**k]
        ks = [u[j * 2**k : (j + 1) * 2**k] for j in range(r)]
        dom = None if self.rng.random() < 0.4 else gen.subset(self.rng, self.measured, 0.6)
        if dom is not None:
            self.ctx.count("conditional_noise")
        return [ApplyNoise(noise=RandomNoise(ks), nodes=nodes, domain=dom)]

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):
        self.start = self._noise() if self.rng.random() < 0.7 else []
        return self.start

    def command(self, cmd, rng=None, *, stacklevel=1):
        out = self._noise() if self.rng.random() < 0.4 else []
        out = [*out, cmd]
        if cmd.kind.name == "N":
            self.live.append(cmd.node)
        elif cmd.kind.name == "M":
            self.live.remove(cmd.node)
            self.measured.append(cmd.node)
        if self.rng.random() < 0.4:
            out += self._noise()
        self.produced += out
        return out

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
        return result ^ 1 if self.rng.random() < 0.3 else result


class Recorder(NoiseModel):
    """Wraps a model and records how it confuses outcomes."""

    def __init__(self, model):
        self.model, self.log = model, []

    def input_nodes(self, nodes, rng=None, *, stacklevel=1):
        return self.model.input_nodes(nodes, rng=rng, stacklevel=stacklevel + 1)

    def command(self, cmd, rng=None, *, stacklevel=1):
        return self.model.command(cmd, rng=rng, stacklevel=stacklevel + 1)

    def confuse_result(self, cmd, result, rng=None, *, stacklevel=1):
        out = self.model.confuse_result(cmd, result, rng=rng, stacklevel=stacklevel + 1)
        self.log.append((cmd.node, int(result), int(out)))
        return out


NAMES = ("prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob")


def random_model(rng):
    kw = {k: gen.pick(rng, (0.0, float(rng.random()), float(rng.random()), 1.0)) if rng.random() < 0.7 else float(rng.random()) * 0.2 for k in NAMES if rng.random() < 0.85}
    kind = int(rng.integers(2))
    return (DepolarisingNoiseModel, AmplitudeDampingNoiseModel)[kind](**kw), ((depol, damp)[kind], {k: kw.get(k, 0.0) for k in NAMES})


def expand(cmds, inputs, specs):
    """The command sequence with noise, from the specification of each model: (krauses, nodes, domain) or a command."""
    seq = [(f(p["prepare_error_prob"], 1), [v], None) for f, p in specs for v in inputs or ()]
    for c in cmds:
        k = c.kind.name
        post = specs[::-1]
        if k == "M":
            seq += [(f(p["measure_channel_prob"], 1), [c.node], None) for f, p in specs]
        seq.append(c)
        if k == "N":
            seq += [(f(p["prepare_error_prob"], 1), [c.node], None) for f, p in post]
        elif k == "E":
            seq += [(f(p["entanglement_error_prob"], 2), list(c.nodes), None) for f, p in post]
        elif k in ("X", "Z"):
            seq += [(f(p[f"{k.lower()}_error_prob"], 1), [c.node], c.domain) for f, p in post]
    return seq


def replay(ctx, seq, start, seen, recorded, desc):
    """Run the independent interpreter along the observed history."""
    st = Rho(*start)
    res = {}
    it = iter(seen)
    for c in seq:
        if isinstance(c, ApplyNoise):
            c = (c.noise.ks, c.nodes, c.domain)
        if isinstance(c, tuple):
            ks, nodes, dom = c
            if dom is None or sum(res[d] for d in dom) % 2:
                st.krauses(ks, nodes)
            continue
        k = c.kind.name
        if k == "N":
            st.add(c.node, ref.state_vec(c.state))
        elif k == "E":
            st.krauses([ref.CZ], c.nodes)
        elif k in ("X", "Z"):
            if sum(res[d] for d in c.domain) % 2:
                st.krauses([ref.PAULI[k]], [c.node])
        elif k == "C":
            st.krauses([ref.CLIFFORD[c.clifford.value]], [c.node])
        elif k == "M":
            o = ref.obs(c.measurement)
            if sum(res[d] for d in c.s_domain) % 2:
                o = ref.X @ o @ ref.X
            if sum(res[d] for d in c.t_domain) % 2:
                o = ref.Z @ o @ ref.Z
            node, p0, r = next(it)
            ctx.check(node == c.node, "measured-node", f"branch selector asked about {node} instead of {c.node}", **desc)
            want = Rho(st.nodes, st.rho).project(c.node, ref.eigvec(o, 0))
            ctx.count("measurements")
            ctx.check(abs(p0 - want) < 1e-6, "probability", f"P({c.node} = 0) = {p0:.9f} instead of {want:.9f}", **desc)
            w = st.project(c.node, ref.eigvec(o, r))
            if w < 1e-5:
                raise ref.TooBig("branch too unlikely")
            st.rho = st.rho / w
            ctx.check(c.node in recorded, "recorded", f"no outcome recorded for {c.node}", **desc)
            res[c.node] = int(recorded[c.node])
    ctx.check(next(it, None) is None, "measured-node", "more measurements than commands", **desc)
    return st


def pattern(rng):
    if rng.random() < 0.3:
        p = gen.circuit(rng, int(rng.integers(1, 3)), int(rng.integers(1, 4)), ccx=0.0).transpile().pattern
        if rng.random() < 0.5:
            p.standardize()
            p.shift_signals()
        p.minimize_space()
    elif rng.random() < 0.15:
        p = gen.big_pattern(rng, 8, 13, ticks=0.05, max_live=4, standardizable=rng.random() < 0.5)
    else:
        p = gen.raw_pattern(rng, int(rng.integers(2, 7)), int(rng.integers(0, 3)), max_live=4, states=0.25, ticks=0.05, standardizable=rng.random() < 0.5)
    if p.max_space() > 5:
        raise ref.TooBig("pattern too wide")
    return p


def start_state(ctx, rng, n):
    """(data for graphix, density matrix)."""
    r = rng.random()
    if r < 0.35 and n:
        g = rng.normal(size=(2**n, 2)) + 1j * rng.normal(size=(2**n, 2))
        rho = g @ g.conj().T
        rho /= np.trace(rho).real
        ctx.count("mixed_inputs")
        return (rho if rng.random() < 0.5 else DensityMatrix(rho)), rho
    v = gen.states_for(rng, n)
    return (v if rng.random() < 0.5 else Statevector(v)), np.outer(v, v.conj())


def runs(ctx, rng, i):
    p = pattern(rng)
    inputs = list(p.input_nodes)
    n_in = len(inputs)
    mode = gen.pick(rng, ("one", "one", "compose", "custom", "none"))
    specs, custom = [], None
    if mode == "one":
        model, s = random_model(rng)
        specs = [s]
    elif mode == "compose":
        pairs = [random_model(rng) for _ in range(int(rng.integers(2, 4)))]
        specs = [s for _, s in pairs]
        ms = [m for m, _ in pairs]
        model = ComposeNoiseModel(ms) if rng.random() < 0.6 else ComposeNoiseModel([NoiselessNoiseModel(), ms[0], ComposeNoiseModel(ms[1:])])
        ctx.count("composed")
    elif mode == "custom":
        model = custom = Custom(ctx, rng, inputs)
        ctx.count("custom")
    else:
        model = NoiselessNoiseModel()
    data, rho = start_state(ctx, rng, n_in)
    rec, mm, watch = Recorder(model), DefaultMeasureMethod(), Watch(rng)
    preloaded = rng.random() < 0.2
    before = repr(list(p))
    desc = {"pattern": before, "model": f"{mode} {[q for _, q in specs]}", "preloaded": preloaded}
    seed = int(rng.integers(2**31))
    if preloaded:
        ctx.count("preloaded")
        b = DensityMatrixBackend(branch_selector=watch)
        b.add_nodes(inputs, data)
        sim = PatternSimulator(p, backend=b, noise_model=rec, measure_method=mm)
        sim.run(input_state=None, rng=np.random.default_rng(seed))
        state = b.state
    else:
        state = p.simulate("densitymatrix", input_state=data, noise_model=rec, measure_method=mm, branch_selector=watch, rng=np.random.default_rng(seed))
    ctx.count("runs")
    ctx.check(repr(list(p)) == before, "pattern-modified", "simulation modified the pattern", **desc)
    # outcomes: the model saw the true outcome of every measurement, and what it returned was recorded
    ctx.check([(v, r) for v, _, r in watch.seen] == [(v, a) for v, a, _ in rec.log], "confused-outcomes", f"outcomes {watch.seen}, confused {rec.log}", **desc)
    ctx.check({v: b for v, _, b in rec.log} == {v: int(x) for v, x in mm.results.items()}, "recorded", f"recorded {mm.results}, confused {rec.log}", **desc)
    ctx.count("flipped", sum(a != b for _, a, b in rec.log))
    for _, q in specs:
        if q["measure_error_prob"] in (0.0, 1.0) and len(specs) == 1:
            ctx.check(all((a != b) == bool(q["measure_error_prob"]) for _, a, b in rec.log), "confused-outcomes", f"measure_error_prob={q['measure_error_prob']}: {rec.log}", **desc)
    if mode == "none":
        ctx.check(all(a == b for _, a, b in rec.log), "confused-outcomes", "noiseless model flips outcomes", **desc)
    if custom is not None:
        seq = ([] if preloaded else list(custom.start)) + custom.produced
    else:
        seq = expand(list(p), [] if preloaded else inputs, specs)
    st = replay(ctx, seq, (inputs, rho), watch.seen, mm.results, desc)
    want = st.ordered(list(p.output_nodes))
    got = np.asarray(state.rho)
    d = float(np.linalg.norm(got - want)) if got.shape == want.shape else np.inf
    ctx.check(d < 1e-6, "state", f"noisy state differs from the reference ({d:.3g})", outcomes=rec.log, **desc)
    kinds = [c.kind.name for c in p]
    active = sum(1 for c in seq if isinstance(c, tuple | ApplyNoise))
    if kinds.count("M") >= 2 and "E" in kinds and active >= 3:
        ctx.nontrivial((before, desc["model"], seed))
    ctx.sample(desc)


def rates(ctx, rng, i):
    """Whole simulations: recorded outcomes flip independently with probability measure_error_prob."""
    p = gen.raw_pattern(rng, 5, 1, n_outputs=1, max_live=3, domains=0.0, corrections=0.0)
    q = gen.pick(rng, (0.05, 0.5, 0.9, float(rng.random())))
    model = gen.pick(rng, (DepolarisingNoiseModel, AmplitudeDampingNoiseModel))(measure_error_prob=q)
    flips = total = both = 0
    r = np.random.default_rng(int(rng.integers(2**31)))
    nodes = ref.measured_nodes(p)
    for _ in range(60):
        mm, watch = DefaultMeasureMethod(), Watch(rng)
        p.simulate("densitymatrix", noise_model=model, measure_method=mm, branch_selector=watch, rng=r)
        f = [int(mm.results[v]) != o for v, _, o in watch.seen]
        flips += sum(f)
        total += len(f)
        both += sum(a and b for a, b in zip(f, f[1:]))
    ctx.count("rates", total)
    ctx.check(plausible(flips, total, q), "flip-rate", f"{flips} of {total} outcomes flipped with measure_error_prob={q}", pattern=repr(p))
    if len(nodes) > 1:
        ctx.check(plausible(both, total - 60, q * q) or abs(both / (total - 60) - q * q) < 0.35, "flip-independence", f"{both} consecutive flips, {q * q * (total - 60):.1f} expected")


def reuse(ctx, rng, i):
    """A noise model's own lists are not modified, so running twice means the same noise twice."""
    p = gen.raw_pattern(rng, 4, 2, n_outputs=1, max_live=4, domains=0.3)

    class Stored(NoiselessNoiseModel):
        def __init__(self):
            u = ref.haar_unitary(rng, 2)
            self.noise = [ApplyNoise(noise=RandomNoise([u]), nodes=[p.input_nodes[0]])]

        def input_nodes(self, nodes, rng=None, *, stacklevel=1):
            return self.noise

    m = Stored()
    out = []
    watch = Watch(rng)
    res = None
    for _ in range(2):
        from graphix.branch_selector import FixedBranchSelector

        mm = DefaultMeasureMethod()
        st = p.simulate("densitymatrix", noise_model=m, measure_method=mm, branch_selector=watch if res is None else FixedBranchSelector(res))
        res = dict(mm.results)
        out.append(np.array(st.rho))
        ctx.check(len(m.noise) == 1, "model-modified", f"the simulator modified a list of the noise model: {m.noise}")
    ctx.count("reused")
    ctx.check(np.linalg.norm(out[0] - out[1]) < 1e-8, "not-repeatable", "two noisy runs with the same outcomes differ", pattern=repr(p))


FAMILIES = [
    Family("runs", runs, 5000, 60000),
    Family("rates", rates, 120, 1500),
    Family("reuse", reuse, 100, 2000),
]
