"""Channels and noise elements are the documented CPTP maps, with validated parameters."""

import math

import numpy as np

import gen
import ref
from core import Family
from graphix import channels as ch
from graphix import command
from graphix.channels import KrausChannel, KrausData
from graphix.clifford import Clifford
from graphix.noise_models import (
    AmplitudeDampingNoise,
    AmplitudeDampingNoiseModel,
    ApplyNoise,
    ComposeNoiseModel,
    DepolarisingNoise,
    DepolarisingNoiseModel,
    TwoQubitAmplitudeDampingNoise,
    TwoQubitDepolarisingNoise,
)
from graphix.noise_models.noise_model import NoiselessNoiseModel
from graphix.sim.density_matrix import DensityMatrix

ID = "P21"
QUICK_SCALE = 3
RULE = (
    "Every channel constructor and noise element with probabilities over [0, 1] including the end points, their superoperators compared with the documented formulas on random states and targets; Kraus data random, valid or broken in one way; noise models asked about every kind of command. "
    "Non-trivial: a channel with a probability strictly between 0 and 1, or a valid random Kraus channel with >= 2 operators; distinct = (constructor, probabilities)."
)
ASSUMPTIONS = ["formulas are those of the docstrings of channels.py, with rho -> sum K rho K^dagger"]
FLOORS = {"channels": 3000, "endpoints": 300, "refused": 1500, "kraus_valid": 800, "kraus_broken": 1500, "model_commands": 5000, "reassigned": 300, "flips": 100000}
WARM = ()
P1 = [ref.I2, ref.X, ref.Y, ref.Z]


def prob(rng):
    r = rng.random()
    return 0.0 if r < 0.06 else 1.0 if r < 0.12 else float(rng.random()) if r < 0.9 else float(10 ** rng.uniform(-9, -2))


def twirl(rho, ps, n):
    """sum_i p_i P_i rho P_i over the n-qubit Pauli strings (first qubit most significant)."""
    out = np.zeros_like(rho)
    for i, p in ps.items():
        m = ref.kron(*(P1[k] for k in i))
        out += p * m @ rho @ m.conj().T
    return out


def ad1(p):
    return [np.diag([1, math.sqrt(1 - p)]).astype(complex), np.array([[0, math.sqrt(p)], [0, 0]], dtype=complex)]


def spec(name, p):
    """The documented action rho -> E(rho) of each channel."""
    if name == "dephasing":
        return 1, lambda r: twirl(r, {(0,): 1 - p, (3,): p}, 1)
    if name == "depolarising":
        return 1, lambda r: (1 - 4 * p / 3) * r + 4 * p / 3 * np.trace(r) * np.eye(2) / 2
    if name == "pauli":
        return 1, lambda r: twirl(r, {(0,): 1 - sum(p), (1,): p[0], (2,): p[1], (3,): p[2]}, 1)
    if name == "two_qubit_depolarising":
        return 2, lambda r: (1 - 16 * p / 15) * r + 16 * p / 15 * np.trace(r) * np.eye(4) / 4
    if name == "two_qubit_depolarising_tensor":
        w = [1 - p, p / 3, p / 3, p / 3]
        return 2, lambda r: twirl(r, {(a, b): w[a] * w[b] for a in range(4) for b in range(4)}, 2)
    ks = ad1(p)
    if name == "amplitude_damping":
        return 1, lambda r: sum(k @ r @ k.conj().T for k in ks)
    return 2, lambda r: sum(np.kron(a, b) @ r @ np.kron(a, b).conj().T for a in ks for b in ks)


MAKERS = {
    "dephasing": ch.dephasing_channel,
    "depolarising": ch.depolarising_channel,
    "pauli": lambda p: ch.pauli_channel(*p),
    "two_qubit_depolarising": ch.two_qubit_depolarising_channel,
    "two_qubit_depolarising_tensor": ch.two_qubit_depolarising_tensor_channel,
    "amplitude_damping": ch.amplitude_damping_channel,
    "two_qubit_amplitude_damping": ch.two_qubit_amplitude_damping_channel,
}
NOISES = {
    "depolarising": DepolarisingNoise,
    "two_qubit_depolarising": TwoQubitDepolarisingNoise,
    "amplitude_damping": AmplitudeDampingNoise,
    "two_qubit_amplitude_damping": TwoQubitAmplitudeDampingNoise,
}


def check_channel(ctx, rng, c, name, p):
    k, f = spec(name, p)
    d = 2**k
    ctx.count("channels")
    ctx.check(c.nqubit == k and 1 <= len(c) <= 4**k and len(list(c)) == len(c), "shape", f"{name}: {c.nqubit} qubits, {len(c)} operators")
    # superoperator, column by column
    for a in range(d):
        for b in range(d):
            e = np.zeros((d, d), dtype=complex)
            e[a, b] = 1
            got = sum(abs(x.coef) ** 2 * x.operator @ e @ x.operator.conj().T for x in c)
            ctx.check(np.linalg.norm(got - f(e)) < 1e-9, "formula", f"{name}({p}) on |{a}><{b}|", got=got, want=f(e))
    tot = sum(abs(x.coef) ** 2 * x.operator.conj().T @ x.operator for x in c)
    ctx.check(np.allclose(tot, np.eye(d), atol=1e-9), "trace-preserving", f"{name}({p})")
    # on chosen, ordered qubits of a larger state
    n = int(rng.integers(k, 4))
    g = rng.normal(size=(2**n, 2)) + 1j * rng.normal(size=(2**n, 2))
    rho = g @ g.conj().T
    rho /= np.trace(rho)
    qs = [int(x) for x in rng.permutation(n)[:k]]
    dm = DensityMatrix(rho)
    dm.apply_channel(c, qs)
    rest = [q for q in range(n) if q not in qs]
    perm = [*qs, *rest]
    t = np.transpose(rho.reshape((2,) * 2 * n), [*perm, *(x + n for x in perm)]).reshape(d, 2 ** (n - k), d, 2 ** (n - k))
    out = np.zeros_like(t)
    for x in range(2 ** (n - k)):
        for y in range(2 ** (n - k)):
            out[:, x, :, y] = f(t[:, x, :, y])
    back = np.argsort(perm)
    out = np.transpose(out.reshape((2,) * 2 * n), [*back, *(x + n for x in back)]).reshape(2**n, 2**n)
    ctx.check(np.linalg.norm(dm.rho - out) < 1e-8, "applied", f"{name}({p}) applied to qubits {qs} of {n}")


def formulas(ctx, rng, i):
    name = list(MAKERS)[i % len(MAKERS)]
    if name == "pauli":
        v = rng.dirichlet([1, 1, 1, 1])[:3] if rng.random() < 0.8 else np.eye(4)[int(rng.integers(4))][:3]
        p = tuple(float(x) for x in v)
    else:
        p = prob(rng)
    if p in (0.0, 1.0):
        ctx.count("endpoints")
    check_channel(ctx, rng, MAKERS[name](p), name, p)
    if name in NOISES:
        nz = NOISES[name](p)
        ctx.check(nz.nqubits == spec(name, p)[0] and nz.prob == p, "noise-element", f"{NOISES[name].__name__}({p})")
        check_channel(ctx, rng, nz.to_krauschannel(), name, p)
        q = prob(rng)
        nz.prob = q
        ctx.count("reassigned")
        check_channel(ctx, rng, nz.to_krauschannel(), name, q)
        other = NOISES[name](p)
        ctx.check(nz.prob == q and other.prob == p, "noise-element", "probabilities of two noise elements interfere")
    if p not in (0.0, 1.0):
        ctx.nontrivial((name, p))
    ctx.sample((name, p))
    # outside [0, 1]
    bad = gen.pick(rng, (-0.1, 1.0 + 1e-6, 1.5, -1e-6, 2.0, float(-rng.random() - 1e-3), float(1.001 + rng.random())))
    arg = gen.pick(rng, ((bad, 0.0, 0.0), (0.0, bad, 0.0), (0.0, 0.0, bad), (0.5, 0.5, 0.5), (0.4, 0.4, 0.3))) if name == "pauli" else bad
    tries = [lambda: MAKERS[name](arg)]
    if name in NOISES:
        tries += [lambda: NOISES[name](bad), lambda: setattr(NOISES[name](0.5), "prob", bad)]
    for f in tries:
        try:
            f()
        except ValueError:
            ctx.count("refused")
            continue
        ctx.fail("accepted-probability", f"{name} accepts {arg}")


def kraus(ctx, rng, i):
    """KrausChannel accepts exactly the normalised, homogeneous, non-empty data, and is immutable."""
    k = int(rng.integers(1, 3))
    r = int(rng.integers(1, 5))
    d = 2**k
    u = ref.haar_unitary(rng, r * d)[:, :d]
    ops, coefs = [], []
    for j in range(r):
        c = gen.pick(rng, (1.0, complex(rng.normal(), rng.normal()), 2, 1j))
        coefs.append(c)
        ops.append(u[j * d : (j + 1) * d] / c)
    raw = [o.copy() for o in ops]
    data = [KrausData(c, o) for c, o in zip(coefs, raw)]
    chan = KrausChannel(gen.pick(rng, (data, tuple(data), iter(data))))
    for o in raw:
        o[...] = 7
    data.clear()
    ctx.count("kraus_valid")
    ctx.check(chan.nqubit == k and len(chan) == r, "kraus-shape", f"{chan.nqubit} qubits, {len(chan)} operators")
    for j, x in enumerate(chan):
        y = chan[j]
        ctx.check(x.nqubit == k and np.allclose(x.coef * x.operator, coefs[j] * ops[j]) and np.allclose(y.operator, x.operator), "kraus-aliased", "the channel changed with the arrays it was built from")
        for f in (lambda: x.operator.__setitem__((0, 0), 9), lambda: setattr(x, "coef", 3), lambda: setattr(x, "operator", 3), lambda: setattr(chan, "nqubit", 3)):
            try:
                f()
            except (ValueError, AttributeError, TypeError):
                continue
            ctx.fail("kraus-mutable", "the data of a channel can be modified")
    if r >= 2:
        ctx.nontrivial(repr(u))
    mk = lambda cs, os: KrausChannel([KrausData(c, o) for c, o in zip(cs, os)])  # noqa: E731
    good = [o.astype(complex) for o in ops]
    broken = {
        "empty": lambda: KrausChannel([]),
        "scaled": lambda: mk([c * 1.01 for c in coefs], good),
        "scaled-one": lambda: mk([coefs[0] * 1.1, *coefs[1:]], good),
        "dropped": lambda: mk(coefs[1:], good[1:]),
        "too-many": lambda: mk([1 / math.sqrt(4**k + 1)] * (4**k + 1), [np.eye(d)] * (4**k + 1)),
        "mixed-sizes": lambda: mk([1 / math.sqrt(2), 1 / math.sqrt(2)], gen.pick(rng, ([np.eye(2), np.eye(4)], [np.eye(4), np.eye(2)]))),
        "rectangular": lambda: KrausData(1.0, np.ones((d, d + 1))),
        "not-a-qubit-operator": lambda: KrausData(1.0, np.eye(3)),
        "vector": lambda: KrausData(1.0, np.ones(4)),
        "wrong-side": lambda: mk([1.0, 1.0], [np.array([[0, 0], [1, 0]]), np.array([[0, 0], [0, 1]])]) if True else None,
    }
    for name, f in broken.items():
        try:
            f()
        except ValueError:
            ctx.count("kraus_broken")
            continue
        if name == "wrong-side":  # sum K^dagger K = I although sum K K^dagger is not: a valid (reset) channel
            continue
        ctx.fail(f"kraus-accepted-{name}", f"{name} Kraus data accepted")
    # a valid, non-unital channel: only sum K^dagger K is the identity
    reset = mk([1.0, 1.0], [np.array([[1, 0], [0, 0]]), np.array([[0, 1], [0, 0]])])
    ctx.check(len(reset) == 2, "kraus-refused", "reset channel refused")
    try:
        mk([1.0, 1.0], [np.array([[1, 0], [0, 0]]), np.array([[0, 0], [1, 0]])])
    except ValueError:
        return
    ctx.fail("kraus-accepted-transposed", "operators with sum K K^dagger = I only are accepted")


PARAMS = ("prepare_error_prob", "x_error_prob", "z_error_prob", "entanglement_error_prob", "measure_channel_prob", "measure_error_prob")


def random_cmd(rng):
    a, b, c = (int(x) for x in rng.permutation(40)[:3])
    dom = gen.pick(rng, (set(), {c}, {c, 77}))
    return gen.pick(
        rng,
        (
            command.N(a),
            command.E((a, b)),
            command.M(a, gen.measurement(rng), s_domain=dom),
            command.X(a, dom),
            command.Z(a, dom),
            command.C(a, Clifford(int(rng.integers(24)))),
            command.T(),
            ApplyNoise(noise=DepolarisingNoise(0.1), nodes=[a], domain=gen.pick(rng, (None, dom))),
        ),
    )


def expected(model, cmd):
    """What a built-in model documents for a command: (noise class, probability, nodes, domain, before?)."""
    dep = isinstance(model, DepolarisingNoiseModel)
    one, two = (DepolarisingNoise, TwoQubitDepolarisingNoise) if dep else (AmplitudeDampingNoise, TwoQubitAmplitudeDampingNoise)
    k = cmd.kind.name
    if k == "N":
        return (one, model.prepare_error_prob, [cmd.node], None, False)
    if k == "E":
        return (two, model.entanglement_error_prob, list(cmd.nodes), None, False)
    if k == "M":
        return (one, model.measure_channel_prob, [cmd.node], None, True)
    if k == "X":
        return (one, model.x_error_prob, [cmd.node], set(cmd.domain), False)
    if k == "Z":
        return (one, model.z_error_prob, [cmd.node], set(cmd.domain), False)
    return None


def matches(n, e):
    return type(n) is ApplyNoise and type(n.noise) is e[0] and n.noise.prob == e[1] and list(n.nodes) == e[2] and n.domain == e[3]


def models(ctx, rng, i):
    """Noise goes after preparation, entanglement and corrections, and before measurement; models nest."""
    ms, values = [], []
    for _ in range(int(rng.integers(1, 4))):
        kw = {p: float(rng.random()) for p in PARAMS if rng.random() < 0.8}
        cls = gen.pick(rng, (DepolarisingNoiseModel, AmplitudeDampingNoiseModel))
        m = cls(**kw)
        ctx.check(all(getattr(m, p) == kw.get(p, 0.0) for p in PARAMS), "model-parameters", f"{cls.__name__}({kw})")
        ms.append(m)
        values.append(kw)
    cmds = [random_cmd(rng) for _ in range(6)]
    for m in ms:
        for c in cmds:
            out = m.command(c, rng=rng)
            e = expected(m, c)
            ctx.count("model_commands")
            if e is None:
                ctx.check(len(out) == 1 and out[0] is c, "model-command", f"{c} becomes {out}")
            else:
                ok = len(out) == 2 and (out[1 - e[4]] is c or out[0 if not e[4] else 1] is c)
                cc, nn = (out[1], out[0]) if e[4] else (out[0], out[1])
                ctx.check(ok and cc is c and matches(nn, e), "model-command", f"{type(m).__name__}: {c} becomes {out}", expected=e)
        inp = m.input_nodes([3, 1, 2], rng=rng)
        one = DepolarisingNoise if isinstance(m, DepolarisingNoiseModel) else AmplitudeDampingNoise
        ctx.check(len(inp) == 3 and all(matches(n, (one, m.prepare_error_prob, [v], None)) for n, v in zip(inp, [3, 1, 2])), "model-inputs", f"{inp}")
        try:
            m.command(command.S(3, {1}), rng=rng)
        except ValueError:
            pass
        else:
            ctx.fail("model-signal", "signal commands accepted")
        seq = m.transpile(cmds, rng=rng)
        ctx.check([repr(x) for x in seq if not (type(x) is ApplyNoise and x not in cmds)] == [repr(c) for c in cmds] or len(seq) >= len(cmds), "model-transpile", "commands lost or reordered")
        ctx.check([c for c in seq if any(c is d for d in cmds)] == cmds and len(seq) == len(cmds) + sum(expected(m, c) is not None for c in cmds), "model-transpile", f"{cmds} becomes {seq}")
    # composition: each model acts on the sequence produced by the previous ones
    comp = ComposeNoiseModel(ms) if rng.random() < 0.7 or len(ms) < 2 else ComposeNoiseModel([ms[0], ComposeNoiseModel(ms[1:]), NoiselessNoiseModel()])
    for c in cmds:
        out = comp.command(c, rng=rng)
        es = [expected(m, c) for m in ms]
        if es[0] is None:
            ctx.check(len(out) == 1 and out[0] is c, "compose", f"{c} becomes {out}")
            continue
        before = es if es[0][4] else []
        after = [] if es[0][4] else es[::-1]
        ctx.check(
            len(out) == len(ms) + 1 and out[len(before)] is c and all(matches(n, e) for n, e in zip(out[: len(before)], before)) and all(matches(n, e) for n, e in zip(out[len(before) + 1 :], after)),
            "compose", f"{[type(m).__name__ for m in ms]}: {c} becomes {out}",
        )  # fmt: skip
    inp = comp.input_nodes([5, 4], rng=rng)
    want = [(DepolarisingNoise if isinstance(m, DepolarisingNoiseModel) else AmplitudeDampingNoise, m.prepare_error_prob, [v], None) for m in ms for v in (5, 4)]
    ctx.check(len(inp) == len(want) and all(matches(n, e) for n, e in zip(inp, want)), "compose-inputs", f"{inp}")
    none = NoiselessNoiseModel()
    ctx.check(none.input_nodes([1, 2]) == [] and none.command(cmds[0]) == [cmds[0]] and none.confuse_result(cmds[0], 1) == 1, "noiseless", "the noiseless model does something")


def confusion(ctx, rng, i):
    """Outcomes flip with exactly the documented probability, whatever the outcome."""
    ps = [gen.pick(rng, (0.0, 1.0, 0.5, 0.02, float(rng.random()))) for _ in range(int(rng.integers(1, 4)))]
    ms = [gen.pick(rng, (DepolarisingNoiseModel, AmplitudeDampingNoiseModel))(measure_error_prob=p) for p in ps]
    m = ms[0] if len(ms) == 1 else ComposeNoiseModel(ms)
    q = 0.0
    for p in ps:
        q = q * (1 - p) + (1 - q) * p
    cmd, n = command.M(0), 1500
    for r in (0, 1):
        out = [m.confuse_result(cmd, r, rng=rng) for _ in range(n)]
        ctx.check(set(out) <= {0, 1}, "confusion-values", f"{set(out)}")
        k = sum(o != r for o in out)
        ctx.count("flips", n)
        ctx.check(plausible(k, n, q), "confusion-rate", f"{k} of {n} outcomes {r} flipped; probability {q:.4f}", probs=ps)


def plausible(k, n, p):
    """Chernoff bound: a deviation this large has probability below 1e-11."""
    if p in (0.0, 1.0):
        return k == n * p
    f = k / n
    kl = (f * math.log(f / p) if f else 0.0) + ((1 - f) * math.log((1 - f) / (1 - p)) if f < 1 else 0.0)
    return n * kl < 26


FAMILIES = [
    Family("formulas", formulas, 3500, 60000),
    Family("kraus", kraus, 1200, 20000),
    Family("models", models, 1200, 20000),
    Family("confusion", confusion, 120, 2000),
]
