"""Density-matrix operations equal their dense definitions and keep the state physical."""

import numpy as np

import gen
import ref
from core import Family
from graphix.channels import KrausChannel, KrausData
from graphix.clifford import Clifford
from graphix.command import CommandKind, X, Z
from graphix.noise_models.noise_model import ApplyNoise
from graphix.noise_models.depolarising import DepolarisingNoise, TwoQubitDepolarisingNoise
from graphix.sim.density_matrix import DensityMatrix, DensityMatrixBackend
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates

ID = "P20"
RULE = (
    "Random histories of DensityMatrix operations (creation in every accepted form, tensor, CZ, CNOT, swap, permutation, single- and multi-qubit operators, Kraus channels, projections including impossible ones, partial traces) shadowed by a dense numpy model with qubit 0 most significant; "
    "after every step the real matrix must equal the model and stay a physical state. Non-trivial: a history of >= 6 operations on >= 2 qubits that produced a mixed state; distinct = history."
)
ASSUMPTIONS = ["operators passed to evolve are unitary; operators passed to project_qubit are rank-1 projectors, as documented"]
FLOORS = {"operations": 15000, "expectations": 1500, "projections": 600, "channels": 1500, "traces": 700, "impossible": 30, "refusals": 3000, "constructors": 1200, "fidelities": 800, "backends": 500, "mixed": 800}
WARM = "all"


def conj_apply(m, qs, rho, n):
    """m rho m^dagger on the given qubits."""
    t = rho.reshape((2,) * (2 * n))
    t = ref.apply(m, qs, t)
    return ref.apply(m.conj(), [q + n for q in qs], t).reshape(2**n, 2**n)


def ptrace(rho, n, qs):
    keep = [q for q in range(n) if q not in set(qs)]
    t = rho.reshape((2,) * (2 * n))
    t = np.transpose(t, [*keep, *qs, *(k + n for k in keep), *(q + n for q in qs)])
    d, e = 2 ** len(keep), 2 ** len(qs)
    return np.einsum("aibi->ab", t.reshape(d, e, d, e))


def random_rho(rng, n, rank=None):
    r = rank or int(rng.integers(1, 4))
    g = rng.normal(size=(2**n, r)) + 1j * rng.normal(size=(2**n, r))
    m = g @ g.conj().T
    return m / np.trace(m).real


def data_forms(rng, k):
    r = int(rng.integers(8))
    if r == 0:
        s = gen.planar_state(rng) if rng.random() < 0.5 else gen.pick(rng, gen.BASIC)
        v = ref.kron(*([ref.state_vec(s).reshape(-1, 1)] * k)).reshape(-1)
        return s, np.outer(v, v.conj())
    if r == 1 and k:
        ss = [gen.planar_state(rng) for _ in range(k)]
        v = ref.kron(*(ref.state_vec(s).reshape(-1, 1) for s in ss)).reshape(-1)
        return gen.pick(rng, (ss, tuple(ss), (s for s in ss))), np.outer(v, v.conj())
    if r in (2, 3):
        v = ref.haar_state(rng, k) if k else np.ones(1, dtype=complex)
        d = gen.pick(rng, (v, [complex(x) for x in v], iter([complex(x) for x in v]), Statevector(v.copy(), max_qubits=k + int(rng.integers(0, 3)))))
        return d, np.outer(v, v.conj())
    m = random_rho(rng, k)
    if r == 4 and k < 3:
        bits = np.diag([1.0] + [0] * (2**k - 1))
        return gen.pick(rng, (bits, bits.astype(int), bits.tolist(), [[int(x) for x in row] for row in bits])), bits.astype(complex)
    if r == 5:
        return DensityMatrix(m), m
    if r == 6:
        return [[complex(x) for x in row] for row in m], m
    return m, m


def channel(rng, k):
    """A random channel on k qubits: blocks of a random isometry, with scalar prefactors."""
    r = int(rng.integers(1, 4**k + 1)) if k == 1 else int(rng.integers(1, 5))
    u = ref.haar_unitary(rng, r * 2**k)[:, : 2**k]
    ops = [u[j * 2**k : (j + 1) * 2**k] for j in range(r)]
    data = []
    for o in ops:
        c = complex(rng.normal(), rng.normal()) if rng.random() < 0.5 else 1.0
        data.append(KrausData(c, o / c))
    return KrausChannel(data), ops


def same(ctx, dm, sh, n, mech, desc):
    ctx.check(dm.nqubit == n and dm.rho.shape == sh.shape and dm.dims() == sh.shape, mech, f"{dm.nqubit} qubits instead of {n}", history=desc)
    got = np.asarray(dm.rho, dtype=complex)
    d = float(np.linalg.norm(got - sh))
    ctx.check(d < 1e-7, mech, f"state differs from the dense model ({d:.3g})", history=desc)
    ctx.check(abs(np.trace(got) - 1) < 1e-7 and np.linalg.norm(got - got.conj().T) < 1e-7, "physical", "trace or hermiticity lost", history=desc)
    if n and n <= 4:
        ctx.check(np.linalg.eigvalsh((got + got.conj().T) / 2).min() > -1e-7, "physical", "negative eigenvalue", history=desc)
    ctx.check(np.array_equal(dm.flatten(), dm.rho.reshape(-1)), "flatten", "flatten differs from rho", history=desc)


def projector(v):
    return np.outer(v, v.conj())


def step(ctx, rng, dm, sh, desc, max_n):
    n = sh.shape[0].bit_length() - 1
    ops = ["add", "tensor", "copy"] if n < max_n else ["copy"]
    if n:
        ops += ["single"] * 2 + ["expect"] * 2 + ["project"] * 2 + ["permute", "channel", "channel", "refuse", "fidelity", "trace", "remove"]
    if n > 1:
        ops += ["cz"] * 2 + ["cnot"] * 2 + ["swap", "multi", "multi", "trace2"]
    op = gen.pick(rng, ops)
    ctx.count("operations")
    if op in ("add", "tensor"):
        k = int(rng.integers(0, min(2, max_n - n) + 1))
        d, m = data_forms(rng, k)
        desc.append((op, k, type(d).__name__))
        if op == "add":
            dm.add_nodes(k, d)
        else:
            other = DensityMatrix(d, k)
            keep = np.array(other.rho)
            dm.tensor(other)
            ctx.check(np.array_equal(other.rho, keep), "tensor-argument", "tensor modified its argument", history=desc)
            if k == 0 and rng.random() < 0.5 and 2 * n <= max_n:
                desc.append(("tensor", "self"))
                dm.tensor(dm)
                sh = np.kron(sh, sh)
        sh = np.kron(sh, m)
    elif op == "copy":
        desc.append(("copy",))
        new = DensityMatrix(dm) if rng.random() < 0.5 else DensityMatrix(dm, n)
        keep = np.array(new.rho)
        if n:
            dm.evolve_single(ref.haar_unitary(rng, 2), 0)
        dm.normalize()
        dm.rho *= 1.0
        ctx.check(np.array_equal(new.rho, keep), "copy-shares", "a copy shares its entries with the original", history=desc)
        dm = new
    elif op == "single":
        q, u = int(rng.integers(n)), ref.haar_unitary(rng, 2)
        desc.append((op, q))
        keep = u.copy()
        dm.evolve_single(u, q)
        ctx.check(np.array_equal(u, keep), "operator-modified", "evolve_single modified its operator", history=desc)
        sh = conj_apply(u, [q], sh, n)
    elif op == "multi":
        k = int(rng.integers(1, min(3, n) + 1))
        qs = [int(x) for x in rng.permutation(n)[:k]]
        u = ref.haar_unitary(rng, 2**k)
        desc.append((op, qs))
        dm.evolve(u, gen.pick(rng, (qs, tuple(qs))))
        sh = conj_apply(u, qs, sh, n)
    elif op in ("cz", "cnot", "swap"):
        a, b = (int(x) for x in rng.permutation(n)[:2])
        desc.append((op, a, b))
        {"cz": dm.entangle, "cnot": dm.cnot, "swap": dm.swap}[op]((a, b))
        sh = conj_apply({"cz": ref.CZ, "cnot": ref.CNOT, "swap": ref.SWAP}[op], [a, b], sh, n)
    elif op == "permute":
        p = [int(x) for x in rng.permutation(n)]
        desc.append((op, p))
        dm.permute(p)
        sh = np.transpose(sh.reshape((2,) * (2 * n)), [*p, *(x + n for x in p)]).reshape(sh.shape)
    elif op == "channel":
        k = int(rng.integers(1, min(2, n) + 1))
        qs = [int(x) for x in rng.permutation(n)[:k]]
        ch, kops = channel(rng, k)
        desc.append((op, qs, len(kops)))
        dm.apply_channel(ch, gen.pick(rng, (qs, tuple(qs))))
        sh = sum(conj_apply(o, qs, sh, n) for o in kops)
        ctx.count("channels")
    elif op == "expect":
        q, m = int(rng.integers(n)), rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
        if rng.random() < 0.5:
            m = m + m.conj().T
        keep = np.array(dm.rho)
        got = dm.expectation_single(m, q)
        want = np.trace(ref.apply(m, [q], sh.reshape((2,) * (2 * n))).reshape(sh.shape))
        ctx.count("expectations")
        ctx.check(abs(got - want) < 1e-7, "expectation-single", f"<{q}> = {got} instead of {want}", history=desc)
        ctx.check(np.array_equal(keep, dm.rho), "expectation-modifies", "expectation_single modified the state", history=desc)
    elif op == "project":
        q = int(rng.integers(n))
        v = ref.state_vec(gen.pick(rng, gen.BASIC)) if rng.random() < 0.6 else ref.haar_state(rng, 1)
        w = ptrace(conj_apply(projector(v), [q], sh, n), n, [q])
        p = float(np.trace(w).real)
        if 1e-12 < p < 1e-5:
            return dm, sh
        desc.append((op, q))
        if p <= 1e-12:
            trial = DensityMatrix(dm)
            try:
                trial.project_qubit(projector(v), q)
            except RuntimeError:
                ctx.count("impossible")
                return dm, sh
            ctx.fail("impossible-projection", "projection of norm zero accepted", history=desc)
        dm.project_qubit(projector(v), q)
        ctx.count("projections")
        sh = w / p
    elif op == "remove":
        q = int(rng.integers(n))
        desc.append((op, q))
        dm.remove_qubit(q)
        sh = ptrace(sh, n, [q])
        ctx.count("traces")
    elif op in ("trace", "trace2"):
        k = int(rng.integers(1, n + 1)) if op == "trace2" else 1
        qs = [int(x) for x in rng.permutation(n)[:k]]
        desc.append((op, qs))
        dm.ptrace(qs[0] if k == 1 and rng.random() < 0.5 else gen.pick(rng, (qs, tuple(qs))))
        sh = ptrace(sh, n, qs)
        n -= k
        ctx.count("traces")
    elif op == "fidelity":
        v = ref.haar_state(rng, n)
        if rng.random() < 0.5:
            v = np.linalg.eigh((sh + sh.conj().T) / 2)[1][:, -1]
        got, want = dm.fidelity(Statevector(v)), np.vdot(v, sh @ v).real
        ctx.count("fidelities")
        ctx.check(isinstance(got, float) and abs(got - want) < 1e-7, "fidelity", f"fidelity {got} instead of {want}", history=desc)
    elif op == "refuse":
        refuse(ctx, rng, dm, n, desc)
    same(ctx, dm, sh, sh.shape[0].bit_length() - 1, f"op-{op}", desc)
    return dm, sh


def refuse(ctx, rng, dm, n, desc):
    """Invalid targets and operators are refused and leave the state as it was."""
    keep = np.array(dm.rho)
    bad = gen.pick(rng, (-1, n, n + 3))
    good = int(rng.integers(n))
    u2, u4 = ref.haar_unitary(rng, 2), ref.haar_unitary(rng, 4)
    two = gen.pick(rng, ((bad, good), (good, bad), (good, good)))
    proj = projector(ref.haar_state(rng, 1))
    cases = [
        ("evolve_single-index", lambda: dm.evolve_single(u2, bad)),
        ("evolve_single-shape", lambda: dm.evolve_single(u4, good)),
        ("expectation-index", lambda: dm.expectation_single(u2, bad)),
        ("expectation-shape", lambda: dm.expectation_single(u4, good)),
        ("evolve-index", lambda: dm.evolve(u4, two)),
        ("evolve-size", lambda: dm.evolve(gen.pick(rng, (u2, ref.haar_unitary(rng, 8))), (good, (good + 1) % n) if n > 1 else (good, good))),
        ("evolve-dim", lambda: dm.evolve(ref.haar_unitary(rng, 3), (good,))),
        ("evolve-square", lambda: dm.evolve(np.ones((2, 4)), (good,))),
        ("entangle", lambda: dm.entangle(two)),
        ("cnot", lambda: dm.cnot(two)),
        ("swap", lambda: dm.swap(gen.pick(rng, ((bad, good), (good, bad))))),
        ("permute", lambda: dm.permute(gen.pick(rng, ([*range(n), n], [bad, *range(1, n)], [0] * n if n > 1 else [1])))),
        ("ptrace", lambda: dm.ptrace(gen.pick(rng, (bad, [bad], (good, bad))))),
        ("project", lambda: dm.project_qubit(proj, bad)),
        ("remove", lambda: dm.remove_qubit(bad)),
        ("channel-type", lambda: dm.apply_channel("X", [good])),
        ("channel-index", lambda: dm.apply_channel(channel(rng, 1)[0], [bad])),
        ("channel-size", lambda: dm.apply_channel(channel(rng, 2)[0], [good])),
    ]
    for k in rng.permutation(len(cases))[:6]:
        name, f = cases[int(k)]
        try:
            f()
        except (ValueError, IndexError, TypeError, AssertionError):
            ctx.count("refusals")
            ctx.check(np.array_equal(keep, dm.rho), "refused-but-changed", f"{name} changed the state it refused to act on", history=desc)
            continue
        ctx.fail(f"accepted-{name}", f"{name} accepted on {n} qubits", history=desc, bad=bad, two=two)


def histories(ctx, rng, i):
    k = int(rng.integers(0, 4))
    d, sh = data_forms(rng, k)
    src = np.array(d) if isinstance(d, np.ndarray) else None
    dm = DensityMatrix(d, k) if rng.random() < 0.7 or (k != 1 and hasattr(d, "to_statevector_numpy")) else DensityMatrix(d)
    desc = [("init", k, type(d).__name__)]
    same(ctx, dm, sh, k, "init", desc)
    mixed = False
    top = 5 if rng.random() < 0.9 else 7
    for _ in range(int(rng.integers(4, 18))):
        dm, sh = step(ctx, rng, dm, sh, desc, top)
        mixed = mixed or (sh.shape[0] > 1 and np.trace(sh @ sh).real < 0.999)
    if src is not None:
        dm.normalize()
        ctx.check(np.array_equal(src, d), "input-aliased", "the array a density matrix was built from has changed", history=desc)
    if len(desc) > 6 and mixed and sh.shape[0] > 2:
        ctx.count("mixed")
        ctx.nontrivial(repr(desc))
    # a density matrix the library computed is accepted as data again
    back = DensityMatrix(gen.pick(rng, (dm.rho, dm.rho.tolist())))
    ctx.check(np.linalg.norm(back.rho - sh) < 1e-7, "round-trip", "own output not accepted as the same state", history=desc)
    ctx.sample(repr(desc))


def constructors(ctx, rng, i):
    k = int(rng.integers(0, 4))
    d, sh = data_forms(rng, k)
    r = int(rng.integers(8))
    nq = None
    ok = True
    why = "valid"
    single = hasattr(d, "to_statevector_numpy")
    if r < 3:
        nq = gen.pick(rng, (k, k + 1, k - 1, k + 2))
        ok = nq == k or (single and nq >= 0)
        why = f"nqubit={nq} for {k} qubits"
        if single and nq >= 0:
            v = ref.state_vec(d).reshape(-1, 1)
            sh = projector(ref.kron(*([v] * nq)).reshape(-1))
    elif r == 3 and k:
        m = random_rho(rng, k)
        m = m * 1.05
        d, ok, why = gen.pick(rng, (m, m.tolist())), False, "trace 1.05"
    elif r == 4 and k:
        u = ref.haar_unitary(rng, 2**k)
        ev = rng.random(2**k)
        ev /= ev.sum()
        ev[0] += ev[1] + 0.01
        ev[1] = -0.01
        m = u @ np.diag(ev) @ u.conj().T
        d, ok, why = gen.pick(rng, (m, m.tolist())), False, "negative eigenvalue"
    elif r == 5 and k:
        m = random_rho(rng, k)
        m[0, 1] += 0.05
        d, ok, why = m, False, "not hermitian"
    elif r == 6 and k:
        m = random_rho(rng, k)
        d = gen.pick(rng, (m[:-1], m[:, :-1], m[:-1, :-1] / np.trace(m[:-1, :-1]) if k > 1 else m[:-1]))
        ok, why = False, f"shape {d.shape}"
    elif single:
        nq = k
    ctx.count("constructors")
    keep = None if not isinstance(d, np.ndarray) else d.copy()
    try:
        dm = DensityMatrix(d) if nq is None else DensityMatrix(d, nq)
    except (ValueError, TypeError):
        ctx.check(not ok, "constructor-refused", f"{type(d).__name__} refused ({why})")
        return
    ctx.check(ok, "constructor-accepted", f"{type(d).__name__} accepted: {why}")
    same(ctx, dm, sh, sh.shape[0].bit_length() - 1, "constructor-state", why)
    if keep is not None:
        dm.rho[...] = 0
        ctx.check(np.array_equal(keep, d), "input-aliased", "the density matrix shares the user's array")


def backend(ctx, rng, i):
    """DensityMatrixBackend: nodes keep their identity; noise hits the right nodes; posterior states are right."""
    b = DensityMatrixBackend()
    sh, nodes, fresh = np.ones((1, 1), dtype=complex), [], 0
    desc = []
    top = 4 if rng.random() < 0.9 else 6
    for _ in range(int(rng.integers(4, 13))):
        n = len(nodes)
        op = gen.pick(rng, ("add", "add", "cz", "cliff", "corr", "noise1", "noise2", "cz", "measure"))
        if op == "add" and n < top:
            k = int(rng.integers(1, 3))
            new = [int(x) * 7 + fresh for x in rng.permutation(k)]
            fresh += 20
            d, m = data_forms(rng, k)
            desc.append((op, new, type(d).__name__))
            b.add_nodes(new, d)
            nodes += new
            sh = np.kron(sh, m)
        elif op == "cz" and n > 1:
            x, y = (int(z) for z in rng.permutation(n)[:2])
            desc.append((op, nodes[x], nodes[y]))
            b.entangle_nodes((nodes[x], nodes[y]))
            sh = conj_apply(ref.CZ, [x, y], sh, n)
        elif op == "cliff" and n:
            x, c = int(rng.integers(n)), int(rng.integers(24))
            desc.append((op, nodes[x], c))
            b.apply_clifford(nodes[x], Clifford(c))
            sh = conj_apply(ref.CLIFFORD[c], [x], sh, n)
        elif op == "corr" and n:
            x, cls = int(rng.integers(n)), gen.pick(rng, (X, Z))
            desc.append((op, nodes[x], cls.__name__))
            b.correct_byproduct(cls(nodes[x], set()))
            sh = conj_apply(ref.PAULI[cls.__name__], [x], sh, n)
        elif op == "noise1" and n:
            x, p = int(rng.integers(n)), float(rng.random())
            desc.append((op, nodes[x], p))
            b.apply_noise(ApplyNoise(noise=DepolarisingNoise(p), nodes=[nodes[x]]))
            sh = (1 - p) * sh + p / 3 * sum(conj_apply(ref.PAULI[c], [x], sh, n) for c in "XYZ")
        elif op == "noise2" and n > 1:
            (x, y), p = (int(z) for z in rng.permutation(n)[:2]), float(rng.random())
            desc.append((op, nodes[x], nodes[y], p))
            b.apply_noise(ApplyNoise(noise=TwoQubitDepolarisingNoise(p), nodes=[nodes[x], nodes[y]]))
            tot = sum(conj_apply(np.kron(ref.PAULI[c], ref.PAULI[e]), [x, y], sh, n) for c in "IXYZ" for e in "IXYZ")
            sh = (1 - p) * sh + p / 15 * (tot - sh)
        elif op == "measure" and n:
            x, m = int(rng.integers(n)), gen.measurement(rng)
            r = int(b.measure(nodes[x], m, rng))
            desc.append((op, nodes[x], repr(m), r))
            w = ptrace(conj_apply(projector(ref.meas_vec(m, r)), [x], sh, n), n, [x])
            p = float(np.trace(w).real)
            ctx.check(p > 1e-9, "backend-outcome", f"outcome of probability {p} reported", history=desc)
            sh = w / p
            nodes.pop(x)
        got = np.asarray(b.state.rho)
        ctx.check(b.nqubit == len(nodes) and got.shape == sh.shape and np.linalg.norm(got - sh) < 1e-6, "backend", f"backend state after {desc}")
    order = [int(x) for x in rng.permutation(nodes)] if nodes else []
    p = [nodes.index(v) for v in order]
    n = len(nodes)
    t = np.transpose(sh.reshape((2,) * (2 * n)), [*p, *(x + n for x in p)]).reshape(sh.shape) if n else sh
    b.finalize(order)
    ctx.check(np.linalg.norm(np.asarray(b.state.rho) - t) < 1e-6, "backend-finalize", f"finalize({order}) of {nodes}")
    ctx.count("backends")


FAMILIES = [
    Family("histories", histories, 9000, 120000),
    Family("constructors", constructors, 5000, 40000),
    Family("backend", backend, 5000, 60000),
]
