"""Statevector kernels: every operation equals the dense definition, in place, in bounds, at any size and thread count."""

import types

import numba
import numpy as np

import gen
import lazyjit
import ref
from core import Family
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector, StatevectorBackend
from graphix.states import BasicStates, State

ID = "P19"
RULE = (
    "Random histories of Statevector operations (adding nodes in every accepted form, tensor, CZ, single- and multi-qubit operators, swap, permutation, projections including one-sided and impossible ones, capacity changes, copies) shadowed by a dense numpy model; "
    "kernels also run compiled with bounds checking as a memory sanitizer, and on 16-18 qubits (multi-threaded path) with 1, 2 and 4 threads. Non-trivial: a history of >= 5 operations on >= 2 qubits; distinct = history."
)
ASSUMPTIONS = ["operators passed to evolve are unitary and operators passed to project_qubit are rank-1 projectors, as documented"]
FLOORS = {"malformed": 600, "operations": 60000, "medium_histories": 250, "expectations": 1500, "projections": 1500, "one_sided": 600, "impossible": 60, "large": 250, "index_errors": 600, "constructors": 800, "aliasing": 300, "dicts": 300}
WARM = ()
TWINS = {}


def setup():
    """Compile every kernel twice: as shipped, and with bounds checking (the memory sanitizer)."""
    lazyjit.warm()

    def twin(k):
        if k not in TWINS:
            g = dict(k._fn.__globals__)
            for name in k._fn.__code__.co_names:
                dep = next((d for d in lazyjit.ALL if d.__name__ == name and d._fn.__globals__ is k._fn.__globals__), None)
                if dep is not None and dep is not k:
                    g[name] = twin(dep)
            fn = types.FunctionType(k._fn.__code__, g, k.__name__, k._fn.__defaults__, k._fn.__closure__)
            TWINS[k] = lazyjit._REAL_NJIT(*k._args, **{**k._kwargs, "boundscheck": True})(fn)
        return TWINS[k]

    for k in lazyjit.ALL:
        if k._fn.__module__.startswith("graphix.sim"):
            twin(k)


class Shadow:
    """Dense model: a flat normalised vector."""

    def __init__(self, v):
        self.v = np.asarray(v, dtype=complex).reshape(-1)

    @property
    def n(self):
        return self.v.size.bit_length() - 1

    def tensor(self):
        return self.v.reshape((2,) * self.n)


def unitary1(rng):
    if rng.random() < 0.4:
        return np.array(ref.CLIFFORD[int(rng.integers(24))])
    return ref.haar_unitary(rng, 2)


def data_forms(rng, k):
    """k qubits in one of the accepted forms: (data, flat vector)."""
    r = int(rng.integers(5))
    if r == 0:
        s = gen.planar_state(rng) if rng.random() < 0.5 else gen.pick(rng, gen.BASIC)
        return s, ref.kron(*([ref.state_vec(s).reshape(-1, 1)] * k)).reshape(-1) if k else np.ones(1)
    if r == 1 and k:
        ss = [gen.planar_state(rng) for _ in range(k)]
        return gen.pick(rng, (ss, tuple(ss))), ref.kron(*(ref.state_vec(s).reshape(-1, 1) for s in ss)).reshape(-1)
    v = ref.haar_state(rng, k) if k else np.ones(1, dtype=complex)
    if r == 2:
        return v, v
    if r == 3:
        return [complex(x) for x in v], v
    return Statevector(v.copy()), v


def same(ctx, sv, sh, mech, desc, exact=False):
    got = np.asarray(sv.psi).reshape(-1)
    ctx.check(sv.nqubit == sh.n and got.shape == sh.v.shape, mech, f"{sv.nqubit} qubits instead of {sh.n}", history=desc)
    ctx.check(np.array_equal(got, np.asarray(sv.flatten()).reshape(-1)), mech, "flatten differs from psi", history=desc)
    d = float(np.linalg.norm(got - sh.v)) if exact else ref.phase_dist(got, sh.v)
    ctx.check(d < 1e-8, mech, f"state differs from the dense model ({d:.3g})", history=desc)
    ctx.check(abs(np.linalg.norm(got) - 1) < 1e-8, "norm", "state not normalised", history=desc)


def step(ctx, rng, sv, sh, desc, max_n):
    """One random operation on both; returns the (possibly new) statevector."""
    n = sh.n
    ops = ["add", "plus", "tensor", "copy", "capacity"] if n < max_n else ["copy"]
    if n:
        ops += ["single"] * 3 + ["expect", "expect", "project", "project", "index", "permute"] + ["dict"] * (n < 9)
    if n > 1:
        ops += ["cz"] * 3 + ["multi"] * 2 + ["swap"] * 2 + ["expect_multi"]
    op = gen.pick(rng, ops)
    ctx.count("operations")
    exact = True
    if op == "add":
        k = int(rng.integers(0, min(3, max_n - n) + 1))
        d, v = data_forms(rng, k)
        desc.append(("add", k, type(d).__name__))
        sv.add_nodes(k, d)
        sh.v = np.kron(sh.v, v)
    elif op == "plus":
        desc.append(("plus",))
        sv.add_nodes(1, BasicStates.PLUS)
        sh.v = np.kron(sh.v, np.ones(2) / np.sqrt(2))
    elif op == "tensor":
        if rng.random() < 0.15 and 2 * n <= max_n:
            desc.append(("tensor", "self"))
            sv.tensor(sv)
            sh.v = np.kron(sh.v, sh.v)
        else:
            k = int(rng.integers(0, min(3, max_n - n) + 1))
            v = ref.haar_state(rng, k) if k else np.ones(1)
            other = Statevector(v, max_qubits=k + int(rng.integers(0, 3)))
            desc.append(("tensor", k))
            sv.tensor(other)
            ctx.check(np.allclose(other.psi, v), "tensor-argument", "tensor modified its argument", history=desc)
            sh.v = np.kron(sh.v, v)
    elif op == "copy":
        desc.append(("copy",))
        r = rng.random()
        new = Statevector(sv) if r < 0.4 else Statevector(sv, max_qubits=n + int(rng.integers(0, 3))) if r < 0.8 else Statevector(sv, nqubit=n)
        keep = np.array(sv.psi)
        if n:
            sv.evolve_single(ref.haar_unitary(rng, 2), 0)
            ctx.check(np.array_equal(new.psi, keep), "copy-shares", "a copy shares its amplitudes with the original", history=desc)
        sv = new
    elif op == "capacity":
        k = n + int(rng.integers(-1, 3))
        desc.append(("capacity", k))
        before = sv.max_qubits
        sv.ensure_capacity(k)
        ctx.check(sv.max_qubits == max(before, k), "capacity", f"capacity {sv.max_qubits} after requesting {k} from {before}", history=desc)
    elif op == "single":
        q, u = int(rng.integers(n)), unitary1(rng)
        desc.append(("single", q))
        before = u.copy()
        if rng.random() < 0.3:
            u, before = u.T, before.T  # not contiguous
        sv.evolve_single(u, q)
        ctx.check(np.array_equal(before, u), "operator-modified", "evolve_single modified its operator", history=desc)
        sh.v = ref.apply(u, [q], sh.tensor()).reshape(-1)
    elif op == "multi":
        k = int(rng.integers(1, min(3 if n < 7 else 5, n) + 1))
        qs = [int(x) for x in rng.permutation(n)[:k]]
        u = ref.haar_unitary(rng, 2**k)
        desc.append(("multi", qs))
        sv.evolve(u, qs)
        sh.v = ref.apply(u, qs, sh.tensor()).reshape(-1)
    elif op == "cz":
        a, b = (int(x) for x in rng.permutation(n)[:2])
        desc.append(("cz", a, b))
        sv.entangle((a, b))
        sh.v = ref.apply(ref.CZ, [a, b], sh.tensor()).reshape(-1)
    elif op == "swap":
        a, b = int(rng.integers(n)), int(rng.integers(n))
        desc.append(("swap", a, b))
        sv.swap((a, b))
        sh.v = np.swapaxes(sh.tensor(), a, b).reshape(-1)
    elif op == "permute":
        p = [int(x) for x in rng.permutation(n)]
        desc.append(("permute", p))
        sv.permute(p)
        sh.v = np.transpose(sh.tensor(), p).reshape(-1)
    elif op == "expect":
        q, m = int(rng.integers(n)), rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
        if rng.random() < 0.5:
            m = m + m.conj().T
        keep = np.array(sv.psi)
        got = sv.expectation_single(m, q)
        want = np.vdot(sh.v, ref.apply(m, [q], sh.tensor()).reshape(-1))
        ctx.count("expectations")
        ctx.check(abs(got - want) < 1e-8, "expectation-single", f"<{q}> = {got} instead of {want}", history=desc)
        ctx.check(np.array_equal(keep, sv.psi), "expectation-modifies", "expectation_single modified the state", history=desc)
    elif op == "expect_multi":
        k = int(rng.integers(1, min(3 if n < 7 else 5, n) + 1))
        qs = [int(x) for x in rng.permutation(n)[:k]]
        m = rng.normal(size=(2**k, 2**k)) + 1j * rng.normal(size=(2**k, 2**k))
        keep = np.array(sv.psi)
        got = sv.expectation_value(m, qs)
        want = np.vdot(sh.v, ref.apply(m, qs, sh.tensor()).reshape(-1))
        ctx.count("expectations")
        ctx.check(abs(got - want) < 1e-7, "expectation-value", f"<{qs}> = {got} instead of {want}", history=desc)
        ctx.check(np.array_equal(keep, sv.psi), "expectation-modifies", "expectation_value modified the state", history=desc)
    elif op == "project":
        q = int(rng.integers(n))
        v = ref.state_vec(gen.pick(rng, gen.BASIC)) if rng.random() < 0.5 else ref.haar_state(rng, 1)
        w = np.tensordot(v.conj(), sh.tensor(), axes=(0, q))
        p = float(np.linalg.norm(w) ** 2)
        desc.append(("project", q, [complex(x) for x in v]))
        if 1e-12 < p < 1e-6:
            return sv, True
        proj = np.outer(v, v.conj())
        if p <= 1e-12:
            trial = Statevector(sv)
            try:
                trial.project_qubit(proj, q)
            except RuntimeError:
                ctx.count("impossible")
                desc.pop()
                return sv, True
            ctx.fail("impossible-projection", "projection of norm zero accepted", history=desc)
        # amplitudes of the removed qubit: a tiny |0> component is discarded as rounding
        if 0 < abs(v[0]) < 1e-4 or 0 < abs(v[1]) < 1e-4:
            desc.pop()
            return sv, True
        if abs(v[0]) < 1e-12 or abs(v[1]) < 1e-12:
            ctx.count("one_sided")
        sv.project_qubit(proj, q)
        ctx.count("projections")
        sh.v = w.reshape(-1) / np.linalg.norm(w)
        exact = False
    elif op == "dict":
        dicts(ctx, rng, sv, sh, desc)
    elif op == "index":
        index_errors(ctx, rng, sv, n, desc)
    same(ctx, sv, sh, f"op-{op}", desc, exact)
    if not exact:
        sh.v = np.array(sv.psi)  # the phase of a projection is free
    return sv, True


def dicts(ctx, rng, sv, sh, desc):
    ctx.count("dicts")
    n = sh.n
    for enc in ("MSB", "LSB"):
        d, p = sv.to_dict(enc), sv.to_prob_dict(enc)
        keys = {}
        for i, a in enumerate(sh.v):
            b = format(i, f"0{n}b")
            keys[b if enc == "MSB" else b[::-1]] = a
        for k, a in keys.items():
            if abs(a) > 1e-7:
                ctx.check(k in d and abs(d[k] - a) < 1e-8, "to-dict", f"amplitude of {k} ({enc})", history=desc)
                ctx.check(k in p and abs(p[k] - abs(a) ** 2) < 1e-8, "to-prob-dict", f"probability of {k} ({enc})", history=desc)
            elif abs(a) < 1e-9:
                ctx.check(k not in d and k not in p, "to-dict", f"zero amplitude of {k} reported", history=desc)
        ctx.check(set(d) <= set(keys) and set(p) <= set(keys), "to-dict", "unknown basis states", history=desc)


def index_errors(ctx, rng, sv, n, desc):
    bad = gen.pick(rng, (-1, n, n + 1, n + 7, -n - 1))
    good = int(rng.integers(n))
    for name, f in (
        ("evolve_single", lambda: sv.evolve_single(ref.X, bad)),
        ("expectation_single", lambda: sv.expectation_single(ref.X, bad)),
        ("entangle", lambda: sv.entangle(gen.pick(rng, ((bad, good), (good, bad))))),
        ("swap", lambda: sv.swap(gen.pick(rng, ((bad, good), (good, bad))))),
        ("project_qubit", lambda: sv.project_qubit(np.outer([1, 0], [1, 0]), bad)),
    ):
        try:
            f()
        except IndexError:
            ctx.count("index_errors")
            continue
        ctx.fail(f"index-{name}", f"qubit {bad} accepted by {name} on {n} qubits", history=desc)
    for p in ([*range(n), n], [0] * n if n > 1 else [1], [bad, *range(1, n)]):
        try:
            sv.permute(p)
        except ValueError:
            ctx.count("index_errors")
            continue
        ctx.fail("index-permute", f"{p} accepted as a permutation of {n} qubits", history=desc)


def history(ctx, rng, length, max_n, start=(0, 4)):
    k = int(rng.integers(*start))
    d, v = data_forms(rng, k)
    sv = Statevector(d, k, **({"max_qubits": k + int(rng.integers(0, 4))} if rng.random() < 0.5 else {})) if rng.random() < 0.8 or k != 1 else Statevector(d)
    sh = Shadow(v)
    desc = [("init", k, type(d).__name__)]
    same(ctx, sv, sh, "init", desc, True)
    for _ in range(length):
        sv, _ = step(ctx, rng, sv, sh, desc, max_n)
    if len(desc) > 5 and sh.n > 1:
        ctx.nontrivial(repr(desc))
    ctx.sample(repr(desc))


def histories(ctx, rng, i):
    history(ctx, rng, int(rng.integers(5, 25)), 6)


def medium(ctx, rng, i):
    history(ctx, rng, int(rng.integers(5, 16)), 13, (6, 12))
    ctx.count("medium_histories")


def checked(ctx, rng, i):
    """The same histories with the kernels compiled with bounds checking."""
    saved = {k: k._real for k in TWINS}
    for k, t in TWINS.items():
        k._real = t
    try:
        history(ctx, rng, int(rng.integers(5, 20)), 5)
        ctx.count("bounds_checked_histories")
    finally:
        for k, r in saved.items():
            k._real = r


def large(ctx, rng, i):
    """The multi-threaded code path, with several thread counts."""
    n = 16 + i % 3
    v = ref.haar_state(rng, n)
    sh = Shadow(v)
    sv = Statevector(v, max_qubits=n + i % 2)
    top = numba.config.NUMBA_NUM_THREADS
    threads = gen.pick(rng, [t for t in (1, 2, 3, 4, top, top) if t <= top])
    numba.set_num_threads(threads)
    desc = [("init", n, threads)]
    try:
        for k in range(6):
            q = gen.pick(rng, (0, 1, n // 2, n - 2, n - 1, int(rng.integers(n))))
            op = ("single", "cz", "expect", "project", "swap", "plus")[(i + k) % 6]
            desc.append((op, q))
            if op == "single":
                u = ref.haar_unitary(rng, 2)
                sv.evolve_single(u, q)
                sh.v = ref.apply(u, [q], sh.tensor()).reshape(-1)
            elif op == "cz":
                b = (q + 1 + int(rng.integers(sh.n - 1))) % sh.n
                q = q % sh.n
                if b == q:
                    continue
                sv.entangle((q, b))
                t = sh.tensor().copy()
                sl = [slice(None)] * sh.n
                sl[q] = sl[b] = 1
                t[tuple(sl)] *= -1
                sh.v = t.reshape(-1)
            elif op == "expect":
                q = min(q, sh.n - 1)
                m = rng.normal(size=(2, 2)) + 1j * rng.normal(size=(2, 2))
                got, want = sv.expectation_single(m, q), np.vdot(sh.v, ref.apply(m, [q], sh.tensor()).reshape(-1))
                ctx.check(abs(got - want) < 1e-8, "expectation-single", f"large expectation of {q} = {got} instead of {want}", history=desc)
            elif op == "project":
                q = min(q, sh.n - 1)
                w = gen.pick(rng, (np.array([1, 0]), np.array([0, 1]), ref.haar_state(rng, 1))).astype(complex)
                sv.project_qubit(np.outer(w, w.conj()), q)
                t = np.tensordot(w.conj(), sh.tensor(), axes=(0, q)).reshape(-1)
                sh.v = t / np.linalg.norm(t)
                got = np.array(sv.psi)
                d = ref.phase_dist(got, sh.v)
                ctx.check(got.shape == sh.v.shape and d < 1e-8, "large-project", f"projection of {q} ({d:.3g})", history=desc)
                sh.v = got
            elif op == "swap":
                q, b = min(q, sh.n - 1), int(rng.integers(sh.n))
                sv.swap((q, b))
                sh.v = np.swapaxes(sh.tensor(), q, b).reshape(-1)
            elif sh.n < n + 1:
                sv.add_nodes(1, BasicStates.PLUS)
                sh.v = np.kron(sh.v, np.ones(2) / np.sqrt(2))
            got = np.array(sv.psi)
            ctx.check(got.shape == sh.v.shape, "large", f"{sv.nqubit} qubits instead of {sh.n}", history=desc)
            d = float(np.linalg.norm(got - sh.v))
            ctx.check(d < 1e-8, "large", f"{op} on {sh.n} qubits with {threads} threads differs from the dense model ({d:.3g})", history=desc)
            ctx.count("large")
            ctx.distinct("thread_counts", threads)
    finally:
        numba.set_num_threads(top)


def constructors(ctx, rng, i):
    """Inconsistent arguments are refused and consistent ones accepted."""
    k = int(rng.integers(0, 4))
    d, v = data_forms(rng, k)
    nq = gen.pick(rng, (None, k, k, k + 1, k - 1))
    mq = gen.pick(rng, (None, None, k, k + 2, k - 1, -1))
    single = isinstance(d, State)
    eff = (nq if nq is not None else 1) if single else k
    ok = (nq is None or nq >= 0) and (mq is None or mq >= 0)
    if not single and nq is not None and nq != k:
        ok = False
    if mq is not None and mq < eff:
        ok = False
    bad_norm = isinstance(d, np.ndarray) and k and rng.random() < 0.3
    if bad_norm:
        d = d * 1.1
        ok = False
    bad_len = isinstance(d, (np.ndarray, list)) and not bad_norm and k > 1 and not isinstance(d[0], State) and rng.random() < 0.3
    if bad_len:
        d = list(d)[:-1]
        d = [complex(x) / np.linalg.norm(d) for x in d]
        ok = False
    ctx.count("constructors")
    try:
        sv = Statevector(d, nq, mq)
    except ValueError:
        ctx.check(not ok, "constructor-refused", f"Statevector({type(d).__name__} of {k} qubits, {nq}, {mq}) refused")
        return
    ctx.check(ok, "constructor-accepted", f"Statevector({type(d).__name__} of {k} qubits, {nq}, {mq}) accepted")
    want = ref.kron(*([ref.state_vec(d).reshape(-1, 1)] * eff)).reshape(-1) if single and eff else np.ones(1) if single else v
    ctx.check(np.allclose(sv.psi, want), "constructor-state", f"Statevector({type(d).__name__}, {nq}, {mq})")
    ctx.check(sv.max_qubits == (mq if mq is not None else eff) or (isinstance(d, Statevector) and mq is None), "constructor-capacity", f"max_qubits is {sv.max_qubits}")


def malformed(ctx, rng, i):
    """What is not a state is refused, by the constructor and wherever states are given."""
    k = int(rng.integers(1, 4))
    v = ref.haar_state(rng, k)
    rho = np.outer(v, v.conj())
    rho2 = rho / np.linalg.norm(rho)
    bad = {
        "density matrix": rho,
        "unit-norm matrix": rho2,
        "nested lists": rho.tolist(),
        "column": v.reshape(-1, 1),
        "row": v.reshape(1, -1),
        "cube": np.array([v, np.zeros_like(v)]).reshape(2, -1, 1),
        "text": "01",
        "texts": ["1", "0"],
        "nothing": None,
        "number": 1.0,
        "state and number": [BasicStates.PLUS, 1.0],
        "number and state": [1.0, BasicStates.PLUS],
        "nan": np.where(np.arange(2**k) == 0, np.nan, v),
        "infinite": np.where(np.arange(2**k) == 0, np.inf, v),
        "zero": v * 0,
        "density matrix object": DensityMatrix(Statevector(v)),
    }
    name = gen.pick(rng, list(bad))
    d = bad[name]
    ctx.count("malformed")
    ctx.distinct("malformed", name)
    calls = {
        "Statevector": lambda: Statevector(d),
        "Statevector(nqubit)": lambda: Statevector(d, nqubit=k),
        "Statevector(max_qubits)": lambda: Statevector(d, max_qubits=k + 2),
        "add_nodes": lambda: host.add_nodes(k, d),
    }
    for how, f in calls.items():
        host = Statevector(nqubit=2)
        before = host.flatten().copy()
        try:
            f()
        except (ValueError, TypeError):
            ctx.check(np.array_equal(host.flatten(), before) and host.nqubit == 2, "refused-changed", f"{how}({name}) was refused but changed the state")
            continue
        ctx.fail("malformed-accepted", f"{how} accepted {name}: {d!r}")


class Stored(State):
    def __init__(self, v):
        self.v = v

    def to_statevector_numpy(self):
        return self.v


def aliasing(ctx, rng, i):
    """Neither the user's arrays nor his states change when the statevector does."""
    k = int(rng.integers(1, 4))
    v = ref.haar_state(rng, 1) if i % 2 == 0 else ref.haar_state(rng, k)
    data = Stored(v) if i % 2 == 0 else v
    keep = v.copy()
    sv = Statevector(data) if rng.random() < 0.5 else Statevector(data, max_qubits=4)
    sv.evolve_single(ref.haar_unitary(rng, 2), 0)
    sv.swap((0, sv.nqubit - 1))
    ctx.count("aliasing")
    ctx.check(np.array_equal(v, keep), "input-aliased", "evolving a statevector modified the data it was built from", data=type(data).__name__)
    s = Statevector(nqubit=0)
    s.add_nodes(1, Stored(v := ref.haar_state(rng, 1)))
    keep = v.copy()
    s.evolve_single(ref.X, 0)
    ctx.check(np.array_equal(v, keep), "input-aliased", "evolving a statevector modified the state of an added node")
    # comparisons
    a, b = ref.haar_state(rng, k), ref.haar_state(rng, k)
    sa, sb = Statevector(a), Statevector(b)
    ctx.check(abs(sa.fidelity(sb) - abs(np.vdot(a, b)) ** 2) < 1e-10, "fidelity", "fidelity")
    ctx.check(sa.isclose(Statevector(a * np.exp(2j * float(rng.random()) * np.pi))) and not sa.isclose(sb), "isclose", "isclose")


def backend(ctx, rng, i):
    """StatevectorBackend: nodes keep their identity across additions, measurements and reordering."""
    cap = int(rng.integers(0, 6))
    b = StatevectorBackend.with_capacity(cap) if rng.random() < 0.6 else StatevectorBackend()
    sh, nodes, fresh = Shadow(np.ones(1)), [], 0
    desc = []
    for _ in range(int(rng.integers(4, 14))):
        op = gen.pick(rng, ("add", "add", "cz", "cliff", "single", "cz"))
        desc.append(op)
        if op == "add" and len(nodes) < 5:
            k = int(rng.integers(1, 3))
            new = [int(x) * 7 + fresh for x in rng.permutation(k)]
            fresh += 20
            d, v = data_forms(rng, k)
            b.add_nodes(new, d)
            nodes += new
            sh.v = np.kron(sh.v, v)
        elif op == "cz" and len(nodes) > 1:
            x, y = (int(z) for z in rng.permutation(len(nodes))[:2])
            b.entangle_nodes((nodes[x], nodes[y]))
            sh.v = ref.apply(ref.CZ, [x, y], sh.tensor()).reshape(-1)
        elif op == "cliff" and nodes:
            x, c = int(rng.integers(len(nodes))), int(rng.integers(24))
            b.apply_clifford(nodes[x], gen.Clifford(c))
            sh.v = ref.apply(ref.CLIFFORD[c], [x], sh.tensor()).reshape(-1)
        elif op == "single" and nodes:
            x, u = int(rng.integers(len(nodes))), ref.haar_unitary(rng, 2)
            b.apply_single(nodes[x], u)
            sh.v = ref.apply(u, [x], sh.tensor()).reshape(-1)
        ctx.check(ref.phase_dist(np.array(b.state.psi), sh.v) < 1e-8 and b.nqubit == len(nodes), "backend", f"backend state after {desc}")
        if nodes and rng.random() < 0.3:
            x = int(rng.integers(len(nodes)))
            m = gen.measurement(rng)
            r = b.measure(nodes[x], m, rng)
            w = np.tensordot(ref.meas_vec(m, int(r)).conj(), sh.tensor(), axes=(0, x)).reshape(-1)
            ctx.check(np.linalg.norm(w) > 1e-6, "backend-outcome", "impossible outcome reported", history=desc)
            sh.v = w / np.linalg.norm(w)
            nodes.pop(x)
            desc.append("measure")
            ctx.check(ref.phase_dist(np.array(b.state.psi), sh.v) < 1e-7 and b.nqubit == len(nodes), "backend-measure", f"backend state after {desc}")
    order = [int(x) for x in rng.permutation(nodes)] if nodes else []
    t = np.transpose(sh.tensor(), [nodes.index(v) for v in order]).reshape(-1) if nodes else sh.v
    b.finalize(order)
    ctx.check(ref.phase_dist(np.array(b.state.psi), t) < 1e-7, "backend-finalize", f"finalize({order}) of {nodes}")
    ctx.count("backends")


FAMILIES = [
    Family("histories", histories, 6000, 300000),
    Family("medium", medium, 500, 20000),
    Family("checked", checked, 2500, 100000),
    Family("large", large, 60, 2000),
    Family("constructors", constructors, 3000, 20000),
    Family("malformed", malformed, 800, 8000),
    Family("aliasing", aliasing, 1000, 5000),
    Family("backend", backend, 3000, 100000),
]
