"""Reference models, written from the definitions and independent of graphix's code paths.

Only plain data (enum names, angles, node labels, domains) is read from graphix objects.
"""

from __future__ import annotations

import itertools
import math

import numpy as np

PI = math.pi
I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
H = np.array([[1, 1], [1, -1]], dtype=complex) / math.sqrt(2)
S = np.array([[1, 0], [0, 1j]], dtype=complex)
PAULI = {"I": I2, "X": X, "Y": Y, "Z": Z}
CZ = np.diag([1, 1, 1, -1]).astype(complex)
CNOT = np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]], dtype=complex)
SWAP = np.array([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=complex)
CCX = np.eye(8, dtype=complex)[[0, 1, 2, 3, 4, 5, 7, 6]]

# The 24 single-qubit Cliffords in graphix's public numbering, as words in H (6), S (4), Z (3)
# (matrix product, leftmost factor applied last).
_WORDS = (
    (), (6, 3, 6), (6, 3, 6, 3), (3,), (4,), (4, 3), (6,), (6, 4, 6), (6, 3), (6, 3, 6, 4),
    (4, 6, 3, 6), (3, 6, 3), (3, 6), (6, 4, 6, 3), (4, 6, 3, 4), (4, 6, 4), (6, 4, 3), (3, 6, 4),
    (3, 6, 3, 4), (6, 4), (4, 6), (4, 3, 6), (4, 3, 6, 3), (4, 6, 3),
)  # fmt: skip


def _word(w):
    m = I2
    for g in w:
        m = m @ {6: H, 4: S, 3: Z}[g]
    return m


CLIFFORD = tuple(_word(w) for w in _WORDS)


class TooBig(Exception):
    """The reference would need too many live qubits (the case is skipped and counted)."""


class RefError(Exception):
    """The command sequence is meaningless (reads an absent qubit or outcome)."""


# ---------------------------------------------------------------- elementary objects


def bloch_vector(measurement):
    """(nx, ny, nz) of a graphix measurement, from the definition of planes and axes."""
    if hasattr(measurement, "axis"):
        s = 1.0 if measurement.sign.name == "PLUS" else -1.0
        return {"X": (s, 0, 0), "Y": (0, s, 0), "Z": (0, 0, s)}[measurement.axis.name]
    a = float(measurement.angle) * PI
    c, s = math.cos(a), math.sin(a)
    return {"XY": (c, s, 0.0), "YZ": (0.0, s, c), "XZ": (s, 0.0, c)}[measurement.plane.name]


def obs(measurement):
    n = bloch_vector(measurement)
    return n[0] * X + n[1] * Y + n[2] * Z


def eigvec(o, outcome):
    """Normalised (-1)^outcome eigenvector of a +-1 single-qubit observable."""
    p = (I2 + (-1) ** outcome * o) / 2
    v = p[:, 0] if np.linalg.norm(p[:, 0]) >= np.linalg.norm(p[:, 1]) else p[:, 1]
    return v / np.linalg.norm(v)


def meas_vec(measurement, outcome):
    return eigvec(obs(measurement), outcome)


def planar(plane, angle):
    a = float(angle) * PI
    if plane == "XY":
        return np.array([1, np.exp(1j * a)]) / math.sqrt(2)
    if plane == "YZ":
        return np.array([math.cos(a / 2), 1j * math.sin(a / 2)], dtype=complex)
    return np.array([math.cos(a / 2), math.sin(a / 2)], dtype=complex)


def state_vec(state):
    if hasattr(state, "plane"):
        return planar(state.plane.name, state.angle)
    return np.asarray(state.to_statevector_numpy(), dtype=complex)


# ---------------------------------------------------------------- pattern interpreter


class _Live:
    """Tensor with one axis per live qubit (in `order`) and a last axis for the reference input."""

    def __init__(self, inputs, din):
        self.order = list(inputs)
        self.t = np.eye(din, dtype=complex).reshape((2,) * len(self.order) + (din,))
        self.peak = len(self.order)

    def ax(self, q):
        try:
            return self.order.index(q)
        except ValueError:
            raise RefError(f"qubit {q} is not live") from None

    def prepare(self, q, vec):
        if q in self.order:
            raise RefError(f"qubit {q} prepared twice")
        self.t = vec.reshape((2,) + (1,) * self.t.ndim) * self.t[None]
        self.order.insert(0, q)
        self.peak = max(self.peak, len(self.order))

    def cz(self, a, b):
        ia, ib = self.ax(a), self.ax(b)
        if ia == ib:
            raise RefError("self loop")
        sl = [slice(None)] * self.t.ndim
        sl[ia] = 1
        sl[ib] = 1
        self.t = self.t.copy()
        self.t[tuple(sl)] *= -1

    def gate(self, q, m):
        a = self.ax(q)
        self.t = np.moveaxis(np.tensordot(m, self.t, axes=(1, a)), 0, a)

    def project(self, q, vec):
        a = self.ax(q)
        self.t = np.tensordot(np.conj(vec), self.t, axes=(0, a))
        self.order.pop(a)

    def matrix(self, outputs):
        if sorted(map(repr, outputs)) != sorted(map(repr, self.order)):
            raise RefError(f"outputs {outputs} are not the live qubits {self.order}")
        perm = [self.order.index(q) for q in outputs]
        t = np.transpose(self.t, perm + [self.t.ndim - 1])
        return t.reshape(2 ** len(outputs), -1)


def _nodes_of(cmd):
    k = cmd.kind.name
    if k == "E":
        return tuple(cmd.nodes)
    if k == "T":
        return ()
    return (cmd.node,)


def measured_nodes(cmds):
    return [c.node for c in cmds if c.kind.name == "M"]


def _parity(domain, results):
    p = 0
    for d in domain:
        if d not in results:
            raise RefError(f"outcome of {d} is not available")
        p ^= int(results[d])
    return p


def kraus(cmds, inputs, outputs, results, *, max_live=20, strict_order=False):
    """Unnormalised branch map (2^out x 2^in) of a command sequence for the given outcomes.

    Commands on disjoint qubits commute, so (unless strict_order) they are executed lazily, only
    when a measurement or the end needs them; the map is the same and few qubits are live at once.
    """
    cmds = list(cmds)
    _check_causal(cmds, inputs)
    live = _Live(inputs, 2 ** len(inputs))

    def execute(c):
        k = c.kind.name
        if k == "N":
            live.prepare(c.node, state_vec(c.state))
            if len(live.order) + len(inputs) > max_live:
                raise TooBig("reference too big")
        elif k == "E":
            live.cz(*c.nodes)
        elif k == "X":
            if _parity(c.domain, results):
                live.gate(c.node, X)
        elif k == "Z":
            if _parity(c.domain, results):
                live.gate(c.node, Z)
        elif k == "C":
            live.gate(c.node, CLIFFORD[c.clifford.value])
        elif k == "M":
            o = obs(c.measurement)
            if _parity(c.s_domain, results):
                o = X @ o @ X
            if _parity(c.t_domain, results):
                o = Z @ o @ Z
            live.project(c.node, eigvec(o, int(results[c.node])))
        elif k == "T":
            pass
        else:
            raise RefError(f"unexpected command {k}")

    if strict_order:
        for c in cmds:
            execute(c)
        return live.matrix(outputs), live.peak
    done = [False] * len(cmds)
    pred: list[list[int]] = []
    last: dict = {}
    for i, c in enumerate(cmds):
        ns = _nodes_of(c)
        pred.append([last[q] for q in ns if q in last])
        for q in ns:
            last[q] = i

    def force(i):
        stack = [i]
        while stack:
            j = stack[-1]
            if done[j]:
                stack.pop()
                continue
            todo = [p for p in pred[j] if not done[p]]
            if todo:
                stack.extend(reversed(todo))
            else:
                execute(cmds[j])
                done[j] = True
                stack.pop()

    for i, c in enumerate(cmds):
        if c.kind.name == "M":
            force(i)
    for i in range(len(cmds)):
        if not done[i]:
            force(i)
    return live.matrix(outputs), live.peak


def _check_causal(cmds, inputs):
    """The sequence must make sense in the order it is written (physical realisability)."""
    live = set(inputs)
    measured = set()
    for c in cmds:
        k = c.kind.name
        if k == "N":
            if c.node in live or c.node in measured:
                raise RefError(f"node {c.node} already prepared")
            live.add(c.node)
            continue
        for q in _nodes_of(c):
            if q not in live:
                raise RefError(f"{k} acts on {q}, which is not live")
        if k == "M":
            for d in set(c.s_domain) | set(c.t_domain):
                if d not in measured:
                    raise RefError(f"M on {c.node} depends on {d}, not measured yet")
            live.discard(c.node)
            measured.add(c.node)
        elif k in ("X", "Z"):
            for d in c.domain:
                if d not in measured:
                    raise RefError(f"{k} on {c.node} depends on {d}, not measured yet")
    return live, measured


def pattern_kraus(pattern, results, **kw):
    return kraus(list(pattern), list(pattern.input_nodes), list(pattern.output_nodes), results, **kw)[0]


def branches(nodes, rng, limit):
    """All outcome assignments when there are at most `limit`, else `limit` random distinct ones."""
    nodes = list(nodes)
    if 2 ** len(nodes) <= limit:
        for bits in itertools.product((0, 1), repeat=len(nodes)):
            yield dict(zip(nodes, bits))
        return
    seen = set()
    yield dict.fromkeys(nodes, 0)
    while len(seen) < limit - 1:
        bits = tuple(int(b) for b in rng.integers(0, 2, len(nodes)))
        if bits in seen:
            continue
        seen.add(bits)
        yield dict(zip(nodes, bits))


# ---------------------------------------------------------------- comparisons


def phase_dist(a, b):
    """Distance between a and b minimised over a global phase, relative to their size."""
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    if a.shape != b.shape:
        return math.inf
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if not (math.isfinite(na) and math.isfinite(nb)):
        return math.inf
    scale = max(na, nb)
    if scale < 1e-9:
        return 0.0
    ip = np.vdot(a, b)
    ph = ip / abs(ip) if abs(ip) > 1e-300 else 1.0
    return float(np.linalg.norm(a * ph - b) / scale)


def ray_dist(a, b):
    """As phase_dist, but also ignoring the norm."""
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if na < 1e-12 or nb < 1e-12:
        return 0.0 if na < 1e-12 and nb < 1e-12 else math.inf
    return phase_dist(np.asarray(a) / na, np.asarray(b) / nb)


TOL = 1e-6

# ---------------------------------------------------------------- dense circuits


def apply(mat, qubits, t):
    """Apply a 2^k x 2^k matrix to the given axes of t (qubit i = axis i, extra axes allowed)."""
    k = len(qubits)
    m = mat.reshape((2,) * (2 * k))
    t = np.tensordot(m, t, axes=(list(range(k, 2 * k)), list(qubits)))
    return np.moveaxis(t, list(range(k)), list(qubits))


def rot(p, angle):
    """exp(-i angle*pi/2 P)"""
    a = float(angle) * PI / 2
    return math.cos(a) * np.eye(p.shape[0]) - 1j * math.sin(a) * p


def jmat(alpha):
    """J(alpha) = H . diag(1, e^{i alpha pi})"""
    return H @ np.diag([1, np.exp(1j * float(alpha) * PI)])


def kron(*ms):
    r = np.eye(1, dtype=complex)
    for m in ms:
        r = np.kron(r, m)
    return r


ZZ = np.kron(Z, Z)


def gate_matrix(instr):
    """(matrix, qubits) of a graphix instruction, from the textbook definition of each gate."""
    k = instr.kind.name
    t = getattr(instr, "target", None)
    if k in ("X", "Y", "Z", "H", "S", "I"):
        return {"X": X, "Y": Y, "Z": Z, "H": H, "S": S, "I": I2}[k], (t,)
    if k in ("RX", "RY", "RZ"):
        return rot(PAULI[k[1]], instr.angle), (t,)
    if k == "J":
        return jmat(instr.angle), (t,)
    if k == "CNOT":
        return CNOT, (instr.control, t)
    if k == "CZ":
        return CZ, tuple(instr.targets)
    if k == "SWAP":
        return SWAP, tuple(instr.targets)
    if k == "RZZ":
        return rot(ZZ, instr.angle), (instr.control, t)
    if k == "CCX":
        return CCX, (*instr.controls, t)
    raise RefError(f"unknown instruction {k}")


def circuit_kraus(instrs, width, mresults, psi=None):
    """Branch map of a circuit with mid-circuit measurements.

    `mresults` lists the outcome of each M in program order. Measured qubits disappear; the
    remaining wires keep their order. Returns a matrix (2^live x 2^width), or its image of `psi`.
    """
    live = list(range(width))
    t = np.eye(2**width, dtype=complex) if psi is None else np.asarray(psi, dtype=complex)
    t = t.reshape((2,) * width + (-1,))
    it = iter(mresults)
    for ins in instrs:
        if ins.kind.name == "M":
            a = live.index(ins.target)
            v = eigvec(PAULI[ins.axis.name], next(it))
            t = np.tensordot(np.conj(v), t, axes=(0, a))
            live.pop(a)
            continue
        m, qs = gate_matrix(ins)
        t = apply(m, [live.index(q) for q in qs], t)
    return t.reshape((2 ** len(live), -1) if psi is None else -1), live


# ---------------------------------------------------------------- graph states / linear algebra


def graph_state(nodes, edges):
    n = len(nodes)
    idx = {v: i for i, v in enumerate(nodes)}
    t = np.full((2,) * n, 2 ** (-n / 2), dtype=complex)
    for u, v in edges:
        sl = [slice(None)] * n
        sl[idx[u]] = 1
        sl[idx[v]] = 1
        t[tuple(sl)] *= -1
    return t


def haar_state(rng, n):
    v = rng.normal(size=2**n) + 1j * rng.normal(size=2**n)
    return v / np.linalg.norm(v)


def haar_unitary(rng, d):
    z = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    q, r = np.linalg.qr(z)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def gf2_rank(m):
    m = np.array(m, dtype=np.uint8) % 2
    if m.size == 0:
        return 0
    r = 0
    rows, cols = m.shape
    for c in range(cols):
        p = next((i for i in range(r, rows) if m[i, c]), None)
        if p is None:
            continue
        m[[r, p]] = m[[p, r]]
        for i in range(rows):
            if i != r and m[i, c]:
                m[i] ^= m[r]
        r += 1
        if r == rows:
            break
    return r
