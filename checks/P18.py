"""Pauli strings, tableaux and the synthesis of Clifford maps and Pauli exponentials."""

import itertools

import numpy as np

import gen
import ref
from core import Family
from graphix._linalg import MatGF2
from graphix.circ_ext.compilation import cm_berg_pass, pexp_ladder_pass
from graphix.circ_ext.extraction import CliffordMap, ExtractionResult, PauliExponential, PauliExponentialDAG, PauliString
from graphix.fundamentals import Axis, Sign
from graphix.transpiler import Circuit

ID = "P18"
QUICK_SCALE = 5
RULE = (
    "Random Clifford maps (images of the generators under random words in H, S, CNOT, SWAP, Paulis computed by an independent tableau or by dense conjugation; all 24 on one qubit and all signs and words on two), random DAGs of Pauli exponentials and random Pauli strings. "
    "Oracle: conjugating every generator by the synthesised circuit gives the map's images with signs; the circuit of a DAG equals the product of dense exponentials in layer order; strings round-trip through text and tableau. "
    "Non-trivial: at least two qubits; distinct = map or DAG."
)
ASSUMPTIONS = ["dense reference up to 5 qubits, tableau reference up to 24 qubits"]
FLOORS = {"clifford_maps": 900, "generators": 3500, "dags": 500, "exponentials": 1200, "strings": 600, "minus_signs": 1500, "refusals": 100}
WARM = ()


# ---- independent Pauli conjugation: a Pauli is (list of letters, sign)
_MUL = {("X", "Y"): ("Z", 1), ("Y", "Z"): ("X", 1), ("Z", "X"): ("Y", 1), ("Y", "X"): ("Z", -1), ("Z", "Y"): ("X", -1), ("X", "Z"): ("Y", -1)}


def mul1(a, b):
    """letter product: (letter, power of i)"""
    if a == "I":
        return b, 0
    if b == "I":
        return a, 0
    if a == b:
        return "I", 0
    c, s = _MUL[a, b]
    return c, (1 if s == 1 else 3)


def mul(p, q):
    (a, pa), (b, pb) = p, q
    out, ph = [], pa + pb
    for x, y in zip(a, b):
        c, k = mul1(x, y)
        out.append(c)
        ph += k
    return out, ph % 4


SINGLE = {
    "H": {"X": ("Z", 0), "Y": ("Y", 2), "Z": ("X", 0)},
    "S": {"X": ("Y", 0), "Y": ("X", 2), "Z": ("Z", 0)},
    "X": {"X": ("X", 0), "Y": ("Y", 2), "Z": ("Z", 2)},
    "Y": {"X": ("X", 2), "Y": ("Y", 0), "Z": ("Z", 2)},
    "Z": {"X": ("X", 2), "Y": ("Y", 2), "Z": ("Z", 0)},
}


def conj(p, gate):
    """g P g^dagger for a gate (name, qubits)."""
    (a, ph), (name, qs) = p, gate
    a = list(a)
    if name in SINGLE:
        q = qs[0]
        if a[q] != "I":
            a[q], k = SINGLE[name][a[q]]
            ph += k
        return a, ph % 4
    if name == "SWAP":
        c, t = qs
        a[c], a[t] = a[t], a[c]
        return a, ph
    if name == "I":
        return a, ph
    c, t = qs  # CNOT: X_c -> X_c X_t, Z_t -> Z_c Z_t
    n = len(a)

    def two(cc, tt):
        v = ["I"] * n
        v[c], v[t] = cc, tt
        return v, 0

    img_c = {"I": two("I", "I"), "X": two("X", "X"), "Y": two("Y", "X"), "Z": two("Z", "I")}[a[c]]
    img_t = {"I": two("I", "I"), "X": two("I", "X"), "Y": two("Z", "Y"), "Z": two("Z", "Z")}[a[t]]
    rest = [x if j not in (c, t) else "I" for j, x in enumerate(a)]
    return mul(mul((rest, ph), img_c), img_t)


def conj_word(p, word):
    for g in word:
        p = conj(p, g)
    assert p[1] in (0, 2)
    return p


def gen_pauli(n, k, letter):
    v = ["I"] * n
    v[k] = letter
    return v, 0


def to_ps(p):
    a, ph = p
    return PauliString(len(a), {i: Axis[x] for i, x in enumerate(a) if x != "I"}, Sign.MINUS if ph == 2 else Sign.PLUS)


def letters(ps):
    return [ps.axes[i].name if i in ps.axes else "I" for i in range(ps.dim)], (2 if ps.sign.name == "MINUS" else 0)


def random_word(rng, n, length):
    w = []
    for _ in range(length):
        if n > 1 and rng.random() < 0.5:
            a, b = (int(x) for x in rng.permutation(n)[:2])
            w.append((gen.pick(rng, ("CNOT", "CNOT", "CNOT", "SWAP")), (a, b)))
        else:
            w.append((gen.pick(rng, ("H", "S", "H", "S", "X", "Y", "Z")), (int(rng.integers(n)),)))
    return w


def circuit_word(c):
    w = []
    for ins in c.instruction:
        k = ins.kind.name
        if k == "CNOT":
            w.append(("CNOT", (ins.control, ins.target)))
        elif k == "SWAP":
            w.append(("SWAP", tuple(ins.targets)))
        elif k in (*SINGLE, "I"):
            w.append((k, (ins.target,)))
        else:
            raise AssertionError(k)
    return w


def judge_map(ctx, word, n):
    xs = [conj_word(gen_pauli(n, k, "X"), word) for k in range(n)]
    zs = [conj_word(gen_pauli(n, k, "Z"), word) for k in range(n)]
    cm = CliffordMap([to_ps(p) for p in xs], [to_ps(p) for p in zs], list(range(n)), list(range(n)))
    tab = cm.to_tableau()
    ctx.check(tab.shape == (2 * n, 2 * n + 1), "tableau-shape", f"{tab.shape}")
    for r, (a, ph) in enumerate([*xs, *zs]):
        row = [int(x in "XY") for x in a] + [int(x in "YZ") for x in a] + [ph // 2]
        ctx.check(np.array_equal(np.asarray(tab[r]), row), "tableau", f"row {r} of the tableau", word=word)
        ctx.count("minus_signs", ph // 2)
    before = repr(cm)
    c = Circuit(n)
    cm_berg_pass(cm, c)
    ctx.check(repr(cm) == before, "map-modified", "the synthesis modified the map")
    w = circuit_word(c)
    for k in range(n):
        for letter, want in (("X", xs[k]), ("Z", zs[k])):
            got = conj_word(gen_pauli(n, k, letter), w)
            ctx.count("generators")
            ctx.check(tuple(got[0]) == tuple(want[0]) and got[1] == want[1], "clifford-synthesis", f"image of {letter}_{k} is {got} instead of {want}", word=word, circuit=gen.describe(c))
    ctx.count("clifford_maps")
    if n > 1:
        ctx.nontrivial(repr((xs, zs)))
    return cm, c


def clifford_maps(ctx, rng, i):
    n = int(rng.integers(1, 7)) if rng.random() < 0.9 else int(rng.integers(7, 25))
    word = random_word(rng, n, int(rng.integers(0, 6 * n)) if rng.random() < 0.9 else 30 * n)
    cm, c = judge_map(ctx, word, n)
    ctx.sample(gen.describe(c))
    if n <= 4:
        # the synthesised circuit is also the same unitary up to phase (dense)
        u = np.eye(2**n, dtype=complex)
        for name, qs in word:
            g = {"H": ref.H, "S": ref.S, "X": ref.X, "Y": ref.Y, "Z": ref.Z, "CNOT": ref.CNOT, "SWAP": ref.SWAP}[name]
            u = ref.apply(g, list(qs), u.reshape((2,) * n + (2**n,))).reshape(2**n, 2**n)
        k, _ = ref.circuit_kraus(c.instruction, n, ())
        d = ref.phase_dist(u, k)
        ctx.check(d < ref.TOL, "clifford-unitary", f"synthesised circuit differs from the Clifford ({d:.3g})", word=word)


_SMALL = [list(w) for r in range(0, 4) for w in itertools.product([("H", (0,)), ("S", (0,)), ("H", (1,)), ("S", (1,)), ("CNOT", (0, 1)), ("CNOT", (1, 0)), ("SWAP", (0, 1))], repeat=r)]


def small_words(ctx, rng, i):
    judge_map(ctx, _SMALL[i % len(_SMALL)] + random_word(rng, 2, 2), 2)


def all_signs(ctx, rng, i):
    """Every Pauli correction on top of a random word on 2 qubits."""
    a, b = divmod(i % 16, 4)
    w = random_word(rng, 2, int(rng.integers(0, 10)))
    judge_map(ctx, w + [("IXYZ"[a], (0,)), ("IXYZ"[b], (1,))], 2)


def random_string(rng, n, p=0.6):
    axes = {q: gen.pick(rng, gen.AXES) for q in rng.permutation(n).astype(int).tolist() if rng.random() < p}
    return PauliString(n, axes, gen.pick(rng, (Sign.PLUS, Sign.MINUS)))


def ps_matrix(ps):
    a, ph = letters(ps)
    return ref.kron(*(ref.PAULI[x] for x in a)) * (1 - ph)


def dags(ctx, rng, i):
    """The ladder pass implements the exponentials in an order compatible with the layers."""
    n = int(rng.integers(1, 5)) if rng.random() < 0.85 else int(rng.integers(5, 8))
    outs = [int(x) for x in rng.permutation(40)[:n]]
    nodes = [50 + int(x) for x in rng.permutation(40)[: int(rng.integers(0, 6 if rng.random() < 0.85 else 14))]]
    layers, todo, exps = [set(outs)], list(nodes), {}
    while todo:
        layer = []
        for v in todo[: int(rng.integers(1, 7))]:
            ps = random_string(rng, n)
            # strings of one layer must commute
            if all(sum(1 for q in ps.axes if q in o.axes and ps.axes[q] != o.axes[q]) % 2 == 0 for o in (exps[w].pauli_string for w in layer)):
                exps[v] = PauliExponential(gen.angle(rng, 0.3) if rng.random() < 0.8 else gen.pick(rng, (0, 0.5, -0.5, 1, -1, 0.25, -0.75, 2, 1.5)), ps)
                layer.append(v)
        todo = [v for v in todo if v not in exps]
        layers.append(set(layer))
    dag = PauliExponentialDAG(exps, layers, outs)
    c = Circuit(n)
    prefix = random_word(rng, n, 3)
    for name, qs in prefix:
        getattr(c, name.lower())(*qs)
    pexp_ladder_pass(dag, c)
    k, _ = ref.circuit_kraus(c.instruction, n, ())
    c0 = Circuit(n)
    for name, qs in prefix:
        getattr(c0, name.lower())(*qs)
    u, _ = ref.circuit_kraus(c0.instruction, n, ())
    for layer in reversed(layers[1:]):
        for v in sorted(layer):
            e = exps[v]
            a = float(e.angle) * np.pi
            u = (np.cos(a) * np.eye(2**n) + 1j * np.sin(a) * ps_matrix(e.pauli_string)) @ u
    d = ref.phase_dist(k, u)
    ctx.count("dags")
    ctx.count("exponentials", len(exps))
    if n > 1 and exps:
        ctx.nontrivial(repr(dag))
    ctx.check(d < ref.TOL, "ladder", f"circuit differs from the exponentials ({d:.3g})", dag=repr(dag), circuit=gen.describe(c))
    # Clifford map first, then the exponentials; also with custom passes
    w = random_word(rng, n, 6)
    cm = CliffordMap([to_ps(conj_word(gen_pauli(n, k, "X"), w)) for k in range(n)], [to_ps(conj_word(gen_pauli(n, k, "Z"), w)) for k in range(n)], list(range(n)), outs)
    calls = []
    er = ExtractionResult(dag, cm)
    full = er.to_circuit()
    kf, _ = ref.circuit_kraus(full.instruction, n, ())
    c1, c2 = Circuit(n), Circuit(n)
    cm_berg_pass(cm, c1)
    pexp_ladder_pass(dag, c2)
    k1, _ = ref.circuit_kraus(c1.instruction, n, ())
    k2, _ = ref.circuit_kraus(c2.instruction, n, ())
    ctx.check(ref.phase_dist(kf, k2 @ k1) < ref.TOL, "er-order", "extraction result is not the Clifford followed by the exponentials", er=repr(er))
    custom = er.to_circuit(pexp_cp=lambda d_, c_: (calls.append(("p", d_ is dag)), pexp_ladder_pass(d_, c_))[0], cm_cp=lambda m_, c_: (calls.append(("c", m_ is cm)), cm_berg_pass(m_, c_))[0])
    ctx.check(calls == [("c", True), ("p", True)], "custom-passes", f"custom passes called as {calls}")
    kc, _ = ref.circuit_kraus(custom.instruction, n, ())
    ctx.check(ref.phase_dist(kf, kc) < ref.TOL, "custom-passes", "custom passes give another circuit")


def strings(ctx, rng, i):
    n = int(rng.integers(0, 9))
    ps = random_string(rng, n, float(rng.random()))
    a, ph = letters(ps)
    text = ("-" if ph else gen.pick(rng, ("+", ""))) + "".join(a)
    ctx.count("strings")
    if text:
        q = PauliString.from_str(text)
        ctx.check((q.dim, dict(q.axes), q.sign) == (ps.dim, dict(ps.axes), ps.sign), "from-str", f"{text} parsed as {q}")
    ctx.check(str(ps) == ("-" if ph else "+") + "".join(a), "str", f"{ps!r} prints as {ps}")
    tab = ps.to_tableau()
    want = [int(x in "XY") for x in a] + [int(x in "YZ") for x in a] + [ph // 2]
    ctx.check(np.array_equal(np.asarray(tab), want), "to-tableau", f"{ps} -> {tab}")
    q = PauliString.from_tableau(MatGF2(np.array(want, dtype=np.uint8)))
    ctx.check((q.dim, dict(q.axes), q.sign) == (ps.dim, dict(ps.axes), ps.sign), "from-tableau", f"{want} -> {q}")
    text = text or "Z"
    bad = gen.pick(rng, ("*" + text, text + "A", text + "+X", "x" + text, text + " "))
    for f, arg in ((PauliString.from_str, bad), (PauliString.from_tableau, MatGF2(np.zeros(2 * n, dtype=np.uint8))), (PauliString.from_tableau, MatGF2(np.zeros((2, 2 * n + 1), dtype=np.uint8)))):
        try:
            f(arg)
        except ValueError:
            ctx.count("refusals")
            continue
        ctx.fail("refusal", f"{arg!r} accepted")


FAMILIES = [
    Family("clifford_maps", clifford_maps, 900, 60000),
    Family("small_words", small_words, 400, 8000),
    Family("all_signs", all_signs, 320, 16000),
    Family("dags", dags, 700, 40000),
    Family("strings", strings, 900, 20000),
]
