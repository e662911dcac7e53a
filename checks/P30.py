"""Random objects: always valid, of the requested shape, and determined by the given generator."""

import math
import threading
import warnings

import numpy as np

import gen
import ref
from core import Family
from graphix import random_objects as ro
from graphix.fundamentals import ANGLE_PI
from graphix.parameter import Placeholder
from P24 import tripwire

ID = "P30"
QUICK_SCALE = 4
RULE = (
    "Every generator of random_objects with random dimensions, ranks, depths, flags, pairs, parameters (lists and one-shot iterators) and generators. Oracle: the definition of the object (Hermitian, unitary, density matrix of the rank, trace-preserving Kraus operators, normalised vector, gate structure of the circuits); "
    "reproduced from the same seed while a tripwire watches for other random sources; moments of Haar unitaries with Hoeffding bounds. Non-trivial: a dimension or depth >= 2; distinct = arguments and seed."
)
ASSUMPTIONS = ["distribution checks have error probability below 1e-11"]
FLOORS = {"matrices": 800, "channels": 150, "circuits": 300, "gates": 150, "reproduced": 300, "refused": 60, "parameter_gates": 200, "moments": 8, "default_warnings": 60}
WARM = ()


def key(x):
    if hasattr(x, "instruction"):
        return gen.describe(x)
    if hasattr(x, "nqubit"):
        return [(complex(d.coef), np.array(d.operator).tobytes()) for d in x]
    return np.asarray(x).tobytes()


def reproduce(ctx, rng, call, desc):
    """call(rng) twice with the same seed."""
    seed = int(rng.integers(2**62))
    out = []
    for _ in range(2):
        g = np.random.default_rng(seed)
        with tripwire(ctx, desc):
            x = call(g)
        out.append((key(x), repr(g.bit_generator.state)))
    ctx.count("reproduced")
    ctx.check(out[0] == out[1], "reproducible", "the same seed gave two results", **desc)
    y = key(call(np.random.default_rng(int(rng.integers(2**62)))))
    if desc.get("size", 2) >= 2:
        ctx.check(y != out[0][0], "seed-ignored", "two seeds gave the same result", **desc)
    ctx.nontrivial((desc, seed))
    return x


def refuses(ctx, fn, what, exc=ValueError):
    try:
        fn()
    except exc:
        ctx.count("refused")
    else:
        ctx.fail("not-refused", what)


def matrices(ctx, rng, i):
    d = int(rng.integers(1, 9))
    dim = np.int64(d) if gen.chance(rng, 0.3) else d
    h = reproduce(ctx, rng, lambda g: ro.rand_herm(dim, rng=g), {"what": "rand_herm", "size": d})
    ctx.check(h.shape == (d, d) and np.allclose(h, h.conj().T, atol=1e-12) and (d == 1 or np.abs(h.imag).max() > 0), "hermitian", f"rand_herm({d})")
    u = reproduce(ctx, rng, lambda g: ro.rand_unit(dim, rng=g), {"what": "rand_unit", "size": d})
    ctx.check(u.shape == (d, d) and np.allclose(u @ u.conj().T, np.eye(d), atol=1e-9), "unitary", f"rand_unit({d})", result=u)
    r = None if gen.chance(rng, 0.3) else int(rng.integers(1, d + 1))
    rho = reproduce(ctx, rng, lambda g: ro.rand_dm(dim, rng=g, rank=r), {"what": "rand_dm", "size": d})
    ev = np.linalg.eigvalsh(rho)
    ctx.check(rho.shape == (d, d) and np.allclose(rho, rho.conj().T, atol=1e-10) and abs(np.trace(rho) - 1) < 1e-10 and ev.min() > -1e-10, "density-matrix", f"rand_dm({d}, rank={r})", eigenvalues=ev)
    # eigenvalues are uniform draws normalised: below 1e-9 with probability < 1e-7 each, checked as an upper bound only
    ctx.check((ev > 1e-9).sum() <= (r or d), "rank", f"rand_dm({d}, rank={r}) has rank {(ev > 1e-9).sum()}", eigenvalues=ev)
    ctx.check((ev > 1e-14).sum() >= min(r or d, 1) and (r in (None, 1) or d < 2 or (ev > 1e-12).sum() > 1), "rank", f"rand_dm({d}, rank={r}) is degenerate", eigenvalues=ev)
    sig = gen.pick(rng, (None, "ginibre", 0.5, 2.0))
    m = reproduce(ctx, rng, lambda g: ro.rand_gauss_cpx_mat(d, rng=g, sig=sig), {"what": "rand_gauss_cpx_mat", "size": d})
    ctx.check(m.shape == (d, d) and np.iscomplexobj(m) and np.all(np.isfinite(m)) and np.abs(m.imag).min() > 0, "gaussian", f"rand_gauss_cpx_mat({d})")
    n = int(rng.integers(0, 6))
    v = reproduce(ctx, rng, lambda g: ro.rand_state_vector(n, rng=g), {"what": "rand_state_vector", "size": 2**n})
    ctx.check(v.shape == (2**n,) and v.dtype == np.complex128 and abs(np.linalg.norm(v) - 1) < 1e-12, "vector", f"rand_state_vector({n})")
    ctx.count("matrices", 5)


def moments(ctx, rng, i):
    """Haar first and second moments, standard deviations."""
    g = np.random.default_rng(int(rng.integers(2**62)))
    n, d = 3000, 1 + i % 3
    us = np.array([ro.rand_unit(d, rng=g) for _ in range(n)])
    eps = math.sqrt(math.log(2 / 1e-13) / (2 * n))
    ctx.count("moments")
    a = np.abs(us) ** 2
    ctx.check(np.abs(a.mean(axis=0) - 1 / d).max() < eps, "haar", f"mean of |U_ij|^2 in dimension {d}: {a.mean(axis=0)}")
    ctx.check(np.abs((a**2).mean(axis=0) - 2 / (d * (d + 1))).max() < eps if d > 1 else True, "haar", f"mean of |U_ij|^4 in dimension {d}: {(a**2).mean(axis=0)}")
    ctx.check(np.abs(us.mean(axis=0)).max() < 3 * eps, "haar", f"mean of U in dimension {d}: {us.mean(axis=0)}")
    ph = np.exp(1j * np.angle(us[:, 0, 0]))
    ctx.check(abs(ph.mean()) < 3 * eps and abs((ph**2).mean()) < 3 * eps, "haar", f"phases of U_00 in dimension {d}")
    for sig, s in ((None, 1 / math.sqrt(2)), ("ginibre", 1 / math.sqrt(2 * d)), (3.0, 3.0)):
        x = np.array([ro.rand_gauss_cpx_mat(d, rng=g, sig=sig) for _ in range(n)]).reshape(-1)
        for part in (x.real, x.imag):
            k = (np.abs(part) < s * 0.6744897501960817).mean()  # median of |N(0, s)|
            ctx.check(abs(k - 0.5) < eps, "deviation", f"standard deviation of rand_gauss_cpx_mat(sig={sig}): {part.std()} instead of {s}")
            ctx.check(abs((part > 0).mean() - 0.5) < eps, "deviation", "sign of rand_gauss_cpx_mat")
    v = np.array([ro.rand_state_vector(2, rng=g) for _ in range(n)])
    ctx.check(np.abs(v.mean(axis=0)).max() < 3 * eps and np.abs((np.abs(v) ** 2).mean(axis=0) - 0.25).max() < eps, "vector-bias", "moments of rand_state_vector")
    ctx.nontrivial((i, us[0].tobytes()))


def channels(ctx, rng, i):
    dim = 2 ** int(rng.integers(1, 4)) if i % 3 else int(gen.pick(rng, (2, 4)))
    r = None if gen.chance(rng, 0.3) and dim < 8 else int(rng.integers(1, min(dim**2, 10) + 1))
    sig = gen.pick(rng, (None, "ginibre", 0.7))
    if i % 2:
        c = reproduce(ctx, rng, lambda g: ro.rand_channel_kraus(dim, rng=g, rank=r, sig=sig), {"what": "rand_channel_kraus", "dim": dim, "rank": r})
    else:
        c = reproduce(ctx, rng, lambda g: ro.rand_pauli_channel_kraus(dim, rng=g, rank=r), {"what": "rand_pauli_channel_kraus", "dim": dim, "rank": r, "size": 1 if r == 1 else 2})
    want = dim**2 if r is None else r
    ops = [complex(d.coef) * np.array(d.operator) for d in c]
    ctx.count("channels")
    ctx.check(len(ops) == want and len(c) == want and c.nqubit == dim.bit_length() - 1 and all(o.shape == (dim, dim) for o in ops), "channel-size", f"{len(ops)} operators on {c.nqubit} qubits instead of {want} of dimension {dim}")
    s = sum(o.conj().T @ o for o in ops)
    ctx.check(np.allclose(s, np.eye(dim), atol=1e-7), "trace-preserving", "random channel not trace preserving", sum=s)
    if i % 2 == 0:
        n = dim.bit_length() - 1
        seen = set()
        for o in ops:
            w = np.linalg.norm(o) / math.sqrt(dim)
            hit = [x for x in range(4**n) if np.allclose(o / w, word(n, x), atol=1e-9)]
            ctx.check(len(hit) == 1, "pauli-channel", "operator of the Pauli channel is not a Pauli", operator=o)
            seen.add(hit[0])
        ctx.check(len(seen) == want, "pauli-channel", "a Pauli occurs twice in the channel")
    else:
        gram = np.array([o.reshape(-1) for o in ops])
        ctx.check(np.linalg.matrix_rank(gram, tol=1e-9) == want, "channel-rank", f"Choi rank is not {want}")
    refuses(ctx, lambda: ro.rand_channel_kraus(dim, rng=rng, rank=gen.pick(rng, (0, -1))), "channel of rank < 1")
    refuses(ctx, lambda: ro.rand_pauli_channel_kraus(dim, rng=rng, rank=gen.pick(rng, (0, -2))), "Pauli channel of rank < 1")
    refuses(ctx, lambda: ro.rand_pauli_channel_kraus(int(gen.pick(rng, (3, 5, 6, 7))), rng=rng), "Pauli channel on a dimension that is not a power of 2")


def word(n, x):
    m = np.eye(1)
    for k in range(n):
        m = np.kron(m, ref.PAULI["IXYZ"[x >> (2 * k) & 3]])
    return m


SINGLE = {("RY", 0.25), ("RZ", -0.25), ("RX", -0.25), ("H", None), ("S", None), ("X", None), ("Y", None), ("Z", None)}


def operands(k):
    name = k.kind.name
    if name in ("CNOT", "RZZ"):
        return (k.control, k.target)
    if name == "CCX":
        return (*k.controls, k.target)
    if name in ("CZ", "SWAP"):
        return tuple(k.targets)
    return (k.target,)


def circuits(ctx, rng, i):
    n, depth = int(rng.integers(2, 7)), int(rng.integers(0, 7))
    fl = {f: gen.chance(rng, 0.5) for f in ("use_j", "use_cz", "use_rzz", "use_ccx")}
    if n < 3:
        fl["use_ccx"] = False
    given = {f: v for f, v in fl.items() if v != (f in ("use_j", "use_cz")) or gen.chance(rng, 0.5)}
    ps = [Placeholder(f"p{k}") for k in range(int(rng.integers(0, 4)))]
    form = int(rng.integers(4))
    mk = (lambda: list(ps), lambda: tuple(ps), lambda: iter(ps), lambda: (p for p in ps))[form]
    pk = {} if not ps and gen.chance(rng, 0.5) else {"parameters": mk}

    def call(g):
        return ro.rand_circuit(n, depth, g, **given, **{a: b() for a, b in pk.items()})

    c = reproduce(ctx, rng, call, {"what": "rand_circuit", "n": n, "size": 1 if depth < 4 else depth, "flags": given, "parameters": len(ps), "form": form})
    ctx.count("circuits")
    ctx.check(c.width == n and not [k for k in c.instruction if k.kind.name == "M"], "circuit", "width or measurements of a random circuit")
    it = iter(c.instruction)

    def take(name, count):
        for _ in range(count):
            k = next(it, None)
            ctx.check(k is not None and k.kind.name == name and len(set(operands(k))) == len(operands(k)) and all(0 <= q < n for q in operands(k)), "layer", f"{k} instead of a {name}", circuit=gen.describe(c))
            if name == "RZZ":
                ctx.check(k.angle == ANGLE_PI / 4, "layer", "angle of RZZ")

    allowed = SINGLE | ({("J", 0.25)} if fl["use_j"] else set())
    for _ in range(depth):
        take("CNOT", 2)
        take("CZ", 2 * fl["use_cz"])
        take("RZZ", 2 * fl["use_rzz"])
        take("CCX", 2 * fl["use_ccx"])
        take("SWAP", 2)
        for q in range(n):
            k = next(it, None)
            ctx.check(k is not None and operands(k) == (q,), "layer", f"{k} instead of a gate on qubit {q}", circuit=gen.describe(c))
            a = getattr(k, "angle", None)
            if a is not None and not isinstance(a, (int, float)):
                ctx.check(k.kind.name in ("RX", "RY", "RZ") and any(a is p or a == p for p in ps), "parameter", f"unexpected parameter in {k}")
                ctx.count("parameter_gates")
            else:
                ctx.check((k.kind.name, a if a is None else a / ANGLE_PI) in allowed, "gate-set", f"gate {k} not in the gate set", flags=fl)
    ctx.check(next(it, None) is None, "layer", "more gates than layers", circuit=gen.describe(c))


def variety(ctx, rng, i):
    """Every gate of the gate set, every parameter in every rotation, every pair occurs in long circuits."""
    ps = [Placeholder(f"p{k}") for k in range(2)]
    g = np.random.default_rng(int(rng.integers(2**62)))
    one_shot = i % 2
    c = ro.rand_circuit(3, 1400, g, parameters=iter(ps) if one_shot else ps, use_ccx=True, use_rzz=True)
    singles = [k for k in c.instruction if len(operands(k)) == 1]
    got = {(k.kind.name, getattr(k, "angle", None)) for k in singles}
    want = {(a, b) for a, b in SINGLE | {("J", 0.25)}} | {(r, p) for r in ("RX", "RY", "RZ") for p in ps}
    # 15 equiprobable choices, 4200 draws: missing one has probability 15 * (14/15)**4200 < 1e-100
    ctx.check(len(got) == len(want) and all(any(n == m and (a == b) for m, b in got) for n, a in want), "variety", f"{sorted(map(str, got))} instead of {sorted(map(str, want))}")
    for name in ("CNOT", "CZ", "RZZ", "SWAP", "CCX"):
        s = [operands(k) for k in c.instruction if k.kind.name == name]
        ctx.check(len(set(s)) == 6, "variety", f"operands of {name}: {set(s)}")
        # two independent draws per layer: 36 combinations, 1400 layers, missing one has probability 36 * (35/36)**1400 < 1e-15
        ctx.check(len(set(zip(s[::2], s[1::2], strict=True))) == 36, "variety", f"the two {name} gates of a layer are not drawn independently")
    ctx.count("parameter_gates", sum(1 for k in singles if not isinstance(getattr(k, "angle", 0.0), (int, float, type(None)))))
    ctx.nontrivial(gen.describe(c)[:300])


def gates(ctx, rng, i):
    n, depth = int(rng.integers(2, 6)), int(rng.integers(1, 6))
    pairs = [tuple(int(x) for x in rng.permutation(n)[:2]) for _ in range(int(rng.integers(0, 4)))]
    rzz = gen.chance(rng, 0.5)
    form = int(rng.integers(3))
    mk = (lambda: pairs, lambda: iter(pairs), lambda: tuple(pairs))[form]
    c = reproduce(ctx, rng, lambda g: ro.rand_gate(n, depth, mk(), g, use_rzz=rzz), {"what": "rand_gate", "n": n, "depth": depth, "pairs": pairs, "rzz": rzz, "form": form})
    ctx.count("gates")
    seq = [("RX", (q,)) for q in range(n)]
    ent = [("RZZ" if rzz else "CNOT", p) for p in pairs]
    seq += ent
    for _ in range(depth - 1):
        seq += [x for q in range(n) for x in (("RX", (q,)), ("RZ", (q,)))] + ent
    seq += [("RZ", (q,)) for q in range(n)]
    got = [(k.kind.name, operands(k)) for k in c.instruction]
    ctx.check(c.width == n and got == seq, "rand-gate", f"rand_gate({n}, {depth}, {pairs}, use_rzz={rzz}) has the gates {got}")
    an = [k.angle for k in c.instruction if hasattr(k, "angle")]
    ctx.check(len(set(an)) == len(an) and all(isinstance(a, float) and 0 <= a < 1 for a in an), "rand-gate", "angles of rand_gate are not independent draws")


def default(ctx, rng, i):
    """Without generator: a warning."""
    calls = {
        "herm": lambda **k: ro.rand_herm(2, **k),
        "unit": lambda **k: ro.rand_unit(int(rng.integers(1, 3)), **k),
        "dm": lambda **k: ro.rand_dm(2, **k),
        "gauss": lambda **k: ro.rand_gauss_cpx_mat(2, **k),
        "channel": lambda **k: ro.rand_channel_kraus(2, **k),
        "pauli": lambda **k: ro.rand_pauli_channel_kraus(2, **k),
        "gate": lambda **k: ro.rand_gate(2, 1, [(0, 1)], **k),
        "circuit": lambda **k: ro.rand_circuit(2, 2, **k),
        "vector": lambda **k: ro.rand_state_vector(2, **k),
    }
    name = sorted(calls)[i % len(calls)]
    f = calls[name]
    out = []

    def attempt():
        for sl in (1, 2):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter("always")
                f(stacklevel=sl)
            ws = [x for x in w if "Default random-number generator" in str(x.message)]
            out.append((sl, [(x.filename, x.lineno) for x in ws]))

    if i % 2:
        t = threading.Thread(target=attempt)
        t.start()
        t.join()
    else:
        attempt()
    ctx.check(len(out) == 2, "default", f"{name} without generator failed")
    for sl, ws in out:
        ctx.check(ws, "no-warning", f"{name}(stacklevel={sl}) without generator: no warning")
        ctx.count("default_warnings", len(ws))
    ctx.nontrivial((name, i))


FAMILIES = [
    Family("matrices", matrices, 160, 3000),
    Family("moments", moments, 12, 90),
    Family("channels", channels, 160, 2500),
    Family("circuits", circuits, 320, 6000),
    Family("variety", variety, 6, 100),
    Family("gates", gates, 160, 3000),
    Family("default", default, 45, 180),
]
