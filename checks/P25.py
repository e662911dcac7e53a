"""Single-qubit Clifford, Pauli and measurement algebra against dense 2x2 matrices."""

import itertools
import math

import numpy as np

import gen
import mon
import ref
from core import Family
from graphix.clifford import Clifford, Domains
from graphix.fundamentals import Axis, ComplexUnit, I, IXYZ_VALUES, Plane, Sign, angle_to_rad, rad_to_angle
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.ops import Ops
from graphix.parameter import Placeholder
from graphix.pauli import Pauli
from graphix.states import BasicStates, PlanarState

ID = "P25"
QUICK_SCALE = 2
RULE = (
    "The 24 Cliffords: all products, inverses, decompositions, Pauli conjugations, domains and open graphs (exhaustive); random words; random unitaries for try_from_matrix; random measurements with concrete and symbolic angles under all Cliffords; "
    "all pairs of Paulis, units and signs; random angles for planes, states and rotation matrices. Oracle: 2x2 complex matrices built from H, S, Z and the definition of planes. Non-trivial: a non-identity Clifford or a generic angle; distinct = Clifford/measurement/matrix."
)
ASSUMPTIONS = ["matrices compared up to a global phase with tolerance 1e-6; symbolic angles only affine (Placeholder)"]
FLOORS = {"clifford_products": 576, "domains": 24 * 16, "graphs": 24, "measurements": 9000, "symbolic": 1500, "found": 800, "not_found": 400, "pauli_products": 256, "units": 100, "rotations": 300, "paulis_recognised": 120, "readonly": 30}
WARM = ()
EPS = 1e-9
ALL = tuple(Clifford)


def near(a, b, tol=1e-9):
    return np.shape(a) == np.shape(b) and np.allclose(a, b, atol=tol, rtol=0)


def unit(u):
    return complex({"ONE": 1, "J": 1j, "MINUS_ONE": -1, "MINUS_J": -1j}[u.name])


def pmat(p):
    return unit(p.unit) * ref.PAULI["I" if p.symbol == I else p.symbol.name]


def mobs(m):
    return ref.obs(m)


QASM = {"id": ref.I2, "x": ref.X, "y": ref.Y, "z": ref.Z, "s": ref.S, "sdg": ref.S.conj().T, "h": ref.H}
NAMES = {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z, "S": ref.S, "SDG": ref.S.conj().T, "H": ref.H}


def cliffords(ctx, rng, i):
    c = ALL[i % 24]
    m = ref.CLIFFORD[i % 24]
    ctx.nontrivial(i % 24)
    ctx.check(c.value == i % 24, "numbering", f"{c!r} has number {c.value}")
    ctx.check(ref.phase_dist(c.matrix, m) < EPS, "matrix", f"matrix of Clifford {c.value}")
    try:
        c.matrix[0, 0] = 7
        ctx.fail("writable", f"the matrix of {c!r} can be modified")
    except ValueError:
        ctx.count("readonly")
    for d in ALL:
        ctx.count("clifford_products")
        ctx.check(ref.phase_dist((c @ d).matrix, m @ ref.CLIFFORD[d.value]) < EPS, "product", f"{c.value} @ {d.value} = {(c @ d).value}")
    ctx.check(ref.phase_dist(c.conj.matrix, m.conj().T) < EPS, "conj", f"conj of {c.value} is {c.conj.value}")
    w = ref.I2
    for g in c.hsz:
        ctx.check(g in (Clifford.I, Clifford.H, Clifford.S, Clifford.Z), "hsz", f"{g} in the decomposition of {c.value}")
        w = w @ ref.CLIFFORD[g.value]
    ctx.check(ref.phase_dist(w, m) < EPS, "hsz", f"decomposition of {c.value}")
    w = ref.I2
    for g in c.qasm3:
        w = QASM[g] @ w
    ctx.check(ref.phase_dist(w, m) < EPS, "qasm3", f"qasm3 decomposition {c.qasm3} of {c.value}")
    ctx.check(eval(repr(c)) is c, "repr", f"{c!r}")  # noqa: S307
    for name, mat in NAMES.items():
        ctx.check(ref.phase_dist(getattr(Clifford, name).matrix, mat) < EPS, "names", f"Clifford.{name}")
    for ax in Axis:
        p = c.measure_axis(ax)
        ctx.check(near(pmat(p), m.conj().T @ ref.PAULI[ax.name] @ m), "measure-axis", f"C{c.value}: {ax} -> {p}")
        ctx.check(ax.clifford(c).name == p.symbol.name, "axis-clifford", f"{ax}.clifford({c!r})")
    for p in Pauli:
        q = c.measure(p)
        ctx.check(near(pmat(q), m.conj().T @ pmat(p) @ m), "measure", f"C{c.value}: {p} -> {q}")
    for pl in Plane:
        got = pl.clifford(c)
        axes = {x for x in "XYZ" if any(abs(np.trace(m.conj().T @ ref.PAULI[a.name] @ m @ ref.PAULI[x])) > 1 for a in pl.axes)}
        ctx.check(set(got.name) == axes, "plane-clifford", f"{pl}.clifford({c!r}) = {got}")
    for s, t in itertools.product(([], [1], [1, 2], [2, 3]), repeat=2):
        dom = Domains(set(s), set(t))
        new = c.commute_domains(dom)
        ctx.count("domains")
        ctx.check((dom.s_domain, dom.t_domain) == (set(s), set(t)), "domains-argument", "commute_domains modifies its argument")
        ctx.check(new.s_domain is not dom.s_domain and new.t_domain is not dom.t_domain, "domains-alias", "commute_domains returns the sets it was given")
        for bits in itertools.product((0, 1), repeat=3):
            par = lambda d: sum(bits[x - 1] for x in d) % 2  # noqa: E731
            l = np.linalg.matrix_power(ref.X, par(s)) @ np.linalg.matrix_power(ref.Z, par(t)) @ m
            r = m @ np.linalg.matrix_power(ref.X, par(new.s_domain)) @ np.linalg.matrix_power(ref.Z, par(new.t_domain))
            ctx.check(ref.phase_dist(l, r) < EPS, "domains", f"C{c.value}: X^{s} Z^{t} -> {new}")
    og = c.to_opengraph()
    ctx.count("graphs")
    ctx.check(len(og.input_nodes) == 1 and len(og.output_nodes) == 1 and not og.output_cliffords, "graph", f"open graph of {c.value}")
    ctx.check(all(isinstance(x, PauliMeasurement) for x in og.measurements.values()), "graph", "measurements are not Pauli")
    ctx.check(ref.ray_dist(mon.og_map(og), m) < ref.TOL, "graph-map", f"open graph of Clifford {c.value} implements another gate")
    f = og.to_pauliflow_or_none()
    ctx.check(f is not None, "graph-flow", f"no Pauli flow in the open graph of {c.value}")
    for a in (c.__matmul__(3), c.__matmul__(None), c.__matmul__(c.matrix)):
        ctx.check(a is NotImplemented, "matmul-type", "product with something that is not a Clifford")
    ctx.sample({"clifford": repr(c), "qasm3": c.qasm3})


def words(ctx, rng, i):
    """try_from_matrix on accumulated products, phases, scales, near misses and generic matrices."""
    n = int(rng.integers(1, 40))
    w = [gen.pick(rng, ALL) for _ in range(n)]
    prod = Clifford.I
    mat = ref.I2
    for c in w:
        prod = prod @ c
        mat = mat @ c.matrix
    ctx.check(ref.phase_dist(prod.matrix, mat) < EPS, "word", f"product of {n} Cliffords")
    phase = np.exp(1j * rng.uniform(0, 7)) * (1.0 if gen.chance(rng, 0.7) else float(rng.uniform(0.1, 10)))
    given = mat * phase
    keep = given.copy()
    got = Clifford.try_from_matrix(given)
    ctx.count("found")
    ctx.sample({"matrix": given.tolist(), "clifford": repr(prod)})
    ctx.nontrivial((prod.value, n))
    ctx.check(got is prod, "from-matrix", f"matrix of {prod!r} found as {got!r}", matrix=given.tolist())
    ctx.check(np.array_equal(given, keep), "from-matrix-argument", "matrix modified")
    if gen.chance(rng, 0.3):
        u = np.asarray([[complex(round(x.real), round(x.imag)) for x in row] for row in given / given[np.unravel_index(np.argmax(abs(given)), (2, 2))]])
        if ref.phase_dist(u / np.linalg.norm(u), mat / np.linalg.norm(mat)) < EPS:
            ctx.check(Clifford.try_from_matrix(u) is prod, "from-matrix", "matrix with exact zeros")
    kind = int(rng.integers(4))
    if kind == 0:
        bad = ref.haar_unitary(rng, 2)
    elif kind == 1:
        bad = mat @ np.diag([1, np.exp(1j * math.pi * gen.pick(rng, (0.25, 0.75, 1.25, 1.75, 0.01)))])
    elif kind == 2:
        bad = rng.normal(size=(2, 2)) + 0j
    else:
        bad = mat.copy()
        bad[int(rng.integers(2)), int(rng.integers(2))] += gen.pick(rng, (0.1, 1j, -0.05))
    if min(ref.phase_dist(bad / np.linalg.norm(bad), k / np.linalg.norm(k)) for k in ref.CLIFFORD) > 1e-3:
        ctx.count("not_found")
        ctx.check(Clifford.try_from_matrix(bad) is None, "from-matrix-none", "a matrix that is no Clifford is recognised", matrix=bad.tolist())
    shape = gen.pick(rng, ((4, 4), (2,), (1, 2), (2, 3), (2, 2, 1)))
    ctx.check(Clifford.try_from_matrix(np.ones(shape)) is None, "from-matrix-shape", f"shape {shape}")
    ctx.check(Clifford.try_from_matrix(np.zeros((2, 2))) is None, "from-matrix-zero", "zero matrix")


def measurement_ok(ctx, got, want_obs, what, **detail):
    ctx.check(near(mobs(got), want_obs, 1e-7), what, f"{got!r}", **detail)


def measurements(ctx, rng, i):
    a = gen.angle(rng, 0.35)
    plane = gen.pick(rng, tuple(Plane))
    m = getattr(Measurement, plane.name)(a)
    ctx.check(m == BlochMeasurement(a, plane), "constructors", f"Measurement.{plane.name}({a}) = {m!r}")
    o = mobs(m)
    ctx.nontrivial((plane.name, round(float(a), 6)))
    x, y, z = plane.polar(a)
    ctx.check(near(x * ref.X + y * ref.Y + z * ref.Z, o), "polar", f"{plane}.polar({a}) = {(x, y, z)}")
    v = PlanarState(plane, a).to_statevector_numpy()
    ctx.check(near(np.linalg.norm(v), 1.0), "state-norm", f"PlanarState({plane}, {a})")
    # a planar state's Bloch vector; the YZ convention for states is |0> cos + i sin |1>, see documentation of PlanarState
    want = ref.planar(plane.name, a)
    ctx.check(near(v, want), "state", f"PlanarState({plane}, {a}) = {v}")
    ctx.check(near(PlanarState(plane, a).to_densitymatrix_numpy(), np.outer(want, want.conj())), "state-dm", f"PlanarState({plane}, {a})")
    for c in ALL:
        cm = ref.CLIFFORD[c.value]
        q = m.clifford(c)
        ctx.count("measurements")
        ctx.check(type(q) is BlochMeasurement, "clifford-type", f"{q!r}")
        measurement_ok(ctx, q, cm.conj().T @ o @ cm, "bloch-clifford", measurement=repr(m), clifford=repr(c))
        ctx.check(q.plane is plane.clifford(c), "clifford-plane", f"{m!r} under {c!r} is {q!r}")
        if 0 <= a < 2:
            ctx.check(0 <= q.angle < 2, "clifford-range", f"{m!r} under {c!r} is {q!r}")
        d = gen.pick(rng, ALL)
        r = q.clifford(d)
        s = m.clifford(c @ d)
        ctx.check(near(mobs(r), mobs(s), 1e-7), "clifford-composition", f"{m!r} under {c!r} then {d!r}: {r!r}, {s!r}")
    if gen.chance(rng, 0.25):
        x = Placeholder("x")
        k, b = float(gen.pick(rng, (1, -1, 2, 0.5, -3))), float(gen.pick(rng, (0, 0.5, 1, -0.25, 1.75)))
        sym = BlochMeasurement(x * k + b, plane)
        ctx.check(sym.to_pauli_or_none() is None and sym.to_pauli_or_bloch() is sym, "symbolic-pauli", "symbolic measurement taken as Pauli")
        val = float(rng.uniform(-2, 2))
        for c in ALL:
            q = sym.clifford(c).with_parameter(x, val)
            cm = ref.CLIFFORD[c.value]
            ctx.count("symbolic")
            measurement_ok(ctx, q, cm.conj().T @ mobs(BlochMeasurement(k * val + b, plane)) @ cm, "symbolic-clifford", clifford=repr(c), k=k, b=b, val=val)
        ctx.check(abs(sym.with_parameters({x: val}).angle - (k * val + b)) < 1e-9, "symbolic-subst", "with_parameters")
        ctx.check(sym.angle == x * k + b, "symbolic-frozen", "measurement modified by substitution")
    # recognition of Pauli measurements
    p = m.to_pauli_or_none()
    exact = abs(2 * float(a) - round(2 * float(a))) == 0
    ctx.check((p is not None) == exact or 0 < abs(2 * float(a) - round(2 * float(a))) < 1e-7, "pauli-none", f"{m!r} recognised as {p!r}")
    if p is not None:
        ctx.count("paulis_recognised")
        measurement_ok(ctx, p, o, "to-pauli", measurement=repr(m))
    ctx.check(m.to_pauli_or_bloch() == (m if p is None else p), "pauli-or-bloch", f"{m!r}")
    ctx.check(m.to_bloch() is m and m.downcast_bloch() is m and m.to_plane() is plane and m.to_plane_or_axis() is plane, "bloch-self", f"{m!r}")
    # tolerance
    tol = 10.0 ** -int(rng.integers(3, 8))
    off = float(gen.pick(rng, (0.2, 5))) * tol
    base = float(gen.pick(rng, (0, 0.5, 1, 1.5, -0.5, -1, 3)))
    w = BlochMeasurement(base + off, plane)
    ctx.check((w.to_pauli_or_none(rel_tol=0, abs_tol=tol * 2) is not None) == (off < tol), "pauli-tolerance", f"{w!r} with abs_tol {2 * tol}")
    ctx.check(w.isclose(BlochMeasurement(base, plane), rel_tol=0, abs_tol=tol) == (off < tol), "isclose", f"{w!r} vs {base} with abs_tol {tol}")
    ctx.check(m.isclose(m) and not m.isclose(BlochMeasurement(a, gen.pick(rng, [q for q in Plane if q is not plane]))) and not m.isclose(Measurement.X), "isclose-plane", f"{m!r}")


def pauli_measurements(ctx, rng, i):
    ms = list(PauliMeasurement)
    ctx.check(len(ms) == 6 and len(set(ms)) == 6, "iter", f"{ms}")
    m = ms[i % 6]
    o = mobs(m)
    ctx.nontrivial(str(m))
    ctx.check(near(pmat(m.to_pauli()), o), "to-pauli", f"{m!r}")
    ctx.check(near(mobs(-m), -o) and +m == m and -(-m) == m, "neg", f"{m!r}")
    measurement_ok(ctx, m.to_bloch(), o, "to-bloch", measurement=repr(m))
    ctx.check(m.to_bloch().to_pauli_or_none() == m and m.to_pauli_or_none() is m and m.to_pauli_or_bloch() is m, "roundtrip", f"{m!r}")
    ctx.check(eval(repr(m)) == m and str(m) == ("+" if m.sign == Sign.PLUS else "-") + m.axis.name, "repr", f"{m!r} {m}")  # noqa: S307
    ctx.check(m.to_plane_or_axis() is m.axis, "axis", f"{m!r}")
    for q in ms:
        ctx.check(m.isclose(q) == (m == q) == (near(mobs(q), o)), "eq", f"{m!r} {q!r}")
    try:
        m.downcast_bloch()
        ctx.fail("downcast", f"{m!r} downcast to Bloch")
    except TypeError:
        pass
    for c in ALL:
        cm = ref.CLIFFORD[c.value]
        q = m.clifford(c)
        ctx.count("measurements")
        ctx.check(type(q) is PauliMeasurement, "pauli-clifford", f"{q!r}")
        measurement_ok(ctx, q, cm.conj().T @ o @ cm, "pauli-clifford", measurement=repr(m), clifford=repr(c))
        ctx.check(m.to_bloch().clifford(c).to_pauli_or_none() == q, "pauli-bloch-clifford", f"{m!r} under {c!r}")
    x = Placeholder("x")
    ctx.check(m.with_parameter(x, 1) is m and m.with_parameters({x: 2}) is m, "subst", f"{m!r}")


def paulis(ctx, rng, i):
    ps = list(Pauli)
    ctx.check(len(ps) == 16 == len(set(ps)) and len(list(Pauli.iterate(symbol_only=True))) == 4, "iterate", f"{ps}")
    p = ps[i % 16]
    m = pmat(p)
    ctx.nontrivial(repr(p))
    ctx.check(near(p.matrix, m), "matrix", f"{p!r}")
    for q in ps:
        r = p @ q
        ctx.count("pauli_products")
        ctx.check(near(pmat(r), m @ pmat(q)), "product", f"{p} @ {q} = {r}")
        ctx.check((p == q) == near(m, pmat(q)) and (p != q or hash(p) == hash(q)), "eq", f"{p} == {q}")
    for u in (*ComplexUnit, 1, -1, 1j, -1j, 1.0, complex(-1), np.complex128(1j), np.float64(-1.0)):
        z = complex(u) if not isinstance(u, ComplexUnit) else unit(u)
        ctx.check(near(pmat(p * u), z * m), "scalar", f"{p} * {u}")
        if not isinstance(u, np.generic):
            ctx.check(near(pmat(u * p), z * m), "scalar", f"{u} * {p}")
    for u in (2, 0, 1 + 1j, 0.5):
        try:
            p * u
            ctx.fail("scalar-refused", f"{p} * {u} accepted")
        except TypeError:
            pass
    ctx.check(near(pmat(-p), -m), "neg", f"-{p}")
    for b in (0, 1):
        if p.symbol != I:
            v = ref.state_vec(p.eigenstate(b))
            s = ref.PAULI[p.symbol.name]
            ctx.check(near(s @ v, (-1) ** b * v), "eigenstate", f"eigenstate {b} of {p}")
    for b in (2, -1):
        try:
            p.eigenstate(b)
            ctx.fail("eigenstate-refused", f"eigenstate {b}")
        except ValueError:
            pass
    ctx.check(eval(repr(p)) == p, "repr", f"{p!r}")  # noqa: S307
    if p.symbol == I:
        try:
            p.axis
            ctx.fail("axis", "the identity has an axis")
        except ValueError:
            pass
    else:
        ctx.check(p.axis is p.symbol and Pauli.from_axis(p.axis) == Pauli(p.symbol), "axis", f"{p}")


def units(ctx, rng, i):
    for u in ComplexUnit:
        z = unit(u)
        ctx.count("units")
        ctx.check(complex(u) == z or abs(complex(u) - z) < 1e-15, "unit", f"{u!r}")
        ctx.check(complex(str(u)) == z and eval(repr(u)) is u, "unit-text", f"{u}")  # noqa: S307
        ctx.check(unit(-u) == -z, "unit-neg", f"-{u}")
        ctx.check(u.is_imag == (z.imag != 0) and (u.sign is Sign.PLUS) == (z.real + z.imag > 0), "unit-parts", f"{u}")
        ctx.check(ComplexUnit.from_properties(sign=u.sign, is_imag=u.is_imag) is u, "unit-properties", f"{u}")
        for v in ComplexUnit:
            ctx.check(unit(u * v) == z * unit(v), "unit-mul", f"{u} * {v}")
        for v in (1, -1, 1j, -1j, 1.0, -1.0, True):
            ctx.check(unit(u * v) == z * v and unit(v * u) == z * v, "unit-mul", f"{u} * {v}")
        for v in (2, 0, 0.5, 1 + 1j):
            try:
                u * v
                ctx.fail("unit-refused", f"{u} * {v}")
            except TypeError:
                pass
        eps = float(rng.uniform(1e-12, 4e-10))
        ctx.check(ComplexUnit.from_or_none(z * (1 + eps)) is u, "unit-close", f"{z} * (1 + {eps})")
        ctx.check(ComplexUnit.from_or_none(z * 1.001) is None, "unit-close", f"{z} * 1.001")
        ctx.check(ComplexUnit.from_or_none(z * 1.001, rel_tol=0.01) is u and ComplexUnit.from_or_none(z + 1e-4, rel_tol=0, abs_tol=1e-3) is u, "unit-close", "tolerances")
    for s in Sign:
        v = {"PLUS": 1, "MINUS": -1}[s.name]
        ctx.count("units")
        ctx.check((int(s), float(s), complex(s)) == (v, v, v) and str(s) == "+-"[v < 0] and eval(repr(s)) is s, "sign", f"{s!r}")  # noqa: S307
        ctx.check(int(-s) == -v and all(int(s * t) == v * int(t) for t in Sign), "sign-mul", f"{s}")
        for x in (3, -2, 0, 2.5, -0.5, 1j, 2 - 1j):
            ctx.check(s * x == v * x and x * s == v * x and type(s * x) is type(x), "sign-mul", f"{s} * {x}")
        ctx.check(Sign.plus_if(v == 1) is s and Sign.minus_if(v == -1) is s, "sign-if", f"{s}")
        ctx.check(all(near(pmat(s * p), v * pmat(p)) for p in Pauli), "sign-pauli", f"{s}")
    for pl in Plane:
        ctx.check({a.name for a in pl.axes} == set(pl.name) == {pl.cos.name, pl.sin.name} and pl.orth.name not in pl.name, "plane-axes", f"{pl}")
        ctx.check(near(mobs(BlochMeasurement(0, pl)), ref.PAULI[pl.cos.name]) and near(mobs(BlochMeasurement(0.5, pl)), ref.PAULI[pl.sin.name]), "plane-cos-sin", f"{pl}")
        a, b = pl.axes
        ctx.check(Plane.from_axes(a, b) is pl and Plane.from_axes(b, a) is pl and pl.to_plane() is pl and pl.to_plane_or_axis() is pl, "plane-from-axes", f"{pl}")
        ctx.check(eval(repr(pl)) is pl, "repr", f"{pl!r}")  # noqa: S307
    for a in Axis:
        ctx.check(a.to_plane_or_axis() is a and eval(repr(a)) is a, "axis", f"{a!r}")  # noqa: S307
        try:
            Plane.from_axes(a, a)
            ctx.fail("plane-refused", f"plane of {a} and {a}")
        except ValueError:
            pass
    for x in [*Plane, *Axis, Measurement.X, Measurement.XY(0.3)]:
        for y in [*Plane, *Axis, Measurement.X, Measurement.XY(0.3)]:
            ctx.check(x.isclose(y) == (x is y or x == y), "isclose", f"{x!r} {y!r}")
    for name, want in {"ZERO": [1, 0], "ONE": [0, 1], "PLUS": [1, 1], "MINUS": [1, -1], "PLUS_I": [1, 1j], "MINUS_I": [1, -1j]}.items():
        w = np.array(want) / np.linalg.norm(want)
        ctx.check(near(getattr(BasicStates, name).to_statevector_numpy(), w), "basic-states", name)
    for name, want in {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z, "S": ref.S, "SDG": ref.S.conj().T, "H": ref.H, "CZ": ref.CZ, "CNOT": ref.CNOT, "SWAP": ref.SWAP, "CCX": ref.CCX}.items():
        op = getattr(Ops, name)
        ctx.check(near(op, want), "ops", name)
        try:
            op[0, 0] = 9
            ctx.fail("writable", f"Ops.{name} can be modified")
        except ValueError:
            ctx.count("readonly")
    for s in IXYZ_VALUES:
        ctx.check(near(Ops.from_ixyz(s), ref.PAULI["I" if s == I else s.name]), "ops-ixyz", f"{s}")
    for n in (1, 2, 3):
        ts = Ops.build_tensor_pauli_ops(n)
        want = [ref.kron(*(ref.PAULI[x] for x in w)) for w in itertools.product("IXYZ", repeat=n)]
        ctx.check(near(ts, np.array(want)), "tensor-paulis", f"{n} qubits")
    for bad in (0, -1, 1.5, "2"):
        try:
            Ops.build_tensor_pauli_ops(bad)
            ctx.fail("tensor-paulis-refused", f"{bad!r}")
        except (ValueError, TypeError):
            pass


def rotations(ctx, rng, i):
    a = gen.angle(rng, 0.2)
    ctx.count("rotations")
    ctx.nontrivial(round(float(a), 6))
    for f, want in ((Ops.rx, ref.rot(ref.X, a)), (Ops.ry, ref.rot(ref.Y, a)), (Ops.rz, ref.rot(ref.Z, a)), (Ops.rzz, ref.rot(ref.ZZ, a))):
        got = f(a)
        ctx.check(got.dtype == np.complex128 and near(got, want), "rotation", f"{f.__name__}({a})")
    ctx.check(ref.phase_dist(Ops.j(a), ref.jmat(a)) < EPS, "rotation", f"j({a})")
    r = float(rng.uniform(-10, 10))
    ctx.check(abs(rad_to_angle(r) * math.pi - r) < 1e-12 and abs(angle_to_rad(r) - r * math.pi) < 1e-9 and abs(rad_to_angle(angle_to_rad(r)) - r) < 1e-12, "angles", f"{r}")


FAMILIES = [
    Family("cliffords", cliffords, 24, 24, exhaustive=True),
    Family("words", words, 900, 60000),
    Family("measurements", measurements, 600, 40000),
    Family("pauli_measurements", pauli_measurements, 6, 6, exhaustive=True),
    Family("paulis", paulis, 16, 16, exhaustive=True),
    Family("units", units, 20, 40),
    Family("rotations", rotations, 400, 20000),
]
