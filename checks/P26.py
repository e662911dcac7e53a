"""Parameters: arithmetic, substitution, and commutation of substitution with every transformation."""

import cmath
import fractions

import numpy as np

import gen
import mon
import ref
from core import Family, Skip
from graphix.branch_selector import ConstBranchSelector, FixedBranchSelector
from graphix.clifford import Clifford
from graphix.measurements import BlochMeasurement
from graphix.optimization import StandardizedPattern, remove_useless_domains, standardize
from graphix.parameter import AffineExpression, Expression, ExpressionWithTrigonometry, Parameter, Placeholder, PlaceholderOperationError
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector

ID = "P26"
QUICK_SCALE = 2
RULE = (
    "Random affine expressions over placeholders; random circuits, patterns and open graphs whose angles are such expressions, transformed then instantiated and instantiated then transformed; partial, sequential, parallel (swapping) and symbolic substitutions with int/float/Fraction/numpy/expression values; "
    "density matrices with symbolic entries and symbolic simulation with a user-defined trigonometric expression type. Oracle: numeric evaluation of the expressions, the circuit's unitary, the reference interpreter; monitors check that objects not asked to change do not. "
    "Non-trivial: at least two symbolic angles; distinct = object and assignment."
)
ASSUMPTIONS = ["placeholders support affine expressions of one placeholder only; symbolic simulation is provided for density matrices", "generic values are at distance > 1e-3 from Pauli angles"]
FLOORS = {"symbolic_states": 80, "products": 300, "expressions": 2000, "refusals": 200, "circuits": 120, "transforms": 900, "graphs": 250, "matrices": 300, "symbolic_runs": 80, "extracted": 15, "swaps": 200, "partial": 200, "branches_compared": 800}
WARM = "all"


# ------------------------------------------------------------------ a user's expression type
class Sym(ExpressionWithTrigonometry):
    def __init__(self, f):
        self._f = f

    def f(self, e):
        c = e["cache"]
        if id(self) not in c:
            c[id(self)] = self._f(e)
        return c[id(self)]

    @staticmethod
    def of(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, (int, float, complex, np.number)):
            v = complex(o)
            return Sym(lambda e: v)
        return None

    def _bin(self, o, g):
        o = Sym.of(o)
        return NotImplemented if o is None else Sym(lambda e: g(self.f(e), o.f(e)))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: b / a)

    def __neg__(self):
        return Sym(lambda e: -self.f(e))

    def cos(self):
        return Sym(lambda e: cmath.cos(self.f(e)))

    def sin(self):
        return Sym(lambda e: cmath.sin(self.f(e)))

    def exp(self):
        return Sym(lambda e: cmath.exp(self.f(e)))

    def conjugate(self):
        return Sym(lambda e: self.f(e).conjugate())

    def with_parameters(self, assignment):
        return self.f({"cache": {}, **{k: complex(v) for k, v in assignment.items()}})

    def with_parameter(self, variable, substitute):
        return self.with_parameters({variable: substitute})


class Var(Sym, Parameter):
    def __init__(self, name):
        self.name = name
        super().__init__(lambda e: e[self])

    __hash__ = object.__hash__


# ------------------------------------------------------------------ values
def generic(rng):
    while True:
        v = float(rng.uniform(-2, 2))
        if all(abs(k * v * 2 - round(k * v * 2)) > 1e-2 for k in (0.5, 1, 2, 3)):
            return v


def value(rng):
    """A substitute of any numeric kind, as a user may pass it."""
    r = int(rng.integers(6))
    return (int(rng.integers(-3, 4)), float(rng.choice([0.0, 0.5, 1.0, -0.5, 0.25])), generic(rng), np.float64(generic(rng)), np.int64(int(rng.integers(-2, 3))), fractions.Fraction(int(rng.integers(-7, 8)), int(rng.integers(1, 9))))[r]


COEF = (1, -1, 2, 0.5, -0.5, 3)


def affine(rng, xs):
    """A random affine expression and its meaning (index of the variable, slope, offset)."""
    j = int(rng.integers(len(xs)))
    k, b = float(gen.pick(rng, COEF)), float(gen.pick(rng, (0, 0, 0.5, -0.5, 1, 0.3)))
    return xs[j] * k + b if gen.chance(rng, 0.8) else xs[j], j


def evaluate(angle, env):
    """Meaning of an angle under an assignment, read from the stored coefficients."""
    if isinstance(angle, Placeholder):
        return float(env[angle])
    if isinstance(angle, AffineExpression):
        return angle.a * float(env[angle.x]) + angle.b
    return float(angle)


def expressions(ctx, rng, i):
    x, y = Placeholder("x"), Placeholder("y" if gen.chance(rng, 0.7) else "x")
    # random straight-line arithmetic over one variable, shadowed by (slope, offset)
    pool = [(x, (1.0, 0.0))]
    trace = []
    for _ in range(int(rng.integers(1, 8))):
        e, (a, b) = gen.pick(rng, pool)
        d = gen.pick(rng, (0, 1, 2, -1, 0.5, -2.5, 1e-3, np.float64(0.25), fractions.Fraction(1, 3)))
        f, (a2, b2) = gen.pick(rng, pool)
        op = gen.pick(rng, ("+n", "n+", "-n", "n-", "*n", "n*", "/n", "neg", "+e", "-e"))
        df = float(d)
        if op == "/n" and d == 0:
            continue
        r, w = {
            "+n": lambda: (e + d, (a, b + df)), "n+": lambda: (d + e, (a, b + df)), "-n": lambda: (e - d, (a, b - df)), "n-": lambda: (d - e, (-a, df - b)),
            "*n": lambda: (e * d, (a * df, b * df)), "n*": lambda: (d * e, (a * df, b * df)), "/n": lambda: (e / d, (a / df, b / df)), "neg": lambda: (-e, (-a, -b)),
            "+e": lambda: (e + f, (a + a2, b + b2)), "-e": lambda: (e - f, (a - a2, b - b2)),
        }[op]()  # fmt: skip
        trace.append(op)
        ctx.count("expressions")
        if not isinstance(r, Expression):
            ctx.check(abs(w[0]) < 1e-9 and abs(float(r) - w[1]) < 1e-9, "constant", f"{op} gives the constant {r}", expected=w)
            continue
        v = value(rng)
        got = r.with_parameter(x, v)
        ctx.check(abs(float(got) - (w[0] * float(v) + w[1])) < 1e-9 * (1 + abs(w[0]) + abs(w[1])), "arithmetic", f"after {trace}: {r} at {v!r} is {got!r}, expected {w}")
        ctx.check(r.with_parameters({x: v}) == got and r.subs(x, v) == got and r.xreplace({x: v, Placeholder("z"): 5}) == got, "aliases", f"{r}")
        ctx.check(r.with_parameter(Placeholder("x"), v) is r and r.with_parameters({}) is r, "other-variable", f"{r} changed by substituting another placeholder of the same name")
        s = r.with_parameter(x, y * 2 + 0.5)
        ctx.check(abs(float(s.with_parameter(y, v)) - (w[0] * (2 * float(v) + 0.5) + w[1])) < 1e-8, "composition", f"{r} with x := 2y + 0.5 is {s}")
        ctx.check(isinstance(s.with_parameter(x, 3), Expression) == True, "composition", f"{s} still depends on x")  # noqa: E712
        pool.append((r, w))
    ctx.nontrivial((tuple(trace), str(pool[-1][0])))
    e = pool[-1][0]
    ctx.check(e == e and (x == x) and x != y and not (x == 1) and len({x, y}) == 2 and hash(x) == hash(x), "equality", f"{e}")
    ctx.check((x + 1 == x * 1 + 1) and x + 1 != x + 2 and x * 2 != y * 2 and x + x == 2 * x, "equality", "structural equality")
    for bad in (lambda: e + y, lambda: y - e, lambda: x + (2 * y)):
        try:
            bad()
            ctx.fail("two-variables", "an expression with two placeholders is accepted")
        except PlaceholderOperationError:
            ctx.count("refusals")
    for bad in (lambda: e * e, lambda: e + "1", lambda: e * None, lambda: 1 / e):
        try:
            bad()
            ctx.fail("non-affine", "a non-affine operation is accepted")
        except TypeError:
            ctx.count("refusals")
    try:
        BlochMeasurement(e, gen.pick(rng, gen.PLANES)).plane.polar(e)
        ctx.fail("trigonometry", "cosine of a placeholder is accepted")
    except PlaceholderOperationError:
        ctx.count("refusals")


def angles_of(p):
    return [(c.node, c.measurement.angle) for c in p if c.kind.name == "M" and isinstance(c.measurement, BlochMeasurement)]


def has_params(p):
    return any(isinstance(a, Expression) for _, a in angles_of(p))


def shape(p, env):
    """Commands with every angle evaluated."""
    out = []
    for c in p:
        if c.kind.name == "M":
            m = c.measurement
            out.append(("M", c.node, (m.plane.name, evaluate(m.angle, env)) if isinstance(m, BlochMeasurement) else str(m), sorted(c.s_domain), sorted(c.t_domain)))
        else:
            out.append(repr(c))
    return out, list(p.input_nodes), list(p.output_nodes)


def same_shape(a, b):
    if a[1:] != b[1:] or len(a[0]) != len(b[0]):
        return False
    for x, y in zip(a[0], b[0]):
        if isinstance(x, tuple) and isinstance(y, tuple) and isinstance(x[2], tuple) and isinstance(y[2], tuple):
            if (x[:2], x[3:], x[2][0]) != (y[:2], y[3:], y[2][0]):
                return False
            d = (x[2][1] - y[2][1]) % 2
            if min(d, 2 - d) > 1e-9:
                return False
        elif x != y:
            return False
    return True


def instantiate(ctx, rng, obj, env, key):
    """Substitute everything, in one of several equivalent ways; the original must not change."""
    before = key(obj)
    xs = list(env)
    rng.shuffle(xs)
    how = int(rng.integers(6))
    if how == 0:
        r = obj.with_parameters(env)
    elif how == 1:
        r = obj
        for x in xs:
            r = r.with_parameter(x, env[x])
    elif how == 2:
        r = obj.xreplace(env)
    elif how == 3:
        r = obj
        for x in xs:
            r = r.subs(x, env[x])
    elif how == 4:  # through fresh placeholders
        ys = {x: Placeholder(x.name) for x in xs}
        r = obj.with_parameters(ys)
        ctx.check(key(r.with_parameters(env)) == key(r), "renamed", "substituting the old placeholders changes the renamed object")
        r = r.with_parameters({ys[x]: env[x] for x in xs})
    elif hasattr(obj, "replace_parameters"):
        c = obj.with_parameters({})
        ctx.check(c is not obj, "copy", "with_parameters returns the same object")
        for k, x in enumerate(xs):
            same = c.replace_parameter(x, env[x]) if k % 2 else c.replace_parameters({x: env[x]})
            ctx.check(same is c, "in-place", "replace_parameter(s) returns another object")
        r = c
        d = obj.replace_parameters(env, copy=True)
        ctx.check(d is not obj and key(d) == key(r), "copy", "replace_parameters(copy=True) differs from in-place substitution")
    else:
        r = obj.with_parameters(env)
    ctx.check(key(obj) == before, "modified", "substitution modified the original")
    return r


def parametrise(rng, p, xs, frac=0.7):
    return p.map(lambda m: BlochMeasurement(affine(rng, xs)[0], m.plane) if isinstance(m, BlochMeasurement) and gen.chance(rng, frac) else m)


TRANSFORMS = {
    "standardize": lambda p: standardize(p),
    "standardize_inplace": lambda p: (q := p.copy(), q.standardize())[0],
    "shift_direct": lambda p: (q := p.copy(), q.shift_signals(method="direct"))[0],
    "shift_mc": lambda p: (q := p.copy(), q.shift_signals(method="mc"))[0],
    "minimize_space": lambda p: p.minimize_space(copy=True),
    "parallelize": lambda p: (q := p.copy(), q.parallelize_pattern())[0],
    "local_clifford": lambda p: p.remove_local_clifford_commands(copy=True),
    "pushing": lambda p: p.perform_pauli_pushing(copy=True),
    "remove_pauli": lambda p: p.remove_pauli_measurements(copy=True),
    "infer": lambda p: p.infer_pauli_measurements(copy=True),
    "to_bloch": lambda p: p.to_bloch(),
    "useless": lambda p: remove_useless_domains(p),
    "space_optimal": lambda p: StandardizedPattern.from_pattern(p).to_space_optimal_pattern(),
    "clifford_map": lambda p: p.map(lambda m: m.clifford(Clifford(17))),
    "copy": lambda p: p.copy(),
    "corrections": lambda p: p.to_xzcorrections().to_pattern(),
}
PRESERVING = ("standardize", "standardize_inplace", "minimize_space", "parallelize", "infer", "to_bloch", "copy", "space_optimal")


def attempt(f, p):
    try:
        return f(p), None
    except PlaceholderOperationError:
        raise
    except Exception as e:  # noqa: BLE001 - refusals are compared, not judged, here
        return None, type(e).__name__


def patterns(ctx, rng, i):
    p0 = gen.raw_pattern(rng, int(rng.integers(2, 7)), int(rng.integers(0, 3)), pauli_obj=0.25, pauli=0.4, cliffords=0.08, max_live=5)
    xs = [Placeholder(n) for n in "abcdef"[: int(rng.integers(1, 4 if rng.random() < 0.85 else 7))]]
    p = parametrise(rng, p0, xs)
    env = {x: generic(rng) for x in xs}
    n_sym = sum(isinstance(a, Expression) for _, a in angles_of(p))
    ctx.check(p.is_parameterized() == (n_sym > 0), "is-parameterized", f"{n_sym} symbolic angles", pattern=repr(p))
    q = instantiate(ctx, rng, p, env, mon.cmds_key)
    ctx.check(not q.is_parameterized(), "is-parameterized", "still parameterized after substituting everything", pattern=repr(q))
    ctx.check(same_shape(shape(q, {}), shape(p, env)), "substitution", "wrong angles after substitution", before=repr(p), after=repr(q), env=str(env))
    if n_sym >= 2:
        ctx.nontrivial((mon.cmds_key(q)))
    ctx.sample({"pattern": repr(p), "assignment": str(env)})
    # partial
    x = gen.pick(rng, xs)
    part = p.with_parameter(x, 0.3)
    rest = any(isinstance(a, AffineExpression) and a.x is not x for _, a in angles_of(p))
    ctx.count("partial")
    ctx.check(part.is_parameterized() == rest, "partial", "is_parameterized after a partial substitution", pattern=repr(part))
    if len(xs) >= 2:
        ctx.count("swaps")
        u, v = xs[0], xs[1]
        sw = p.with_parameters({u: v, v: u})
        ctx.check(same_shape(shape(sw, env), shape(p, {**env, u: env[v], v: env[u]})), "swap", "swapping two parameters", before=repr(p), after=repr(sw))
    for name in [gen.pick(rng, list(TRANSFORMS)) for _ in range(4)]:
        t = TRANSFORMS[name]
        before = mon.cmds_key(p)
        a, ea = attempt(t, p)
        ctx.check(mon.cmds_key(p) == before, "transform-modifies", name)
        b, eb = attempt(t, q)
        ctx.count("transforms")
        ctx.distinct("transform", name)
        ctx.check(ea == eb, "transform-refusal", f"{name}: {ea} with parameters, {eb} with generic values", pattern=repr(p))
        if ea:
            continue
        c = instantiate(ctx, rng, a, env, mon.cmds_key)
        ctx.check(same_shape(shape(c, {}), shape(b, {})), "commute", f"{name} does not commute with substitution", symbolic=repr(a), numeric=repr(b), env=str(env))
    # Pauli values after the transformation
    name = gen.pick(rng, PRESERVING)
    a, ea = attempt(TRANSFORMS[name], p)
    if ea is None:
        env2 = {x: value(rng) for x in xs}
        mon.same_branches(ctx, p.with_parameters(env2), a.with_parameters(env2), rng, limit=4, mech="commute-values", what=f"{name} then substitution of {env2}")
    if n_sym:
        try:
            p.simulate("statevector", branch_selector=ConstBranchSelector(0))
        except (PlaceholderOperationError, TypeError):
            ctx.count("refusals")
        except RuntimeError:
            pass
        else:
            ctx.check(not any(isinstance(a, Expression) for _, a in angles_of(p)), "simulated", "a parameterized pattern was simulated", pattern=repr(p))


def circ_key(c):
    return repr(c.instruction) + str(c.width)


def circ_angles(c):
    return [i.angle for i in c.instruction if hasattr(i, "angle")]


def circuits(ctx, rng, i):
    n = int(rng.integers(1, 4))
    xs = [Placeholder(k) for k in "abcdef"[: int(rng.integers(1, 4 if rng.random() < 0.85 else 7))]]
    fn = lambda: affine(rng, xs)[0] if gen.chance(rng, 0.7) else gen.angle(rng)  # noqa: E731
    c = gen.circuit(rng, n, int(rng.integers(2, 9)), ccx=0.03, angle_fn=fn, measure=0.05, keep_one=True)
    env = {x: value(rng) if gen.chance(rng, 0.6) else generic(rng) for x in xs}
    n_sym = sum(isinstance(a, Expression) for a in circ_angles(c))
    ctx.count("circuits")
    ctx.check(c.is_parameterized() == (n_sym > 0), "circuit-is-parameterized", f"{n_sym} symbolic angles", circuit=gen.describe(c))
    d = instantiate(ctx, rng, c, env, circ_key)
    ctx.check(not d.is_parameterized(), "circuit-is-parameterized", "after substitution", circuit=gen.describe(d))
    want = [evaluate(a, env) for a in circ_angles(c)]
    ctx.check(np.allclose([float(a) for a in circ_angles(d)], want, atol=1e-9), "circuit-substitution", f"angles {circ_angles(d)}, expected {want}", circuit=gen.describe(c), env=str(env))
    strip = lambda q: [type(k).__name__ + repr([getattr(k, f) for f in k.__dataclass_fields__ if f != "angle"]) for k in q.instruction]  # noqa: E731
    ctx.check(strip(c) == strip(d) and d.width == c.width and d.active_qubits == c.active_qubits, "circuit-substitution", "substitution changed more than angles", circuit=gen.describe(c), after=gen.describe(d))
    if n_sym >= 2:
        ctx.nontrivial(circ_key(d))
    nm = sum(k.kind.name == "M" for k in c.instruction)
    outs = next(iter(ref.branches(list(range(nm)), rng, 1)), {}) if nm else {}
    bits = [outs[k] for k in range(nm)]
    u, _ = ref.circuit_kraus(d.instruction, n, bits)
    tr = c.transpile()
    p = tr.pattern
    ctx.check(p.is_parameterized() == (n_sym > 0), "transpiled-parameterized", "", circuit=gen.describe(c))
    q = instantiate(ctx, rng, p, env, mon.cmds_key)
    fixed = dict(zip(tr.classical_outputs, bits))
    free = [v for v in ref.measured_nodes(q) if v not in fixed]
    mon.implements(ctx, q, u, rng, limit=4, nodes=free, fixed=fixed, mech="transpile", what=f"transpile then substitute {env}")
    f = lambda a: a * 0.5 + 0.25  # noqa: E731
    m = c.apply_angle(f, copy=True)
    w = [evaluate(a, env) * 0.5 + 0.25 for a in circ_angles(c)]
    ctx.check(np.allclose([evaluate(a, env) for a in circ_angles(m)], w), "map-angle", "map over the angles", circuit=gen.describe(c))
    z = instantiate(ctx, rng, c.transpile_measurements_to_z_axis(), env, circ_key)
    uz, _ = ref.circuit_kraus(z.instruction, n, bits)
    ctx.check(ref.phase_dist(uz, u) < ref.TOL, "z-axis", "measurements moved to Z axis", circuit=gen.describe(c))
    if n_sym and gen.chance(rng, 0.3):
        try:
            c.simulate(branch_selector=ConstBranchSelector(0))
            ctx.fail("simulated", "a parameterized circuit was simulated", circuit=gen.describe(c))
        except (PlaceholderOperationError, TypeError):
            ctx.count("refusals")


def og_shape(og, env):
    return (
        sorted(og.graph.nodes), sorted(tuple(sorted(e)) for e in og.graph.edges), list(og.input_nodes), list(og.output_nodes),
        [(v, (m.plane.name, round(evaluate(m.angle, env) % 2, 7)) if isinstance(m, BlochMeasurement) else str(m)) for v, m in sorted(og.measurements.items())],
        sorted((v, c.value) for v, c in og.output_cliffords.items()),
    )  # fmt: skip


def graphs(ctx, rng, i):
    kind = gen.pick(rng, ("pauli", "gflow", "causal"))
    r = gen.pauliflow_opengraph(rng, 2, 7, kind=kind) if kind != "causal" else None
    if r is None:
        og = gen.layered_opengraph(rng, int(rng.integers(1, 4)), int(rng.integers(2, 7)))
        kind = "causal"
    else:
        og = r[0]
    xs = [Placeholder(k) for k in "ab"]
    sym = og.map(lambda m: BlochMeasurement(affine(rng, xs)[0], m.plane) if isinstance(m, BlochMeasurement) and gen.chance(rng, 0.7) else m)
    env = {x: generic(rng) for x in xs}
    num = instantiate(ctx, rng, sym, env, mon.og_key)
    ctx.count("graphs")
    ctx.check(og_shape(num, {}) == og_shape(sym, env), "og-substitution", "open graph after substitution", symbolic=mon.og_key(sym), numeric=mon.og_key(num))
    n_sym = sum(isinstance(m, BlochMeasurement) and isinstance(m.angle, Expression) for m in sym.measurements.values())
    if n_sym >= 2:
        ctx.nontrivial(mon.og_key(num))
    sw = sym.with_parameters({xs[0]: xs[1], xs[1]: xs[0]})
    ctx.count("swaps")
    ctx.check(og_shape(sw, env) == og_shape(sym, {xs[0]: env[xs[1]], xs[1]: env[xs[0]]}), "og-swap", "swapping two parameters")
    target = mon.og_map(num)
    for name in ("to_causalflow_or_none", "to_gflow_or_none", "to_pauliflow_or_none"):
        g, gn = (og_.to_bloch() if name != "to_pauliflow_or_none" else og_ for og_ in (sym, num))
        fs, fn = getattr(g, name)(), getattr(gn, name)()
        ctx.check((fs is None) == (fn is None), "flow-exists", f"{name}: {fs is not None} with parameters, {fn is not None} with generic values", og=mon.og_key(sym))
        if fs is None:
            continue
        ctx.distinct("flows", name)
        k = lambda f: (repr(sorted((v, tuple(sorted(s))) for v, s in f.correction_function.items())), repr([sorted(x) for x in f.partial_order_layers]), mon.og_key(f.og))  # noqa: E731
        fi = instantiate(ctx, rng, fs, env, k)
        ctx.check(k(fi)[:2] == k(fs)[:2] and og_shape(fi.og, {}) == og_shape(num if name == "to_pauliflow_or_none" else gn, {}), "flow-substitution", f"{name}: substitution in the flow")
        cs = fs.to_xzcorrections()
        ck = lambda c: (repr(sorted((v, tuple(sorted(s))) for v, s in c.x_corrections.items())), repr(sorted((v, tuple(sorted(s))) for v, s in c.z_corrections.items())), repr([sorted(x) for x in c.partial_order_layers]), mon.og_key(c.og))  # noqa: E731
        ci = instantiate(ctx, rng, cs, env, ck)
        ctx.check(ck(ci)[:3] == ck(cs)[:3], "corrections-substitution", "corrections changed by substitution")
        for what, p in (("flow", instantiate(ctx, rng, cs.to_pattern(), env, mon.cmds_key)), ("corrections", ci.to_pattern())):
            ref_nodes = [v for v in ref.measured_nodes(p)]
            kz = mon.ref_kraus(p, dict.fromkeys(ref_nodes, 0))
            ctx.check(ref.ray_dist(kz, target) < ref.TOL, "flow-pattern", f"{name}, {what}: pattern implements another map", og=mon.og_key(num), pattern=repr(p))
            if np.linalg.norm(target) > 1e-6 and set(og.input_nodes) <= set(v for v in og.graph.nodes):
                for res in ref.branches(ref_nodes, rng, 3):
                    kb = mon.ref_kraus(p, res)
                    ctx.count("branches_compared")
                    ctx.check(ref.phase_dist(kb, kz) < ref.TOL, "flow-pattern", f"{name}, {what}: branch differs", og=mon.og_key(num), pattern=repr(p))
    if len(og.input_nodes) == len(og.output_nodes) and not og.output_cliffords:
        f = sym.to_pauliflow_or_none()
        if f is None:
            return
        try:
            cs = sym.to_circuit()
        except (ValueError, NotImplementedError):
            return
        cn = instantiate(ctx, rng, cs, env, circ_key)
        u, _ = ref.circuit_kraus(cn.instruction, cn.width, ())
        ctx.count("extracted")
        ctx.check(ref.ray_dist(u, target) < ref.TOL, "extraction", "extraction then substitution", og=mon.og_key(num))


def matrices(ctx, rng, i):
    n = int(rng.integers(0, 3))
    d = 2**n
    xs = [Placeholder(k) for k in "ab"]
    entry = lambda: gen.pick(rng, (lambda: affine(rng, xs)[0], lambda: int(rng.integers(-2, 3)), lambda: float(rng.normal()), lambda: complex(rng.normal(), rng.normal()), lambda: np.complex128(1j)))()  # noqa: E731
    rows = [[entry() for _ in range(d)] for _ in range(d)]
    rows[int(rng.integers(d))][int(rng.integers(d))] = affine(rng, xs)[0]
    dm = DensityMatrix(rows)
    env = {x: value(rng) for x in xs}
    num = lambda v, e: complex(evaluate(v, e)) if isinstance(v, Expression) else complex(v)  # noqa: E731
    ctx.count("matrices")
    ctx.nontrivial(repr(rows))
    key = lambda s: repr(s.rho.tolist()) + repr(s.rho.dtype)  # noqa: E731
    r = instantiate(ctx, rng, dm, env, key)
    want = np.array([[num(v, env) for v in row] for row in rows])
    ctx.check(r.rho.dtype == np.complex128 and np.allclose(r.rho, want), "matrix-substitution", f"{r.rho.tolist()}, expected {want.tolist()}", rows=repr(rows), env=str(env))
    x = xs[0]
    part = dm.with_parameter(x, env[x])
    left = [[v for v in row if isinstance(v, AffineExpression) and v.x is not x] for row in rows]
    ctx.count("partial")
    if any(left):
        ctx.check(part.rho.dtype == object, "matrix-partial", f"{part.rho.tolist()}")
    r = part.with_parameter(xs[1], env[xs[1]])
    ctx.check(np.allclose(np.asarray(r.rho, dtype=complex), want), "matrix-partial", f"{r.rho.tolist()}, expected {want.tolist()}", rows=repr(rows), env=str(env))


def symbolic(ctx, rng, i):
    """Symbolic simulation with the user's expression type, against numeric simulation and the reference."""
    p0 = gen.raw_pattern(rng, int(rng.integers(2, 6)), int(rng.integers(0, 2)), max_live=3, n_outputs=int(rng.integers(1, 3)), pauli_obj=0.2)
    xs = [Var("x"), Var("y")]
    k = lambda: gen.pick(rng, xs) * float(gen.pick(rng, COEF)) + float(gen.pick(rng, (0, 0.5, 0.2)))  # noqa: E731
    p = p0.map(lambda m: BlochMeasurement(k(), m.plane) if isinstance(m, BlochMeasurement) else m)
    if not p.is_parameterized():
        raise Skip("no symbolic angle")
    env = {x: generic(rng) for x in xs}
    num = p.with_parameters(env)
    ctx.check(not num.is_parameterized(), "sym-parameterized", "", pattern=repr(num))
    psi = ref.haar_state(rng, len(p.input_nodes))
    res, vec = mon.feasible_results(num, rng, psi)
    if res is None:
        raise Skip("no feasible branch")
    given = {"input_state": psi} if p.input_nodes else {}
    st = p.simulate("densitymatrix", symbolic=True, branch_selector=FixedBranchSelector(dict(res)), **given)
    ctx.count("symbolic_runs")
    ctx.nontrivial(mon.cmds_key(num))
    got = st.with_parameters(env)
    w = vec / np.linalg.norm(vec)
    want = np.outer(w, w.conj())
    ctx.check(np.allclose(np.asarray(got.rho, dtype=complex), want, atol=1e-6), "symbolic-simulation", "symbolic simulation then substitution", pattern=repr(num), outcomes=res)
    one = num.simulate("densitymatrix", symbolic=True, branch_selector=FixedBranchSelector(dict(res)), **given)
    ctx.check(np.allclose(np.asarray(one.rho, dtype=complex), want, atol=1e-6), "symbolic-numeric", "symbolic mode on a pattern without parameters", pattern=repr(num), outcomes=res)


def num_of(x, env):
    return complex(x.with_parameters(env)) if isinstance(x, Sym) else complex(x)


def states(ctx, rng, i):
    """Operations on symbolic density matrices commute with substitution."""
    xs = [Var("x"), Var("y")]
    env = {x: generic(rng) for x in xs}

    def sym(n):
        """A symbolic mixed state and its value."""
        d = 2**n
        ws = rng.dirichlet(np.ones(2))
        rho, val = np.zeros((d, d), dtype=object), np.zeros((d, d), dtype=complex)
        for w in ws:
            v, num = [1.0], [1.0]
            for _ in range(n):
                a = gen.pick(rng, xs) * float(gen.pick(rng, COEF)) + float(rng.random())
                t = complex(num_of(a, env))
                pair, numbers = (a.cos(), a.sin() * 1j), (np.cos(t), 1j * np.sin(t))
                v = [x * y for x in v for y in pair]
                num = [x * y for x in num for y in numbers]
            rho = rho + np.array([[v[r] * v[c].conjugate() * float(w) for c in range(d)] for r in range(d)], dtype=object)
            val = val + w * np.outer(num, np.conj(num))
        return rho.tolist(), val

    n, m = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    rows, want = sym(n)
    dm = DensityMatrix(rows)
    value_of = lambda s: np.asarray(s.with_parameters(env).rho, dtype=complex)  # noqa: E731
    ctx.check(np.allclose(value_of(dm), want), "sym-build", "symbolic density matrix built from rows", env=repr(env))
    psi = ref.haar_state(rng, n)
    f = dm.fidelity(Statevector(psi))
    ctx.check(np.isclose(complex(num_of(f, env)), np.vdot(psi, want @ psi)), "sym-fidelity", f"fidelity of a symbolic density matrix: {num_of(f, env)}, expected {np.vdot(psi, want @ psi)}")
    for kind in ("numeric", "symbolic"):
        if kind == "numeric":
            phi = ref.haar_state(rng, m)
            other, oval = DensityMatrix(Statevector(phi)), np.outer(phi, phi.conj())
        else:
            orows, oval = sym(m)
            other = DensityMatrix(orows)
        for a, va, b, vb, how in ((dm, want, other, oval, "with"), (other, oval, dm, want, "onto")):
            t = a.copy() if hasattr(a, "copy") else DensityMatrix(a)
            before = (b.rho.tobytes() if b.rho.dtype != object else repr(b.rho.tolist()), b.rho.dtype)
            t.tensor(b)
            ctx.count("products")
            ctx.check(np.allclose(value_of(t), np.kron(va, vb)), "sym-tensor", f"tensor product of a symbolic density matrix {how} a {kind} one")
            ctx.check((b.rho.tobytes() if b.rho.dtype != object else repr(b.rho.tolist()), b.rho.dtype) == before, "sym-tensor-argument", f"tensor changed its {kind} argument")
    u = np.linalg.qr(rng.normal(size=(2**n, 2**n)) + 1j * rng.normal(size=(2**n, 2**n)))[0]
    e = DensityMatrix(rows)
    order = [int(x) for x in rng.permutation(n)]
    e.evolve(u, order)
    perm = np.argsort(order)
    t = u.reshape((2,) * (2 * n)).transpose([*perm, *(n + perm)]).reshape(2**n, 2**n)
    ctx.check(np.allclose(value_of(e), t @ want @ t.conj().T), "sym-evolve", "evolution of a symbolic density matrix", order=order)
    k = int(rng.integers(n))
    if n > 1:
        e = DensityMatrix(rows)
        e.ptrace([k])
        ctx.check(np.allclose(value_of(e), np.trace(want.reshape((2,) * (2 * n)), axis1=k, axis2=n + k).reshape(2 ** (n - 1), -1)), "sym-ptrace", "partial trace of a symbolic density matrix", qubit=k)
    ctx.count("symbolic_states")
    ctx.nontrivial((n, m, repr(env), i))


FAMILIES = [
    Family("states", states, 120, 6000),
    Family("expressions", expressions, 700, 40000),
    Family("circuits", circuits, 160, 12000),
    Family("patterns", patterns, 350, 25000),
    Family("graphs", graphs, 260, 20000),
    Family("matrices", matrices, 350, 20000),
    Family("symbolic", symbolic, 130, 8000),
]
