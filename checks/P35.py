"""Measurement descriptions: converting between Bloch and Pauli descriptions, one by one or in a whole object."""

import networkx as nx
import numpy as np

import gen
import mon
import ref
from core import Family, Skip
from graphix import command
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.optimization import StandardizedPattern
from graphix.pattern import Pattern

ID = "P35"
QUICK_SCALE = 4
RULE = (
    "Random runnable patterns, standardised patterns, open graphs and XZ-corrections with signed Pauli measurements and angles at, near and far from Pauli angles, converted with random tolerances, and mapped with recording functions. "
    "Oracle: Bloch vectors computed from planes and angles, the stated tolerance, equality of everything that is not a measurement, and independent branch maps. Non-trivial: at least one description changed; distinct = object and tolerances."
)
ASSUMPTIONS = ["angles within 1e-6 (relative) of the tolerance itself may go either way"]
FLOORS = {"conversions": 3000, "inferred": 1000, "kept": 1000, "branches_compared": 1500, "refused": 200, "mapped": 2000}
WARM = ()


def near(rng, m):
    """Move some angles close to a Pauli angle."""
    if isinstance(m, PauliMeasurement) or rng.random() < 0.4:
        return m
    k = int(rng.integers(-5, 9))
    if rng.random() < 0.25:
        return BlochMeasurement(k // 2 if rng.random() < 0.5 else k / 2, m.plane)
    return BlochMeasurement(k / 2 + float(gen.pick(rng, (1, -1))) * 10.0 ** -float(rng.uniform(1, 13)), m.plane)


def tolerances(rng):
    if rng.random() < 0.4:
        return {}
    t = {}
    if rng.random() < 0.8:
        t["rel_tol"] = float(gen.pick(rng, (0.0, 1e-12, 1e-6, 1e-3, 10.0 ** -rng.uniform(1.5, 12))))
    if rng.random() < 0.6:
        t["abs_tol"] = float(gen.pick(rng, (0.0, 1e-12, 1e-6, 1e-3, 0.2)))
    return t


def judge(ctx, before, after, tol, how):
    """One inferred measurement."""
    if isinstance(before, PauliMeasurement):
        ctx.check(after == before, "infer-pauli", f"{how}: {before!r} became {after!r}")
        return
    x = 2 * float(before.angle)
    k = round(x)
    allowed = max(tol.get("rel_tol", 1e-9) * max(abs(x), abs(k)), tol.get("abs_tol", 0.0))
    err = abs(x - k)
    if isinstance(after, PauliMeasurement):
        ctx.count("inferred")
        ctx.check(err <= allowed * (1 + 1e-6), "infer-too-far", f"{how}: {before!r} became {after!r} although it is {err:.3g} from it (tolerance {allowed:.3g})", tolerances=tol)
        ideal = BlochMeasurement(k / 2, before.plane)
        ctx.check(np.allclose(ref.bloch_vector(after), ref.bloch_vector(ideal), atol=1e-9), "infer-axis", f"{how}: {before!r} became {after!r}")
    else:
        ctx.count("kept")
        ctx.check(after == before, "infer-changes", f"{how}: {before!r} became {after!r}")
        ctx.check(err >= allowed * (1 - 1e-6) and err > 0, "infer-misses", f"{how}: {before!r} was kept although it is {err:.3g} from a Pauli angle (tolerance {allowed:.3g})", tolerances=tol)


def bloch(ctx, before, after, how):
    ctx.check(isinstance(after, BlochMeasurement), "to-bloch-type", f"{how}: {before!r} became {after!r}")
    if isinstance(before, BlochMeasurement):
        ctx.check(after == before, "to-bloch-changes", f"{how}: {before!r} became {after!r}")
    else:
        ctx.check(np.allclose(ref.bloch_vector(after), ref.bloch_vector(before), atol=1e-12), "to-bloch", f"{how}: {before!r} became {after!r}")
        ctx.check(0 <= after.angle < 2, "to-bloch", f"{how}: angle {after.angle}")
    ctx.count("conversions")


class Recorder:
    """A function on measurements that remembers its arguments and answers with fresh measurements."""

    def __init__(self):
        self.seen = []

    def __call__(self, m):
        self.seen.append(m)
        return BlochMeasurement(len(self.seen) / 64, gen.PLANES[len(self.seen) % 3])


def shape(p):
    """Everything but the measurement descriptions."""
    return [(c.kind.name, c.node, sorted(c.s_domain), sorted(c.t_domain)) if c.kind.name == "M" else repr(c) for c in p]


def meas(p):
    return [c.measurement for c in p if c.kind.name == "M"]


def same_map(ctx, p, q, rng, how):
    """Branch maps that agree as far as the inferred angles do (relative to the size of a likely branch)."""
    nodes = ref.measured_nodes(p)
    for res in ref.branches(nodes, rng, 4):
        a, b = mon.ref_kraus(p, res, "original"), mon.ref_kraus(q, res, how)
        z = np.vdot(a, b)
        d = np.linalg.norm(a * (z / abs(z) if abs(z) else 1) - b) * 2 ** (len(nodes) / 2)
        ctx.count("branches_compared")
        ctx.check(d < 1e-6, "infer-semantics", f"{how}: branch map differs ({d:.3g})", outcomes=res, before=repr(p), after=repr(q))


def patterns(ctx, rng, i):
    n = int(rng.integers(1, 9))
    p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=0.15, pauli_obj=0.35)
    p = Pattern(p.input_nodes, [command.M(c.node, near(rng, c.measurement), set(c.s_domain), set(c.t_domain)) if c.kind.name == "M" else c for c in p], p.output_nodes)
    tol = tolerances(rng)
    frozen = mon.Frozen(p)
    old, key = meas(p), (shape(p), p.input_nodes, p.output_nodes)
    ctx.sample(repr(p))
    for how, q in (("infer", p.infer_pauli_measurements(copy=True, **tol)), ("infer in place", p.copy().infer_pauli_measurements(**tol))):
        ctx.check((shape(q), q.input_nodes, q.output_nodes) == key and len(meas(q)) == len(old), "structure", f"{how} changed more than measurements", before=repr(p), after=repr(q))
        for a, b in zip(old, meas(q)):
            judge(ctx, a, b, tol, how)
        if not tol:
            same_map(ctx, p, q, rng, how)
    back = q.to_bloch().infer_pauli_measurements(copy=True, **tol)
    ctx.check([isinstance(m, PauliMeasurement) for m in meas(back)] == [isinstance(m, PauliMeasurement) for m in meas(q)] and all(a == b for a, b in zip(meas(back), meas(q)) if isinstance(b, PauliMeasurement)), "roundtrip", "inferring what was inferred, as Bloch measurements, differs", before=repr(q), after=repr(back))
    for how, r in (("to_bloch", p.to_bloch()), ("blochify", p.copy().blochify()), ("blochify copy", p.blochify(copy=True))):
        ctx.check((shape(r), r.input_nodes, r.output_nodes) == key, "structure", f"{how} changed more than measurements", before=repr(p), after=repr(r))
        for a, b in zip(old, meas(r)):
            bloch(ctx, a, b, how)
        mon.same_branches(ctx, p, r, rng, limit=3, mech="bloch-semantics", what=how)
    for how, call in (("map", lambda f: p.map(f)), ("apply", lambda f: p.apply(f, copy=True)), ("apply in place", lambda f: p.copy().apply(f))):
        f = Recorder()
        r = call(f)
        ctx.check(f.seen == old, "map-calls", f"{how} called its function on {f.seen}", pattern=repr(p))
        ctx.check((shape(r), r.input_nodes, r.output_nodes) == key and meas(r) == [BlochMeasurement((j + 1) / 64, gen.PLANES[(j + 1) % 3]) for j in range(len(old))], "map-result", f"{how}: {meas(r)}", pattern=repr(p))
        ctx.count("mapped", len(old))
    frozen.check(ctx, "mutates", "a conversion changed the pattern")
    try:
        s = StandardizedPattern.from_pattern(p)
    except NotImplementedError:
        return
    fields = lambda x: (tuple(x.input_nodes), tuple(x.output_nodes), repr(x.n_list), x.e_set, {k: set(v) for k, v in x.z_dict.items()}, {k: set(v) for k, v in x.x_dict.items()}, dict(x.c_dict), [(c.node, set(c.s_domain), set(c.t_domain)) for c in x.m_list])  # noqa: E731
    key = fields(s)
    old = [c.measurement for c in s.m_list]
    r = s.to_bloch()
    ctx.check(fields(r) == key and len(r.m_list) == len(old), "structure", "StandardizedPattern.to_bloch changed more than measurements", before=repr(p))
    for a, b in zip(old, r.m_list):
        bloch(ctx, a, b.measurement, "StandardizedPattern.to_bloch")
    mon.same_branches(ctx, s.to_pattern(), r.to_pattern(), rng, limit=2, mech="bloch-semantics", what="StandardizedPattern.to_bloch")
    f = Recorder()
    r = s.map(f)
    ctx.check(f.seen == old and fields(r) == key and [c.measurement for c in r.m_list] == [BlochMeasurement((j + 1) / 64, gen.PLANES[(j + 1) % 3]) for j in range(len(old))], "map-result", "StandardizedPattern.map", before=repr(p))
    ctx.check([c.measurement for c in s.m_list] == old and fields(s) == key, "mutates", "a conversion changed the standardised pattern")
    if old:
        ctx.nontrivial((repr(p), sorted(tol.items())))


def same_rest(ctx, og, other, how):
    ctx.check(
        nx.utils.graphs_equal(og.graph, other.graph) and tuple(og.input_nodes) == tuple(other.input_nodes) and tuple(og.output_nodes) == tuple(other.output_nodes) and dict(og.output_cliffords) == dict(other.output_cliffords) and list(other.measurements) == list(og.measurements),
        "structure", f"{how} changed more than measurements", before=repr(og), after=repr(other),
    )  # fmt: skip


def whole(ctx, rng, og, convert, tol=None):
    """Conversions of an open graph, or of what contains one (`convert`: name -> (call, the open graph of its result))."""
    old = dict(og.measurements)
    r = convert("to_bloch")
    same_rest(ctx, og, r, "to_bloch")
    for v, m in old.items():
        bloch(ctx, m, r.measurements[v], "to_bloch")
    paulis = [v for v, m in old.items() if isinstance(m, PauliMeasurement)]
    try:
        r = convert("downcast_bloch")
    except TypeError:
        ctx.check(bool(paulis), "downcast-refuses", "downcast_bloch refused Bloch measurements", og=repr(og))
        ctx.count("refused")
    else:
        ctx.check(not paulis, "downcast-accepts", "downcast_bloch accepted Pauli measurements", og=repr(og))
        ctx.check(r.measurements == old, "downcast-changes", "downcast_bloch changed measurements", og=repr(og))
        same_rest(ctx, og, r, "downcast_bloch")
    ctx.check(og.measurements == old, "mutates", "a conversion changed the open graph")


def near_og(rng, og):
    return og.map(lambda m: near(rng, m))


def opengraphs(ctx, rng, i):
    n = int(rng.integers(1, 10))
    og = near_og(rng, gen.random_opengraph(rng, n, int(rng.integers(0, n + 1)), int(rng.integers(0, n + 1)), pauli_obj=float(gen.pick(rng, (0, 0, 0.3))), cliffords=0.3))
    tol = tolerances(rng)
    old = dict(og.measurements)
    whole(ctx, rng, og, lambda name: getattr(og, name)())
    r = og.infer_pauli_measurements(**tol)
    same_rest(ctx, og, r, "infer")
    for v, m in old.items():
        judge(ctx, m, r.measurements[v], tol, "OpenGraph.infer_pauli_measurements")
        # the tolerance of one call says nothing about the next
        for t in (tol, tolerances(rng), {"abs_tol": 0.3}, {}, tol):
            for how, x in (("to_pauli_or_bloch", m.to_pauli_or_bloch(**t)), ("to_pauli_or_none", m.to_pauli_or_none(**t) or m)):
                judge(ctx, m, x, t, how)
        c = command.M(v, m, {v + 1}, {v + 2})
        d = c.map(lambda _: Measurement.Y)
        ctx.check(d == command.M(v, Measurement.Y, {v + 1}, {v + 2}) and c == command.M(v, m, {v + 1}, {v + 2}), "command-map", f"{c!r} became {d!r}")
    f = Recorder()
    r = og.map(f)
    same_rest(ctx, og, r, "map")
    ctx.check(f.seen == list(old.values()) and list(r.measurements.values()) == [BlochMeasurement((j + 1) / 64, gen.PLANES[(j + 1) % 3]) for j in range(len(old))], "map-result", "OpenGraph.map", og=repr(og))
    ctx.count("mapped", len(old))
    r = og.map(lambda m: m.to_plane_or_axis())
    ctx.check(all(x == (m.axis if isinstance(m, PauliMeasurement) else m.plane) for x, m in zip(r.measurements.values(), old.values())), "map-kinds", "planes and axes", og=repr(og))
    if old:
        ctx.nontrivial((repr(og), sorted(tol.items())))


def corrections(ctx, rng, i):
    got = gen.pauliflow_opengraph(rng, 2, 8, pauli_obj=float(gen.pick(rng, (0.0, 0.3, 0.7))), cliffords=0.2)
    if got is None:
        raise Skip("no flow found")
    og, flow = got
    xz = flow.to_xzcorrections()
    key = ({k: set(v) for k, v in xz.x_corrections.items()}, {k: set(v) for k, v in xz.z_corrections.items()}, [set(x) for x in xz.partial_order_layers])

    def convert(name):
        r = getattr(xz, name)()
        ctx.check(({k: set(v) for k, v in r.x_corrections.items()}, {k: set(v) for k, v in r.z_corrections.items()}, [set(x) for x in r.partial_order_layers]) == key, "structure", f"XZCorrections.{name} changed corrections or layers", og=repr(og))
        return r.og

    whole(ctx, rng, og, convert)
    mon.same_branches(ctx, xz.to_pattern(), xz.to_bloch().to_pattern(), rng, limit=3, mech="bloch-semantics", what="XZCorrections.to_bloch")
    ctx.nontrivial(repr(og))


FAMILIES = [
    Family("patterns", patterns, 1200, 40000),
    Family("opengraphs", opengraphs, 1500, 60000),
    Family("corrections", corrections, 300, 10000),
]
