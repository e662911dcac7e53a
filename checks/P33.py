"""Drawings: read back from the figure, they show exactly the object."""

import math
import tempfile
import warnings
from collections import Counter
from pathlib import Path

import matplotlib.colors as mcolors
import matplotlib.pyplot as plt
import numpy as np
from matplotlib.collections import LineCollection, PathCollection
from matplotlib.lines import Line2D
from matplotlib.patches import FancyArrowPatch
from matplotlib.text import Annotation

import gen
import mon
from core import Family
from graphix import command
from graphix.flow.core import CausalFlow
from graphix.graphsim import GraphState
from graphix.measurements import PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.pattern import DrawPatternAnnotations, Pattern, PatternError
from graphix.visualization import GraphVisualizer

ID = "P33"
RULE = (
    "Random open graphs, causal, generalised and Pauli flows and XZ-corrections (any labels, isolated nodes, self-corrections, Pauli measurements, output Cliffords, empty), and patterns drawn with each annotation, with random options and node distances; decorated graph states. "
    "Oracle: the artists of the figure are read back (nodes from their labels and markers, edges and arrows from the endpoints of lines, meaning of colours from the legend) and compared with the object. Non-trivial: an object with arrows; distinct = object and options."
)
ASSUMPTIONS = ["node distances are positive; the target of an arrow is identified when nodes are at least 0.6 apart"]
FLOORS = {"figures": 250, "edges": 1200, "arrows": 1000, "x": 50, "z": 200, "xz": 20, "curved": 150, "loops": 40, "legends": 100, "saved": 20, "cliffords": 60, "patterns": 60, "fallbacks": 15, "states": 150, "signed": 300}
WARM = ()

CAPTURED = []
SHOWN = [0]
STYLE = {}


def setup():
    real = GraphVisualizer.visualize

    def visualize(self):
        CAPTURED.append(self)
        real(self)

    GraphVisualizer.visualize = visualize

    def show(*a, **k):
        SHOWN[0] += 1

    plt.show = show


def color(c):
    return tuple(round(float(v), 3) for v in mcolors.to_rgba(c))


def marker(paths):
    v = paths[0].vertices
    return "square" if len(v) <= 5 else "round"


def legend_of(ax):
    """Meaning of the styles, as announced by the legend."""
    leg = ax.get_legend()
    if leg is None:
        return None
    out = {}
    for h, t in zip(leg.legend_handles, leg.get_texts(), strict=True):
        if isinstance(h, PathCollection):
            out[t.get_text()] = ("node", marker(h.get_paths()), color(h.get_facecolor()[0]))
        else:
            out[t.get_text()] = ("line", h.get_linestyle(), color(h.get_color()))
    return out


def learn():
    """Styles announced by the legends of reference drawings."""
    if STYLE:
        return
    p = Pattern([0], [command.N(1), command.E((0, 1)), command.M(0), command.N(2), command.N(3), command.E((1, 2)), command.E((1, 3))])
    from graphix import Measurement

    p.add(command.M(1, Measurement.X, s_domain={0}))
    p.add(command.X(2, {1}))
    p.add(command.Z(2, {0}))
    p.add(command.X(3, {0, 1}))
    p.add(command.Z(3, {0}))
    for ann in (DrawPatternAnnotations.XZCorrections, None):
        p.draw(annotations=ann)
        STYLE.update(legend_of(plt.gca()))
        plt.close("all")
    from graphix.transpiler import Circuit

    c = Circuit(1)
    c.h(0)
    c.transpile().pattern.draw()
    STYLE.update(legend_of(plt.gca()))
    plt.close("all")
    CAPTURED.clear()


def read(ctx, og, xz, flow, opts, gv, spread):
    """Compare the current figure with the object."""
    fig, ax = plt.gcf(), plt.gca()
    pos = gv.pos
    nodes = list(og.graph.nodes)
    what = {"graph": mon.og_key(og), "options": repr(opts)}
    cols, lines, segs, arrows = [], [], [], []
    for a in ax.get_children():
        if isinstance(a, PathCollection):
            cols.append(a)
        elif isinstance(a, LineCollection):
            segs.append(a)
        elif isinstance(a, FancyArrowPatch):
            arrows.append(a)
        elif isinstance(a, Line2D):
            lines.append(a)
    texts = [t for t in ax.texts if not isinstance(t, Annotation)]
    notes = [t for t in ax.texts if isinstance(t, Annotation)]

    # positions
    ctx.check(set(pos) == set(nodes), "positions", f"positions of {sorted(pos)}", **what)
    ctx.check(len({(round(x, 9), round(y, 9)) for x, y in pos.values()}) == len(nodes), "nodes-overlap", f"{dict(pos)}", **what)
    dx, dy = opts.get("node_distance", (1, 1))
    for x, y in pos.values():
        ctx.check(abs(x / dx - round(x / dx)) < 1e-9 and abs(y / dy - round(y / dy)) < 1e-9, "grid", f"({x}, {y}) with distances {dx}, {dy}", **what)
    layers = None
    if xz is not None or flow is not None:
        layers = list((xz if xz is not None else flow).partial_order_layers)
        for k, layer in enumerate(layers):
            for v in layer:
                ctx.check(abs(pos[v][0] - (len(layers) - 1 - k) * dx) < 1e-9, "layer-position", f"node {v} of layer {k} of {len(layers)} at {pos[v]}", **what)
    if isinstance(flow, CausalFlow):
        for u, s in flow.correction_function.items():
            ctx.check(abs(pos[u][1] - pos[next(iter(s))][1]) < 1e-9, "chain-row", f"{u} and {s} on different rows", **what)
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    ctx.check(all(x0 < x < x1 and y0 < y < y1 for x, y in pos.values()), "outside", f"limits {x0, x1, y0, y1}", **what)

    # nodes
    drawn = [c for c in cols if len(c.get_offsets())]
    at = {tuple(round(float(v), 6) for v in c.get_offsets()[0]): c for c in drawn}
    ctx.check(len(drawn) == len(nodes) == len(at) and all(len(c.get_offsets()) == 1 for c in drawn), "node-count", f"{len(drawn)} markers for {len(nodes)} nodes", **what)
    plain, out, pauli = STYLE["Input nodes"][2], STYLE["Output nodes"][2], STYLE["Pauli-measured nodes"][2]
    for v in nodes:
        c = at.get(tuple(round(float(t), 6) for t in pos[v]))
        ctx.check(c is not None, "node-marker", f"no marker for {v}", **what)
        got = (marker(c.get_paths()), color(c.get_facecolor()[0]))
        fill = out if v in og.output_nodes else pauli if opts.get("pauli_measurements", True) and isinstance(og.measurements[v], PauliMeasurement) else plain
        ctx.check(got == ("square" if v in og.input_nodes else "round", fill), "node-style", f"node {v} drawn {got}", **what)

    # texts
    expected = []
    labels = opts.get("node_labels", True)
    if labels is True:
        expected += [(str(v), pos[v], 1e-6) for v in nodes]
    elif labels is not False:
        expected += [(t, pos[v], 1e-6) for v, t in labels.items()]
    if opts.get("measurement_labels"):
        expected += [(m.to_plane_or_axis().name, pos[v], 0.4) for v, m in og.measurements.items()]
    if opts.get("local_clifford"):
        expected += [(str(c), pos[v], 0.4) for v, c in og.output_cliffords.items()]
        ctx.count("cliffords", len(og.output_cliffords))
    left = [(t.get_text(), t.get_position()) for t in texts]
    if layers:
        low = min((y for _, y in pos.values()), default=0)
        for k in range(len(layers)):
            expected.append((str(k), ((len(layers) - 1 - k) * dx, low), 1e-6))
        expected.append(("Layer", ((len(layers) - 1) / 2 * dx, low), math.inf))
        bars = [ln for ln in lines if len(ln.get_xdata()) == 2 and len(set(ln.get_xdata())) == 1]
        xs = sorted(float(ln.get_xdata()[0]) for ln in bars)
        ctx.check(len(xs) == len(layers) - 1 and all(k * dx < x < (k + 1) * dx for k, x in enumerate(xs)), "layer-separators", f"{xs}", **what)
        lines = [ln for ln in lines if ln not in bars]
        axis = [n for n in notes if abs(n.xyann[0] - n.xy[0]) > 0.5 and n.xyann[1] == n.xy[1] and n.xycoords != "data"]
        ctx.check(len(axis) == (len(layers) > 1) and all(n.xyann[0] < n.xy[0] for n in axis), "layer-arrow", f"{len(axis)} time arrows", **what)
        notes = [n for n in notes if n not in axis]
    ctx.check(Counter(t for t, _, _ in expected) == Counter(t for t, _ in left), "texts", f"texts {Counter(t for t, _ in left) - Counter(t for t, _, _ in expected)} instead of {Counter(t for t, _, _ in expected) - Counter(t for t, _ in left)}", **what)
    if spread >= 0.6:
        for s, p, tol in sorted(expected, key=lambda e: e[2]):
            near = [(math.dist(q, p), k) for k, (t, q) in enumerate(left) if t == s]
            d, k = min(near, default=(math.inf, None))
            ctx.check(d <= tol, "text-place", f"{s} expected at {p}, texts {left}", **what)
            left.pop(k)

    # edges
    names = {tuple(round(float(t), 6) for t in p): v for v, p in pos.items()}

    def node_at(p):
        return names.get(tuple(round(float(t), 6) for t in p))

    def clear(a, b, mech):
        """A straight line does not pass over a node it does not join."""
        if min(dx, dy) < 1:
            return
        p, q = np.array(pos[a], dtype=float), np.array(pos[b], dtype=float)
        for v in nodes:
            if v not in (a, b):
                r = np.array(pos[v], dtype=float)
                t = float(np.clip(np.dot(r - p, q - p) / np.dot(q - p, q - p), 0, 1))
                ctx.check(np.linalg.norm(p + t * (q - p) - r) > 0.15, mech, f"the line from {a} to {b} passes over {v}", pos=dict(pos), **what)

    edge_style = STYLE["Graph edge"]
    found = Counter()
    for s in segs:
        for seg in s.get_segments():
            e = node_at(seg[0]), node_at(seg[-1])
            ctx.check(None not in e, "edge-ends", f"segment {seg.tolist()}", **what)
            ctx.check(color(s.get_color()[0]) == edge_style[2] and s.get_linestyle()[0][1] is not None, "edge-style", f"edge {e}", **what)
            clear(*e, "edge-over-node")
            found[frozenset(e)] += 1
    curves = []
    for ln in lines:
        x, y = ln.get_xdata(), ln.get_ydata()
        if len(x) == 0:
            continue  # legend entries
        if ln.get_linestyle() == edge_style[1] and color(ln.get_color()) == edge_style[2]:
            e = node_at((x[0], y[0])), node_at((x[-1], y[-1]))
            ctx.check(None not in e, "edge-ends", f"curve from {x[0], y[0]} to {x[-1], y[-1]}", pos=dict(pos), **what)
            found[frozenset(e)] += 1
            ctx.count("curved")
        else:
            ctx.check(ln.get_linestyle() == "-", "line-style", f"line drawn {ln.get_linestyle()}", **what)
            curves.append((np.column_stack([x, y]), color(ln.get_color())))
    want = Counter(frozenset(e) for e in og.graph.edges)
    ctx.check(found == want, "edges", f"missing {[sorted(e) for e in want - found]}, spurious {[list(e) for e in found - want]}", pos=dict(pos), **what)
    ctx.count("edges", len(want))

    # arrows
    kinds = {}
    if flow is not None:
        for u, s in flow.correction_function.items():
            for v in s:
                kinds[u, v] = "Correction function"
    elif xz is not None:
        for u, s in xz.x_corrections.items():
            for v in s:
                kinds[u, v] = "X corrections"
        for u, s in xz.z_corrections.items():
            for v in s:
                kinds[u, v] = "X and Z corrections" if (u, v) in kinds else "Z corrections"
        for name, key in (("x", "X corrections"), ("z", "Z corrections"), ("xz", "X and Z corrections")):
            ctx.count(name, sum(k == key for k in kinds.values()))
    got = Counter()
    for a in arrows:
        p, q = a._posA_posB
        e = node_at(p), node_at(q)
        ctx.check(None not in e and e[0] != e[1], "arrow-ends", f"arrow {p} to {q}", **what)
        ctx.check("->" in repr(a.get_arrowstyle()) or type(a.get_arrowstyle()).__name__ == "CurveB", "arrow-head", f"{a.get_arrowstyle()}", **what)
        clear(*e, "arrow-over-node")
        got[(*e, color(a.get_edgecolor()))] += 1
    heads = Counter((round(float(n.xy[0]), 5), round(float(n.xy[1]), 5), color(n.arrowprops["color"])) for n in notes)
    ctx.check(all(n.arrowprops["arrowstyle"] == "->" for n in notes), "arrow-head", "", **what)
    # the head of a curved arrow points where the curve ends
    ctx.check(heads == Counter((round(float(c[-1, 0]), 5), round(float(c[-1, 1]), 5), col) for c, col in curves), "arrow-head", "heads are not at the ends of the curves", **what)
    for c, col in curves:
        ctx.check(np.isfinite(c).all(), "arrow-ends", "curve with undefined points", **what)
        src = node_at(c[0])
        if src is None:  # correction of the node itself: a loop beside it
            near = [v for v, p in pos.items() if math.dist(c[0], p) < 0.21 and math.dist(c[-1], p) < 0.21]
            ctx.check(near, "arrow-ends", f"curve from {c[0]} to {c[-1]}", pos=dict(pos), **what)
            loop = near[0] if spread >= 0.6 else None
            got[loop, loop, col] += 1
            ctx.count("loops")
        elif spread >= 0.6:
            d, dst = min((math.dist(c[-1], p), v) for v, p in pos.items())
            ctx.check(d < 0.21, "arrow-ends", f"curve from {c[0]} to {c[-1]}", pos=dict(pos), **what)
            got[src, dst, col] += 1
            ctx.count("curved")
        else:
            got[src, None, col] += 1
    need = Counter()
    for (u, v), kind in kinds.items():
        need[u, v, STYLE[kind][2]] += 1
    if spread < 0.6:
        # targets are not identified: compare the sources (None for loops)
        have, should = Counter(), Counter()
        for (u, _, c), k in got.items():
            have[u, c] += k
        for (u, v, c), k in need.items():
            should[None if u == v else u, c] += k
        ctx.check(have == should, "arrows", f"missing {list(should - have)}, spurious {list(have - should)}", kinds=kinds, pos=dict(pos), **what)
    else:
        ctx.check(got == need, "arrows", f"missing {list(need - got)}, spurious {list(got - need)}", kinds=kinds, pos=dict(pos), **what)
    ctx.count("arrows", len(kinds))

    # legend
    leg = legend_of(ax)
    if opts.get("legend", True) and nodes:
        entries = set(kinds.values())
        if og.input_nodes:
            entries.add("Input nodes")
        if og.output_nodes:
            entries.add("Output nodes")
        if opts.get("pauli_measurements", True) and any(isinstance(m, PauliMeasurement) for m in og.measurements.values()):
            entries.add("Pauli-measured nodes")
        if og.graph.edges:
            entries.add("Graph edge")
        ctx.check((leg or {}) == {e: STYLE[e] for e in entries}, "legend", f"legend {leg}", **what)
        ctx.count("legends")
    else:
        ctx.check(leg is None, "legend", f"legend {leg}", **what)
        if "figsize" in opts and opts["figsize"] is not None:
            ctx.check(tuple(fig.get_size_inches()) == tuple(map(float, opts["figsize"])), "figsize", f"{fig.get_size_inches()}", **what)
    ctx.count("figures")
    return bool(kinds)


def some_options(rng, og):
    opts = {}
    for k in ("pauli_measurements", "measurement_labels", "local_clifford"):
        if gen.chance(rng, 0.5):
            opts[k] = bool(rng.integers(2))
    if gen.chance(rng, 0.6):
        opts["legend"] = gen.chance(rng, 0.3)
    k = rng.random()
    if k < 0.15:
        opts["node_labels"] = False
    elif k < 0.35:
        opts["node_labels"] = {v: f"n{v}" for v in og.graph.nodes if gen.chance(rng, 0.7)}
    if gen.chance(rng, 0.5):
        opts["node_distance"] = gen.pick(rng, ((1, 1), (2, 1), (1, 3), (0.7, 0.6), (0.5, 2), (3, 0.3), (0.1, 0.1), (0.15, 0.3), (0.25, 0.19)))
    if gen.chance(rng, 0.2):
        opts["figsize"] = gen.pick(rng, ((4, 3), (10, 2), None))
    return opts


def contents(og, xz, flow):
    return repr((
        mon.og_key(og),
        None if xz is None else (sorted(xz.x_corrections.items()), sorted(xz.z_corrections.items()), list(xz.partial_order_layers)),
        None if flow is None else (sorted(flow.correction_function.items()), list(flow.partial_order_layers)),
    ))  # fmt: skip


def draw(ctx, rng, obj, og, xz=None, flow=None, call=None, extra=None):
    opts = some_options(rng, og)
    spread = min(opts.get("node_distance", (1, 1)))
    saved = None
    CAPTURED.clear()
    before = SHOWN[0]
    key = contents(og, xz, flow)
    n_figs = len(plt.get_fignums())
    try:
        with warnings.catch_warnings(record=True) as ws, tempfile.TemporaryDirectory(prefix="verif-p33-") as tmp:
            warnings.simplefilter("always")
            if gen.chance(rng, 0.15):
                saved = Path(tmp) / gen.pick(rng, ("drawing.png", "drawing.svg", "drawing.pdf"))
                opts["filename"] = saved
            (call or obj.draw)(**opts, **(extra or {}))
            if saved is not None:
                data = saved.read_bytes() if saved.exists() else b""
                ctx.check(data[:4] in (b"\x89PNG", b"<?xm", b"%PDF"), "saved", f"{saved.name}: {data[:20]!r}")
                ctx.count("saved")
        ctx.check(SHOWN[0] - before == (saved is None), "shown", f"shown {SHOWN[0] - before} times, filename {saved}")
        ctx.check(len(CAPTURED) == 1 and len(plt.get_fignums()) == n_figs + 1, "figures", f"{len(CAPTURED)} drawings")
        gv = CAPTURED[0]
        opts.pop("filename", None)
        some = read(ctx, og, xz, flow, opts, gv, spread)
        ctx.check(contents(og, xz, flow) == key, "modified", "drawing changed the object")
        if some:
            ctx.nontrivial((key, sorted(map(repr, opts.items()))))
        return ws
    finally:
        plt.close("all")


def an_opengraph(rng):
    n = int(rng.integers(0, 13))
    n_in, n_out = int(rng.integers(0, n + 1)), int(rng.integers(0, n + 1))
    return gen.random_opengraph(rng, n, n_in, n_out, pauli_obj=0.4, cliffords=0.4, edge_p=float(rng.choice([0.1, 0.3, 0.6])))


def opengraphs(ctx, rng, i):
    learn()
    og = an_opengraph(rng)
    if gen.chance(rng, 0.25):
        og = gen.as_labels(og)
        if any(not hasattr(m, "to_plane_or_axis") for m in og.measurements.values()):
            og = an_opengraph(rng)
    draw(ctx, rng, og, og)
    ctx.sample(mon.og_key(og)[:200])


def a_flow(rng):
    k = int(rng.integers(4))
    if k == 0:
        og = gen.layered_opengraph(rng, int(rng.integers(1, 5)), int(rng.integers(0, 7 if rng.random() < 0.8 else 16)))
        return og.to_causalflow_or_none()
    if k == 1:
        r = gen.pauliflow_opengraph(rng, 1, 8, cliffords=0.4)
        return None if r is None else r[1]
    og = gen.planted_opengraph(rng, int(rng.integers(1, 10)), int(rng.integers(1, 4)), xy=gen.pick(rng, (0.2, 0.6, 1.0)), pauli_obj=gen.pick(rng, (0, 0.5)))[0]
    if k == 2:
        try:
            return og.downcast_bloch().to_gflow_or_none()
        except TypeError:
            pass
    return og.to_pauliflow_or_none()


def flows(ctx, rng, i):
    learn()
    f = a_flow(rng)
    if f is None:
        return
    draw(ctx, rng, f, f.og, flow=f)
    ctx.sample(repr(f)[:200])


def corrections(ctx, rng, i):
    learn()
    f = a_flow(rng)
    if f is None:
        return
    xz = f.to_xzcorrections()
    draw(ctx, rng, xz, xz.og, xz=xz)


def patterns(ctx, rng, i):
    learn()
    k = int(rng.integers(3))
    if k == 0:
        p = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(0, 4))).transpile().pattern
        if gen.chance(rng, 0.5):
            p.infer_pauli_measurements()
    elif k == 1:
        f = a_flow(rng)
        if f is None:
            return
        p = f.to_xzcorrections().to_pattern()
    else:
        n = int(rng.integers(1, 7))
        p = gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), standardizable=True)
    if k < 2 and gen.chance(rng, 0.4) and p.output_nodes and len(measured := [c.node for c in p if c.kind.name == "M"]):
        # one more correction, usually not that of a flow
        p.add((command.X, command.Z)[int(rng.integers(2))](gen.pick(rng, p.output_nodes), {gen.pick(rng, measured)}))
    frozen = mon.Frozen(p)
    ann = gen.pick(rng, (None, DrawPatternAnnotations.Flow, DrawPatternAnnotations.Flow, DrawPatternAnnotations.XZCorrections))
    try:
        xz = p.to_xzcorrections()
        og = p.to_opengraph()
    except Exception as e:  # noqa: BLE001 - patterns without open graph are refused in the same way
        try:
            p.draw(annotations=ann)
            plt.close("all")
        except type(e):
            return
        plt.close("all")
        if ann is None:
            return
        ctx.fail("pattern-refused", f"to_xzcorrections raises {e!r} but the pattern is drawn", pattern=repr(p))
    if ann is None:
        draw(ctx, rng, p, og, extra={"annotations": None})
    elif ann is DrawPatternAnnotations.XZCorrections:
        draw(ctx, rng, p, xz.og, xz=xz, extra={"annotations": ann})
    else:
        from_pattern = gen.chance(rng, 0.6)
        flow = None
        for m in ("to_causalflow", "to_pauliflow") if from_pattern else ():
            try:
                flow = getattr(xz.downcast_bloch() if m == "to_causalflow" else xz, m)()
                break
            except Exception:  # noqa: BLE001
                pass
        warned = from_pattern and flow is None
        if flow is None:
            try:
                flow = og.downcast_bloch().to_causalflow_or_none()
            except TypeError:
                pass
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                flow = flow or og.to_pauliflow_or_none()
        if flow is None:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    p.draw(flow_from_pattern=from_pattern)
            except PatternError:
                ctx.count("refused")
                return
            finally:
                plt.close("all")
            ctx.fail("flow-invented", "a flow is drawn for a pattern that has none", pattern=repr(p))

        def call(**o):
            p.draw(flow_from_pattern=from_pattern, **o)

        ws = draw(ctx, rng, p, flow.og, flow=flow, call=call)
        ours = [w for w in ws if "not consistent with a flow" in str(w.message)]
        ctx.check(len(ours) == warned, "fallback-warning", f"{len(ours)} warnings", pattern=repr(p))
        ctx.count("fallbacks", warned)
    frozen.check(ctx, "modified", "drawing changed the pattern")
    ctx.count("patterns")


def decorated(ctx, rng, i):
    """GraphState.draw: fill, loop and sign of every node, and every edge."""
    n = int(rng.integers(0, 9))
    nodes = sorted(int(x) for x in rng.choice(200, n, replace=False)) if rng.random() < 0.5 else list(range(n))
    rng.shuffle(nodes)
    g = GraphState(nodes=nodes, edges=[(u, v) for a, u in enumerate(nodes) for v in nodes[:a] if rng.random() < 0.4])
    for v in nodes:
        for flag in ("hollow", "loop", "sign"):
            g.nodes[v][flag] = bool(rng.random() < 0.4)
    before = (Counter(frozenset(e) for e in g.edges), {v: dict(d) for v, d in g.nodes(data=True)})
    fill = gen.pick(rng, (None, "r", "C3", "#102030"))
    plt.close("all")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fig = plt.figure()
            g.draw() if fill is None else g.draw(fill_color=fill)
            ax = fig.gca()
            ctx.check((Counter(frozenset(e) for e in g.edges), {v: dict(d) for v, d in g.nodes(data=True)}) == before, "modified", "drawing changed the graph state")
            shown = {}
            where = {}
            for t in ax.texts:
                pos = tuple(round(float(c), 6) for c in t.get_position())
                ctx.check(pos not in where, "state-nodes", "two labels at one place")
                where[pos] = t.get_text()
            want = {("-" if g.nodes[v]["sign"] else "") + str(v): v for v in nodes}
            ctx.check(sorted(where.values()) == sorted(want), "state-labels", f"labels {sorted(where.values())}, expected {sorted(want)}", nodes=before[1])
            if not n:
                return
            at = {pos: want[text] for pos, text in where.items()}
            dots = [c for c in ax.collections if isinstance(c, PathCollection)]
            ctx.check(len(dots) == 1 and len(dots[0].get_offsets()) == n, "state-nodes", "not one marker per node")
            faces = dots[0].get_facecolor()
            for j, o in enumerate(dots[0].get_offsets()):
                v = at.get(tuple(round(float(c), 6) for c in o))
                ctx.check(v is not None, "state-nodes", "marker away from its label")
                shown[v] = color(faces[j if len(faces) > 1 else 0])
            filled = color(fill or "C0")
            ctx.check(all(shown.get(v) == (color("white") if g.nodes[v]["hollow"] else filled) for v in nodes), "state-fill", f"fills {shown}", nodes=before[1])
            drawn = Counter()
            for c in ax.collections:
                if isinstance(c, LineCollection):
                    for seg in c.get_segments():
                        a, b = (at.get(tuple(round(float(x), 6) for x in p)) for p in (seg[0], seg[-1]))
                        ctx.check(a is not None and b is not None, "state-edges", "an edge does not join two nodes")
                        if a != b:
                            drawn[frozenset((a, b))] += 1
            for c in ax.patches:
                if isinstance(c, FancyArrowPatch):
                    a, b = (at.get(tuple(round(float(x), 6) for x in p)) for p in c._posA_posB)
                    ctx.check(a is not None and b is not None, "state-edges", "an edge does not join two nodes")
                    drawn[frozenset((a, b))] += 1
            expected = before[0] + Counter(frozenset((v,)) for v in nodes if g.nodes[v]["loop"])
            ctx.check(drawn == expected, "state-edges", f"edges {dict(drawn)}, expected {dict(expected)}")
            ctx.count("states")
            ctx.count("signed", sum(bool(g.nodes[v]["sign"]) for v in nodes))
            ctx.nontrivial((sorted(map(str, before[1].items())), fill))
        finally:
            plt.close("all")


FAMILIES = [
    Family("decorated", decorated, 300, 3000, cpu_limit=30),
    Family("opengraphs", opengraphs, 400, 4000, cpu_limit=30),
    Family("flows", flows, 400, 4000, cpu_limit=30),
    Family("corrections", corrections, 400, 4000, cpu_limit=30),
    Family("patterns", patterns, 600, 4000, cpu_limit=30),
]
