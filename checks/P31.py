"""Printed text means what it represents (three formats), and representations evaluate back."""

import contextvars
import math
import re
import threading
from fractions import Fraction

import networkx as nx
import numpy as np

import flowref
import gen
import ref
import textread as tr
from core import Family
from graphix import Circuit, Pattern, command, instruction
from graphix.circ_ext.extraction import PauliString
from graphix.clifford import Clifford
from graphix.command import CommandKind
from graphix.flow.core import XZCorrections
from graphix.flow.exceptions import FlowError, XZCorrectionsError
from graphix.fundamentals import ANGLE_PI, Axis, ComplexUnit, Plane, Sign
from graphix.measurements import BlochMeasurement, Measurement, PauliMeasurement
from graphix.opengraph import OpenGraph
from graphix.parameter import AffineExpression, Placeholder
from graphix.pattern import PatternError, RunnabilityError
from graphix.pauli import Pauli
from graphix.pretty_print import OutputFormat, angle_to_str, command_to_str, complex_to_str, default_output_format, pattern_to_str
from graphix.sim.density_matrix import DensityMatrix
from graphix.sim.statevec import Statevector
from graphix.states import BasicStates, PlanarState

ID = "P31"
QUICK_SCALE = 2
RULE = (
    "Random numbers, angles, statevectors, density matrices, commands, patterns, flows and corrections, printed in ASCII, Unicode and LaTeX with random options, read back by an independent reader of the usual notation and compared with the value within the announced precision; "
    "values with a simple closed form must be printed without decimals. repr evaluated back; error messages compared with the reason. Non-trivial: the text has an operator; distinct = the text."
)
ASSUMPTIONS = [
    "products and quotients are read from left to right, juxtaposition included (1/4i is i/4), as pinned by the tests",
    "numbers within sqrt(atol) of a simple value may be printed as it (pinned by the tests: 1e-12 is printed 0)",
    "Clifford names such as \\sqrt{X} or I^{1/3} do not identify the Clifford; they are compared as equations",
    "numbers are below 10^4 in modulus (recognition of roots is slow for large numbers), states have at least one qubit",
]
FLOORS = {"complex": 1500, "nice": 600, "angles": 800, "states": 600, "factored": 60, "sums_before_kets": 40, "matrices": 200, "commands": 4000, "symbolic": 60, "truncated": 80, "flows": 150, "corrections": 100, "evaluated": 500, "messages": 40, "contexts": 60}
WARM = ()

FMT = (OutputFormat.ASCII, OutputFormat.Unicode, OutputFormat.LaTeX)


def read(ctx, fn, text, what, **detail):
    try:
        return fn()
    except (tr.Unreadable, ValueError, ZeroDivisionError, IndexError) as e:
        ctx.fail("unreadable", f"{what} printed as {text!r}: {e}", **detail)


def nice_real(rng):
    q = int(gen.pick(rng, (1, 1, 2, 3, 4, 5, 8, 16, 30)))
    p = int(rng.integers(1, 2 * q + 3)) * int(gen.pick(rng, (1, -1)))
    m = int(gen.pick(rng, (1, 1, 2, 3, 5, 6, 11)))
    return p / q * math.sqrt(m)


def number_value(rng):
    """(value, exactly printable)."""
    k = rng.random()
    if k < 0.25:
        return complex(nice_real(rng)), True
    if k < 0.4:
        return 1j * nice_real(rng), True
    if k < 0.55:
        q = int(rng.integers(1, 40))
        return complex(np.exp(1j * math.pi * int(rng.integers(-q, q + 1)) / q)), True
    if k < 0.65:
        return complex(nice_real(rng), nice_real(rng)), True
    if k < 0.72:
        a, b, c = [(3, 4, 5), (5, 12, 13), (8, 15, 17), (20, 21, 29)][int(rng.integers(4))]
        return complex(a / c * gen.pick(rng, (1, -1)), b / c * gen.pick(rng, (1, -1))), True
    if k < 0.78:
        return complex(0), True
    z = complex(rng.normal(), rng.normal()) * 10.0 ** int(rng.integers(-6, 4))
    if k < 0.86:
        return complex(z.real), False
    if k < 0.92:
        return 1j * z.imag, False
    return z, False


def slack(z, atol, rtol, precision, nice):
    t = max(atol, rtol * max(1.0, abs(z) ** 2))
    if nice and t < 1e-7:
        return 1e-6 * max(1.0, abs(z))
    return abs(z) * 1.3 * 10 ** (1 - precision) + 3 * math.sqrt(t) * (1 + abs(z))


def complexes(ctx, rng, i):
    z, nice = number_value(rng)
    fmt = FMT[i % 3]
    kw = {}
    if gen.chance(rng, 0.3):
        kw["precision"] = int(rng.integers(2, 9))
    if gen.chance(rng, 0.15):
        kw["atol"] = 10.0 ** -int(rng.integers(6, 13))
    if gen.chance(rng, 0.1):
        kw["rtol"] = 10.0 ** -int(rng.integers(4, 12))
    limit = 1000
    if gen.chance(rng, 0.15):
        kw["max_denominator"] = limit = int(rng.integers(1, 60))
    arg = z
    if z.imag == 0 and gen.chance(rng, 0.5):
        arg = gen.pick(rng, (float(z.real), np.float64(z.real)))
        if float(z.real).is_integer() and gen.chance(rng, 0.5):
            arg = gen.pick(rng, (int(z.real), np.int64(z.real), bool(z.real) if z.real in (0, 1) else int(z.real)))
    elif gen.chance(rng, 0.4):
        arg = np.complex128(z)
    text = complex_to_str(arg, fmt, **kw)
    got = read(ctx, lambda: tr.number(text), text, repr(arg), kw=kw)
    tol = slack(z, kw.get("atol", 1e-9), kw.get("rtol", 0.0), kw.get("precision", 4), nice and limit == 1000)
    ctx.check(abs(got - z) <= tol, "complex-value", f"{arg!r} is printed as {text!r}, which reads {got}", kw=kw, tolerance=tol, format=str(fmt))
    ctx.count("complex")
    if nice and limit == 1000:
        ctx.check("." not in text, "nice-as-decimal", f"{arg!r} is printed as {text!r}", kw=kw)
        ctx.count("nice")
    dens = [int(d) for d in re.findall(r"/(\d+)", text)]
    ctx.check(all(d <= limit for d in dens), "max-denominator", f"{arg!r} is printed as {text!r} with max_denominator={limit}", kw=kw)
    if len(text) > 2:
        ctx.nontrivial(text)


def angles(ctx, rng, i):
    k = rng.random()
    if k < 0.5:
        q = int(gen.pick(rng, (1, 2, 3, 4, 6, 7, 8, 16, 100, 999, 1000)))
        a = int(rng.integers(-3 * q, 3 * q + 1)) / q
    elif k < 0.9:
        a = float(rng.normal() * 10.0 ** int(rng.integers(-5, 3)))
    else:
        a = float(gen.pick(rng, (0.0, 1e-15, 1e-9, 1 + 1e-12, 2.0, -2.0)))
    if float(a).is_integer() and gen.chance(rng, 0.5):
        a = int(a)
    fmt = FMT[i % 3]
    kw = {"multiplication_sign": True} if gen.chance(rng, 0.4) else {}
    if gen.chance(rng, 0.3):
        kw["max_denominator"] = int(rng.integers(1, 2000))
    text = angle_to_str(a, fmt, **kw)
    got = read(ctx, lambda: tr.number(text), text, f"angle {a!r}", kw=kw)
    ctx.check(abs(got - a * math.pi) <= 2e-9 * abs(a * math.pi) + 1e-300, "angle-value", f"angle {a!r} is printed as {text!r}, which reads {got / math.pi} pi", kw=kw, format=str(fmt))
    if k < 0.5 and not kw.get("max_denominator"):
        ctx.check("." not in text, "nice-as-decimal", f"angle {a!r} is printed as {text!r}")
    if kw.get("multiplication_sign") and "pi" in text.replace("π", "pi"):
        n = abs(Fraction(a).limit_denominator(kw.get("max_denominator", 1000)).numerator)
        want = n not in (0, 1)
        ctx.check((any(c in text for c in ("*", "×", r"\times"))) == want, "multiplication-sign", f"angle {a!r} is printed as {text!r}", kw=kw)
    ctx.count("angles")
    if len(text) > 2:
        ctx.nontrivial(("angle", text))


def vector(rng, n):
    """(normalised vector, nice)."""
    d = 1 << n
    k = rng.random()
    if k < 0.25:  # uniform modulus on a random support
        sup = rng.permutation(d)[: int(rng.integers(1, d + 1))]
        v = np.zeros(d, dtype=complex)
        style = rng.random()
        for s in sup:
            if style < 0.35:
                v[s] = 1j ** int(rng.integers(4))
            elif style < 0.6:
                v[s] = np.exp(2j * math.pi * int(rng.integers(16)) / 16)
            elif style < 0.85:
                v[s] = complex(*[(3, 4), (-3, 4), (4, -3), (5, 0), (0, -5), (-4, -3)][int(rng.integers(6))]) / 5
            else:
                v[s] = np.exp(1j * rng.normal())
        return v / np.linalg.norm(v)
    if k < 0.45:
        v = rng.integers(-3, 4, d) + 1j * rng.integers(-3, 4, d) * gen.chance(rng, 0.6)
        if not np.any(v):
            v[0] = 1
        return v / np.linalg.norm(v)
    if k < 0.6:
        v = np.zeros(d, dtype=complex)
        v[int(rng.integers(d))] = np.exp(2j * math.pi * int(rng.integers(24)) / 24)
        return v
    v = ref.haar_state(rng, n)
    if gen.chance(rng, 0.5):
        v = v * (rng.random(d) < 0.6)
        if not np.any(v):
            v = ref.haar_state(rng, n)
    if gen.chance(rng, 0.25):
        v = v.real.astype(complex)
    if gen.chance(rng, 0.2):
        v = v.copy()
        v[int(rng.integers(d))] *= 10.0 ** -int(rng.integers(2, 12))
    nrm = np.linalg.norm(v)
    if nrm < 1e-3:
        return vector(rng, n)
    return v / nrm


def states(ctx, rng, i):
    n = int(rng.integers(1, 4))
    v = vector(rng, n)
    sv = Statevector(v)
    fmt = FMT[i % 3]
    kw = {}
    if gen.chance(rng, 0.5):
        kw["encoding"] = gen.pick(rng, ("MSB", "LSB"))
    if gen.chance(rng, 0.3):
        kw["precision"] = int(rng.integers(2, 9))
    if gen.chance(rng, 0.2):
        kw["atol"] = 10.0 ** -int(rng.integers(7, 13))
    before = sv.psi.copy()
    text = sv.draw(fmt, **kw)
    ctx.check(np.array_equal(before, sv.psi), "argument-modified", "draw changed the state")
    got = read(ctx, lambda: tr.state(text), text, f"{v.tolist()}", kw=kw)
    tol = slack(1.0, kw.get("atol", 1e-9), 0.0, kw.get("precision", 4), False)
    dense = np.zeros(1 << n, dtype=complex)
    for bits, c in got.items():
        ctx.check(len(bits) == n, "ket-length", f"ket {bits!r} for {n} qubits in {text!r}")
        b = bits[::-1] if kw.get("encoding") == "LSB" else bits
        dense[int(b, 2) if b else 0] = c
    err = np.abs(dense - v)
    ctx.check(np.all(err <= np.abs(v) * 1.4 * 10 ** (1 - kw.get("precision", 4)) + 4 * math.sqrt(kw.get("atol", 1e-9))), "state-value", f"{v.tolist()} is printed as {text!r}", read=dense, kw=kw, tolerance=tol)
    ctx.count("states")
    if re.search(r"\S\((?![^)]*\)[|\\])", text) and not text.startswith("("):
        ctx.count("factored")
    if re.search(r"\([^()|]*[+-][^()|]*\)[|\\]", text):
        ctx.count("sums_before_kets")
    if n >= 1:
        ctx.nontrivial(text)
        ctx.sample(text)


def matrices(ctx, rng, i):
    n = int(rng.integers(1, 3))
    d = 1 << n
    m = np.zeros((d, d), dtype=complex)
    w = rng.random(int(rng.integers(1, 4)))
    for p in w / w.sum():
        v = vector(rng, n)
        m += p * np.outer(v, v.conj())
    dm = DensityMatrix(m / np.trace(m).real)
    m = dm.rho.copy()
    fmt = FMT[i % 3]
    kw = {"precision": int(rng.integers(2, 9))} if gen.chance(rng, 0.3) else {}
    text = dm.draw(fmt, **kw)
    ctx.check(np.array_equal(m, dm.rho), "argument-modified", "draw changed the matrix")
    if fmt is OutputFormat.LaTeX:
        mm = re.fullmatch(r"\\begin\{pmatrix\}(.*)\\end\{pmatrix\}", text, re.S)
        ctx.check(mm is not None, "unreadable", f"matrix printed as {text!r}")
        rows = [r.split(" & ") for r in mm.group(1).split(r" \\ ")]
    else:
        lines = text.split("\n")
        ctx.check(len({len(x) for x in lines}) == 1 and all(x.startswith("[ ") and x.endswith(" ]") for x in lines), "alignment", text)
        rows = [re.split(r" {2,}", x[2:-2].strip()) for x in lines]
    ctx.check([len(r) for r in rows] == [d] * d, "matrix-shape", text)
    for a in range(d):
        for b in range(d):
            got = read(ctx, lambda a=a, b=b: tr.number(rows[a][b]), rows[a][b], f"entry {m[a, b]}")
            ctx.check(abs(got - m[a, b]) <= slack(m[a, b], 1e-9, 0, kw.get("precision", 4), False), "matrix-value", f"entry ({a},{b}) {m[a, b]} is printed as {rows[a][b]!r}", kw=kw)
    ctx.count("matrices")
    ctx.nontrivial(text)


ROOTS = {c: ref.CLIFFORD[c] for c in range(24)}


def clifford_name(ctx, name, c):
    """The printed name is a true statement about the Clifford."""
    m = np.asarray(Clifford(c).matrix)

    def prop(a, b):
        return abs(abs(np.trace(a.conj().T @ b)) / 2 - 1) < 1e-9

    simple = {"I": ref.I2, "X": ref.X, "Y": ref.Y, "Z": ref.Z, "S": ref.S, "Sdagger": ref.S.conj().T, "H": ref.H}
    if name in simple:
        ok = prop(m, simple[name])
    elif mm := re.fullmatch(r"\\sqrt\{-?i?([IXYZ])\}", name):
        ok = prop(m @ m, simple[mm.group(1)]) and not prop(m, ref.I2)
    elif name == "I^{1/3}":
        ok = prop(m @ m @ m, ref.I2) and not prop(m, ref.I2)
    else:
        ok = False
    ctx.check(ok, "clifford-name", f"Clifford {c} is printed {name!r}")


def expected_measurement(ctx, cmd, args, fmt, names):
    meas = cmd.measurement
    if isinstance(meas, PauliMeasurement):
        want = None if meas == Measurement.X else str(meas)
        ctx.check((args or None) == want, "measurement-text", f"{meas!r} is printed {args!r}")
        return
    ctx.check(args is not None, "measurement-text", f"{meas!r} is printed without angle")
    plane = Plane.XY
    for p in (Plane.XZ, Plane.YZ, Plane.XY):
        if args.startswith(f"{p.name},"):
            plane, args = p, args[3:]
            break
    ctx.check(plane == meas.plane, "measurement-text", f"{meas!r} is printed on plane {plane}", text=args)
    got = read(ctx, lambda: tr.number(args, names), args, repr(meas))
    if isinstance(meas.angle, AffineExpression):
        want = meas.angle.a * names[str(meas.angle.x)] + meas.angle.b
        ctx.count("symbolic")
        size = abs(meas.angle.a * names[str(meas.angle.x)]) + abs(meas.angle.b)
    else:
        want = float(meas.angle)
        size = abs(want)
    ctx.check(abs(got - want * math.pi) <= 1e-8 * size * math.pi + 1e-300, "measurement-angle", f"{meas!r} is printed with angle {args!r}, which reads {got / math.pi} pi", want=want)


def same_command(ctx, cmd, item, fmt, names):
    k = cmd.kind.name
    ctx.check(item[0] == k, "command-kind", f"{cmd!r} is printed as {item}")
    match k:
        case "T":
            return
        case "E":
            ctx.check(item[1] == frozenset(cmd.nodes), "command-nodes", f"{cmd!r} is printed as {item}")
        case "X" | "Z" | "S":
            ctx.check(item[1:] == (cmd.node, frozenset(cmd.domain)), "command-domain", f"{cmd!r} is printed as {item}")
        case "N":
            ctx.check(item[1] == cmd.node and not item[2], "command-nodes", f"{cmd!r} is printed as {item}")
        case "C":
            ctx.check(item[1] == cmd.node, "command-nodes", f"{cmd!r} is printed as {item}")
            clifford_name(ctx, item[2], cmd.clifford.value)
        case "M":
            ctx.check((item[1], item[3], item[4]) == (cmd.node, frozenset(cmd.s_domain), frozenset(cmd.t_domain)), "command-domain", f"{cmd!r} is printed as {item}")
            expected_measurement(ctx, cmd, item[2], fmt, names)
    ctx.count("commands")


def raw(rng):
    n = int(rng.integers(1, 8))
    return gen.raw_pattern(rng, n, int(rng.integers(0, min(n, 3) + 1)), cliffords=0.3, ticks=0.1, states=0.2, standardizable=False)


def some_pattern(rng, names):
    if gen.chance(rng, 0.6):
        p = raw(rng)
    else:
        p = gen.circuit(rng, int(rng.integers(1, 4)), int(rng.integers(0, 7))).transpile().pattern
        if gen.chance(rng, 0.3):
            p = p.infer_pauli_measurements()
    cmds = []
    for cmd in p:
        if cmd.kind is CommandKind.M and gen.chance(rng, 0.25) and names:
            x = Placeholder(gen.pick(rng, list(names)))
            e = x * gen.pick(rng, (1, 0.5, -2, -1, 1 / 3, 0.123, 1 / math.pi))
            if gen.chance(rng, 0.6):
                e = e + gen.pick(rng, (0.5, -0.25, 1, 0.3217))
            m = BlochMeasurement(e, gen.pick(rng, gen.PLANES))
            cmds.append(command.M(cmd.node, m, set(cmd.s_domain), set(cmd.t_domain)))
        else:
            cmds.append(cmd)
            if gen.chance(rng, 0.05):
                cmds.append(command.T() if gen.chance(rng, 0.3) else command.S(cmd.node if hasattr(cmd, "node") else 3, gen.subset(rng, range(12), 0.3)))
    q = Pattern(input_nodes=p.input_nodes)
    try:
        q.extend(cmds)
    except Exception:  # nodes used again after the change of commands: keep the original
        return p
    if gen.chance(rng, 0.3):
        f = gen.pick(rng, (lambda x: x * 10 + 7, lambda x: -x - 1, lambda x: x + 98))
        return q.reindex(f)
    return q


def patterns(ctx, rng, i):
    names = {"alpha": 0.31, "beta": -1.7, "x1": 0.77}
    p = some_pattern(rng, names)
    fmt = FMT[i % 3]
    frozen = repr(p)
    kinds = None
    if gen.chance(rng, 0.3):
        kinds = {k for k in CommandKind if gen.chance(rng, 0.5)}
    cmds = [c for c in p if kinds is None or c.kind in kinds]
    ltr = gen.chance(rng, 0.5)
    order = cmds if ltr else cmds[::-1]
    limit = gen.pick(rng, (None, None, 40, int(rng.integers(0, len(cmds) + 3)), int(rng.integers(0, 4))))
    kw = {"left_to_right": ltr, "limit": limit}
    if kinds is not None:
        kw["target"] = gen.pick(rng, (kinds, list(kinds), frozenset(kinds)))
    text = {"ASCII": p.to_ascii, "LaTeX": p.to_latex, "Unicode": p.to_unicode}[fmt.name](**kw)
    ctx.check(pattern_to_str(p, fmt, **kw) == text, "pattern-text", "pattern_to_str and the method differ")
    items, more = read(ctx, lambda: tr.pattern(text, fmt.name), text, frozen, kw=str(kw))
    ctx.check(len(items) + more == len(cmds) and more >= 0, "command-count", f"{len(cmds)} commands: {len(items)} printed, {more} announced", text=text, kw=str(kw))
    if limit is None or len(cmds) <= limit:
        ctx.check(more == 0, "command-count", f"{more} of {len(cmds)} commands are not printed with limit {limit}", text=text)
    else:
        ctx.check(len(items) <= limit, "command-count", f"{len(items)} commands printed with limit {limit}", text=text)
        ctx.check(len(items) >= limit - 1, "command-count", f"only {len(items)} commands printed with limit {limit}", text=text)
        ctx.count("truncated")
    for cmd, item in zip(order, items, strict=False):
        same_command(ctx, cmd, item, fmt.name, names)
    for cmd in cmds[:3]:
        t = command_to_str(cmd, fmt)
        same_command(ctx, cmd, read(ctx, lambda t=t: tr.command(t, fmt.name), t, repr(cmd)), fmt.name, names)
    ctx.check(repr(p) == frozen, "argument-modified", "printing changed the pattern")
    # default format: the one of the context, restored afterwards, not seen by other contexts
    outside = str(p)
    ctx.check(outside == p.to_ascii(), "default-format", "str(pattern) is not in the default format (ASCII)")

    def inside():
        default_output_format.set(fmt)
        seen = []
        t = threading.Thread(target=lambda: seen.append(str(p)))
        t.start()
        t.join()
        return str(p), angle_to_str(0.3), complex_to_str(0.5j), seen[0], Statevector(nqubit=1).draw()

    s, a, z, other, sv = contextvars.copy_context().run(inside)
    full = {"ASCII": p.to_ascii, "LaTeX": p.to_latex, "Unicode": p.to_unicode}[fmt.name]()
    ctx.check((s, a, z, sv) == (full, angle_to_str(0.3, fmt), complex_to_str(0.5j, fmt), Statevector(nqubit=1).draw(fmt)), "default-format", f"default format {fmt} not followed", got=(s, a, z, sv))
    ctx.check(other == outside and str(p) == outside, "default-format", "the format of a context is seen outside")
    ctx.count("contexts")
    if len(cmds) > 2:
        ctx.nontrivial(text)
        ctx.sample(text)


def flows(ctx, rng, i):
    kind = gen.pick(rng, ("pauli", "gflow", "causal"))
    found = gen.pauliflow_opengraph(rng, 2, 7)
    if found is None:
        og = gen.layered_opengraph(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    else:
        og = found[0]
    flow = None
    if kind == "pauli":
        flow = og.to_pauliflow_or_none()
    elif kind == "gflow":
        flow = og.to_bloch().to_gflow_or_none()
    else:
        og = gen.layered_opengraph(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)))
        flow = og.to_bloch().to_causalflow_or_none()
    if flow is None:
        return
    fmt = FMT[i % 3]
    multi = gen.chance(rng, 0.5)
    prefix = {"PauliFlow": "p", "GFlow": "g", "CausalFlow": "c"}[type(flow).__name__]
    text = {"ASCII": flow.to_ascii, "LaTeX": flow.to_latex, "Unicode": flow.to_unicode}[fmt.name](multiline=multi)
    funcs, layers = read(ctx, lambda: tr.structure(text, [prefix], fmt.name, multi), text, repr(flow))
    ctx.check(funcs[prefix] == {k: frozenset(v) for k, v in flow.correction_function.items()}, "flow-text", f"{dict(flow.correction_function)} is printed as {text!r}")
    ctx.check(layers == [frozenset(x) for x in flow.partial_order_layers][::-1], "flow-order-text", f"{flow.partial_order_layers} is printed as {text!r}")
    ctx.check(str(flow) == flow.to_ascii(), "default-format", "str(flow)")
    ctx.count("flows")
    xz = flow.to_corrections() if hasattr(flow, "to_corrections") else flow.to_xzcorrections()
    text = {"ASCII": xz.to_ascii, "LaTeX": xz.to_latex, "Unicode": xz.to_unicode}[fmt.name](multiline=multi)
    funcs, layers = read(ctx, lambda: tr.structure(text, ["x", "z"], fmt.name, multi), text, repr(xz))
    ctx.check(funcs == {"x": {k: frozenset(v) for k, v in xz.x_corrections.items()}, "z": {k: frozenset(v) for k, v in xz.z_corrections.items()}}, "corrections-text", f"{xz.x_corrections}, {xz.z_corrections} are printed as {text!r}")
    ctx.check(layers == [frozenset(x) for x in xz.partial_order_layers][::-1], "flow-order-text", f"{xz.partial_order_layers} is printed as {text!r}")
    ctx.check(str(xz) == xz.to_ascii(), "default-format", "str(corrections)")
    ctx.count("corrections")
    ctx.nontrivial(text)


def scope(names=()):
    import graphix

    d = {"graphix": graphix, "np": np, "Pattern": Pattern, "Circuit": Circuit, "Measurement": Measurement, "Clifford": Clifford, "Plane": Plane, "Axis": Axis, "Sign": Sign, "ComplexUnit": ComplexUnit, "Pauli": Pauli, "Placeholder": Placeholder}
    d.update({c: getattr(command, c) for c in ("N", "M", "E", "C", "X", "Z", "S", "T")})
    d.update({n: Placeholder(n) for n in names})
    return d


def instruction_scope():
    d = scope()
    d.update({k.name: getattr(instruction, k.name) for k in instruction.InstructionKind})
    return d


def evaluate(ctx, x, env, what):
    text = repr(x)
    try:
        y = eval(text, env)  # noqa: S307 - our own objects
    except Exception as e:  # noqa: BLE001
        ctx.fail("repr-eval", f"repr of {what} is {text!r}: {type(e).__name__}: {e}")
    ctx.count("evaluated")
    ctx.nontrivial(("repr", text))
    return y


def same_cmd_obj(a, b):
    if type(a) is not type(b):
        return False
    if a.kind is CommandKind.M:
        ma, mb = a.measurement, b.measurement
        same = ma == mb or (isinstance(ma, BlochMeasurement) and isinstance(mb, BlochMeasurement) and ma.plane == mb.plane and ma.angle == mb.angle)
        return a.node == b.node and same and set(a.s_domain) == set(b.s_domain) and set(a.t_domain) == set(b.t_domain)
    return a == b


def reprs(ctx, rng, i):
    p = some_pattern(rng, {})
    q = evaluate(ctx, p, scope(), "a pattern")
    ctx.check(q.input_nodes == p.input_nodes and q.output_nodes == p.output_nodes and len(list(p)) == len(list(q)) and all(same_cmd_obj(a, b) for a, b in zip(p, q, strict=True)), "repr-value", f"repr {p!r} evaluates to {q!r}")
    ps = some_pattern(rng, {"alpha": 0.3, "x1": 1.0})
    q = evaluate(ctx, ps, scope(("alpha", "x1")), "a parameterised pattern")
    vals = {"alpha": 0.37, "x1": -1.1}
    # placeholders are identified by their object: substitute through the objects found
    inst = []
    for r in (ps, q):
        sub = {}
        for c in r:
            if c.kind is CommandKind.M and isinstance(c.measurement, BlochMeasurement) and isinstance(c.measurement.angle, AffineExpression):
                x = c.measurement.angle.x
                sub[x] = vals[str(x)]
        inst.append(r.with_parameters(sub))
    for a, b in zip(*inst, strict=True):
        ok = type(a) is type(b)
        if ok and a.kind is CommandKind.M and isinstance(a.measurement, BlochMeasurement):
            ok = isinstance(b.measurement, BlochMeasurement) and a.measurement.plane == b.measurement.plane and abs(float(a.measurement.angle) - float(b.measurement.angle)) < 1e-9 and a.node == b.node
        elif ok:
            ok = same_cmd_obj(a, b)
        ctx.check(ok, "repr-value", f"{a!r} became {b!r} through the repr", pattern=repr(ps))
    c = gen.circuit(rng, 3, int(rng.integers(0, 8)), measure=0.1)
    for ins in c.instruction:
        text = repr(ins)
        if hasattr(ins, "angle"):
            m = re.fullmatch(r"(\w+)\((.*), ([^,]+)\)", text)
            ctx.check(m is not None and m.group(1) == ins.kind.name, "repr-value", text)
            a = read(ctx, lambda m=m: tr.number(m.group(3)), text, "angle of an instruction")
            ctx.check(abs(a - float(ins.angle) * math.pi) <= 1e-8 * abs(a) + 1e-300, "repr-value", f"{type(ins).__name__} with angle {ins.angle} (units of pi) has repr {text!r}")
            fields = [int(x) for x in m.group(2).split(", ")]
            ctx.check(fields == ([ins.target, ins.control] if ins.kind.name == "RZZ" else [ins.target]), "repr-value", text)
        else:
            ctx.check(evaluate(ctx, ins, instruction_scope(), "an instruction") == ins, "repr-value", text)
    cc = Circuit(3, [x for x in c.instruction if not hasattr(x, "angle")])
    back = evaluate(ctx, cc, instruction_scope(), "a circuit")
    ctx.check((back.width, back.instruction, back.active_qubits) == (cc.width, cc.instruction, cc.active_qubits), "repr-value", repr(cc))
    one = gen.pick(rng, (list(Clifford), list(Axis), list(Plane), list(Sign), list(ComplexUnit)))
    x = gen.pick(rng, one)
    ctx.check(evaluate(ctx, x, scope(), "an enumeration member") is x, "repr-value", repr(x))
    m = gen.measurement(rng)
    ctx.check(evaluate(ctx, m, scope(), "a measurement") == m, "repr-value", repr(m))
    pa = Pauli(gen.pick(rng, (Axis.X, Axis.Y, Axis.Z)), gen.pick(rng, list(ComplexUnit)))
    ctx.check(evaluate(ctx, pa, scope(), "a Pauli") == pa, "repr-value", repr(pa))
    st = PlanarState(gen.pick(rng, gen.PLANES), float(gen.angle(rng)))
    ctx.check(evaluate(ctx, st, scope(), "a state") == st, "repr-value", repr(st))
    cmd = command.N(int(rng.integers(9)), st)
    got = evaluate(ctx, cmd, scope(), "a preparation")
    ctx.check(got == cmd and np.allclose(got.state.to_statevector_numpy(), st.to_statevector_numpy()), "repr-value", repr(cmd))
    dim = int(rng.integers(1, 7))
    s = PauliString(dim=dim, axes={k: gen.pick(rng, list(Axis)) for k in range(dim) if gen.chance(rng, 0.6)}, sign=gen.pick(rng, list(Sign)))
    t = str(s)
    ctx.check(len(t) == dim + 1 and PauliString.from_str(t) == s, "pauli-string-text", f"{s!r} is printed {t!r}")
    ctx.check(t == str(s.sign) + "".join(s.axes[k].name if k in s.axes else "I" for k in range(dim)), "pauli-string-text", f"{s!r} is printed {t!r}")


def messages(ctx, rng, i):
    """Messages of refused inputs name the offending command, node and reason."""
    if i % 2 == 0:
        p = raw(rng)
        cmds = list(p)
        if len(cmds) < 2:
            return
        k, j = rng.integers(len(cmds), size=2)
        cmds[k], cmds[j] = cmds[j], cmds[k]
        if gen.chance(rng, 0.5):
            cmds.append(cmds[int(rng.integers(len(cmds)))])
        q = Pattern(input_nodes=p.input_nodes)
        try:
            q.extend(cmds)
            q.check_runnability()
        except RunnabilityError as e:
            t = str(e)
            ctx.check(repr(e.cmd) in t and re.search(rf"node {e.node}\b", t) is not None and "self." not in t, "message", t)
            ctx.count("messages")
            ctx.nontrivial(t)
        except (PatternError, KeyError, ValueError):
            pass
        return
    og = gen.layered_opengraph(rng, int(rng.integers(1, 4)), int(rng.integers(2, 5)))
    flow = og.to_bloch().to_causalflow_or_none()
    if flow is None:
        return
    if not og.measurements:
        return
    layers = [set(x) for x in flow.partial_order_layers]
    if i % 4 == 1:
        xz = flow.to_xzcorrections()
        x = {k: set(v) for k, v in xz.x_corrections.items()}
        z = {k: set(v) for k, v in xz.z_corrections.items()}
        d = gen.pick(rng, (x, z))
        meas = sorted(og.measurements)
        k = gen.pick(rng, meas)
        d.setdefault(k, set()).add(gen.pick(rng, meas + [int(rng.integers(1000, 2000))]))
        if gen.chance(rng, 0.2):
            d[gen.pick(rng, list(og.output_nodes) or [3000])] = {k}
        if gen.chance(rng, 0.2) and len(layers) > 2:
            layers[1], layers[-1] = layers[-1], layers[1]
        bad, exc = XZCorrections(xz.og, x, z, layers), XZCorrectionsError
    else:
        cf = {k: set(v) for k, v in flow.correction_function.items()}
        k = gen.pick(rng, sorted(cf))
        cf[k] = gen.pick(rng, (set(), {gen.pick(rng, sorted(og.graph.nodes))}, cf[k] | {gen.pick(rng, sorted(og.graph.nodes))}))
        if gen.chance(rng, 0.3) and len(layers) > 2:
            layers[1], layers[-1] = layers[-1], layers[1]
        from dataclasses import replace

        try:
            bad, exc = replace(flow, correction_function=cf, partial_order_layers=layers), FlowError
        except FlowError:
            return
    try:
        bad.check_well_formed()
    except exc as e:
        t = str(e)
        ctx.check("self." not in t and "{self" not in t and len(t) > 10, "message", f"{type(e).__name__} explains itself as {t!r}")
        if hasattr(e, "node"):
            ctx.check(re.search(rf"(?<!\d){e.node}(?!\d)", t) is not None, "message", f"node {e.node} is not mentioned in {t!r}")
        if hasattr(e, "correction_set"):
            ctx.check(str(e.correction_set) in t, "message", f"{e.correction_set} is not mentioned in {t!r}")
        name = type(e).__name__
        if name == "XZCorrectionsOrderError":
            which = e.reason.name
            d = {"X": x, "Z": z}[which]
            ctx.check(f"{which}-correction" in t and e.correction_set == frozenset(d.get(e.node, ())), "message", f"{t!r} for x={x}, z={z}")
        ctx.count("messages")
        ctx.nontrivial(t)


FAMILIES = [
    Family("complexes", complexes, 3000, 60000),
    Family("angles", angles, 1500, 30000),
    Family("states", states, 1500, 30000),
    Family("matrices", matrices, 400, 8000),
    Family("patterns", patterns, 700, 12000),
    Family("flows", flows, 450, 8000),
    Family("reprs", reprs, 250, 4000),
    Family("messages", messages, 400, 6000),
]
