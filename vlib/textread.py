"""Reader of the printed notation: independent of the printer, three output formats.

Values are dictionaries ket -> complex, the key "" standing for a plain number.
"""

import cmath
import math
import re

TOKEN = re.compile(
    r"""(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:e[+-]?\d+)?)
      | (?P<ket>\|(?P<bits>[01]*)(?:>|⟩)|\\ket\{(?P<lbits>[01]*)\})
      | (?P<exp>\\mathrm\{e\}\^\{|e\^\()
      | (?P<i>\\mathrm\{i\}|i(?=sqrt|[^a-z]|$))
      | (?P<frac>\\frac\{)
      | (?P<sqrt>\\sqrt\{|sqrt\(|√)
      | (?P<pi>\\pi|π|pi)
      | (?P<mul>\\times|[*×·])
      | (?P<div>/)
      | (?P<sign>[+-])
      | (?P<open>[({])
      | (?P<close>[)}])
      | (?P<name>[A-Za-z_]\w*)
      | (?P<ws>\s+)""",
    re.X,
)


class Unreadable(Exception):
    pass


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise Unreadable(f"{text[pos:]!r} in {text!r}")
        kind = m.lastgroup
        kind = "ket" if kind in {"bits", "lbits"} else kind
        # lastgroup reports the outermost named group closed last
        if m.group("ket"):
            kind = "ket"
        if kind != "ws":
            out.append((kind, m))
        pos = m.end()
    return out


class Reader:
    def __init__(self, text, names=None):
        self.text, self.toks, self.p, self.names = text, tokens(text), 0, names or {}

    def peek(self):
        return self.toks[self.p][0] if self.p < len(self.toks) else None

    def take(self, kind=None):
        k, m = self.toks[self.p] if self.p < len(self.toks) else (None, None)
        if k is None or (kind and k != kind):
            raise Unreadable(f"expected {kind}, found {k} in {self.text!r}")
        self.p += 1
        return m

    def value(self):
        v = self.sum()
        if self.peek() is not None:
            raise Unreadable(f"trailing {self.toks[self.p][1].group()!r} in {self.text!r}")
        return v

    def sum(self):
        v = self.term()
        while self.peek() == "sign":
            neg = self.take().group() == "-"
            w = self.term()
            if ("" in v) != ("" in w):
                raise Unreadable(f"a number is added to a ket in {self.text!r}")
            v = dict(v)
            for k, c in w.items():
                if k and k in v:
                    raise Unreadable(f"ket {k} appears twice in {self.text!r}")
                v[k] = v.get(k, 0) + (-c if neg else c)
        return v

    def term(self):
        sign = 1
        while self.peek() == "sign":
            if self.take().group() == "-":
                sign = -sign
        v = mul({"": complex(sign)}, self.factor(), self.text)
        while True:
            k = self.peek()
            if k == "mul":
                self.take()
                v = mul(v, self.signed(), self.text)
            elif k == "div":
                self.take()
                w = self.factor()
                if set(w) != {""}:
                    raise Unreadable(f"division by a ket in {self.text!r}")
                v = {q: c / w[""] for q, c in v.items()}
            elif k in {None, "sign", "close"}:
                return v
            else:
                v = mul(v, self.factor(), self.text)

    def signed(self):
        if self.peek() == "sign":
            s = -1 if self.take().group() == "-" else 1
            return mul({"": complex(s)}, self.factor(), self.text)
        return self.factor()

    def scalar(self):
        v = self.sum()
        if set(v) != {""}:
            raise Unreadable(f"a number is expected in {self.text!r}")
        return v[""]

    def factor(self):
        m = self.take()
        k = self.toks[self.p - 1][0]
        if k == "num":
            return {"": complex(float(m.group()))}
        if k == "ket":
            return {"k" + (m.group("bits") if m.group("bits") is not None else m.group("lbits")): 1 + 0j}
        if k == "i":
            return {"": 1j}
        if k == "pi":
            return {"": complex(math.pi)}
        if k == "name":
            if m.group() not in self.names:
                raise Unreadable(f"unknown name {m.group()} in {self.text!r}")
            return {"": complex(self.names[m.group()])}
        if k == "open":
            v = self.sum()
            self.take("close")
            return v
        if k == "exp":
            v = self.scalar()
            self.take("close")
            return {"": cmath.exp(v)}
        if k == "sqrt":
            if m.group() == "√":
                return {"": cmath.sqrt(float(self.take("num").group()))}
            v = self.scalar()
            self.take("close")
            return {"": cmath.sqrt(v)}
        if k == "frac":
            a = self.scalar()
            self.take("close")
            if self.take("open").group() != "{":
                raise Unreadable(self.text)
            b = self.scalar()
            self.take("close")
            return {"": a / b}
        raise Unreadable(f"unexpected {m.group()!r} in {self.text!r}")


def mul(v, w, text):
    if set(v) == {""}:
        return {k: v[""] * c for k, c in w.items()}
    if set(w) == {""}:
        return {k: w[""] * c for k, c in v.items()}
    raise Unreadable(f"product of kets in {text!r}")


def number(text, names=None):
    v = Reader(text, names).value()
    if set(v) != {""}:
        raise Unreadable(f"{text!r} is not a number")
    return v[""]


def state(text):
    """bits -> amplitude."""
    if text == "0":
        return {}
    v = Reader(text).value()
    if "" in v:
        raise Unreadable(f"{text!r} is not a state")
    return {k[1:]: c for k, c in v.items()}


# -- commands -----------------------------------------------------------------

SUB = {ord(c): str(i) for i, c in enumerate("₀₁₂₃₄₅₆₇₈₉")}
SUP = {ord(c): str(i) for i, c in enumerate("⁰¹²³⁴⁵⁶⁷⁸⁹")}


def ints(text, sep=","):
    if not text:
        return frozenset()
    out = [int(x) for x in text.split(sep)]
    if len(set(out)) != len(out):
        raise Unreadable(f"repeated node in {text!r}")
    return frozenset(out)


SUBD, SUPD = "-?[₀-₉]+", r"-?[⁰¹²³⁴-⁹]+"
RE = {
    "ASCII": {
        "E": re.compile(r"E\((-?\d+),(-?\d+)\)"),
        "M": re.compile(r"(?P<b>(?:\{(?P<t>[-\d,]*)\})?\[)?M\((?P<n>-?\d+)(?:,(?P<a>[^\[\]{}]*))?\)(?:\](?:\{(?P<s>[-\d,]*)\})?)?"),
        "P": re.compile(r"(?P<k>[XZS])\((?P<n>-?\d+)(?:,\{(?P<s>[-\d,]*)\})?\)"),
        "N": re.compile(r"(?P<k>[NC])\((?P<n>-?\d+)(?:,(?P<a>.*))?\)"),
    },
    "LaTeX": {
        "E": re.compile(r"E_\{(-?\d+),(-?\d+)\}"),
        "M": re.compile(r"(?P<b>(?:\{\}_\{(?P<t>[-\d,]*)\})?\[)?M_\{(?P<n>-?\d+)\}(?:\^\{(?P<a>[^\[\]]*)\})?(?:\](?:\^\{(?P<s>[-\d,]*)\})?)?"),
        "P": re.compile(r"(?P<k>[XZS])_\{(?P<n>-?\d+)\}(?:\^\{(?P<s>[-\d,]*)\})?"),
        "N": re.compile(r"(?P<k>[NC])_\{(?P<n>-?\d+)\}(?:\^\{(?P<a>.*)\})?"),
    },
    "Unicode": {
        "E": re.compile(rf"E({SUBD})₋({SUBD})"),
        "M": re.compile(rf"(?P<b>(?P<t>(?:{SUBD}(?:₊{SUBD})*)?)\[)?M(?P<n>{SUBD})(?:\((?P<a>[^\[\]]*)\))?(?:\](?P<s>(?:{SUPD}(?:⁺{SUPD})*)?))?"),
        "P": re.compile(rf"(?P<k>[XZS])(?P<n>{SUBD})(?P<s>(?:{SUPD}(?:⁺{SUPD})*)?)"),
        "N": re.compile(rf"(?P<k>[NC])(?P<n>{SUBD})(?:\((?P<a>.*)\))?"),
    },
}


def command(text, fmt):
    """Printed command -> tuple (kind, ...)."""
    if text == "T":
        return ("T",)
    r = RE[fmt]
    uni = fmt == "Unicode"

    def node(s):
        return int(s.translate(SUB)) if uni else int(s)

    def sub(s):
        return ints(s.translate(SUB), "₊") if uni and s else ints(s)

    def sup(s):
        return ints(s.translate(SUP), "⁺") if uni and s else ints(s)

    if m := r["E"].fullmatch(text):
        return ("E", frozenset((node(m.group(1)), node(m.group(2)))))
    if m := r["P"].fullmatch(text):
        return (m.group("k"), node(m.group("n")), sup(m.group("s")))
    if m := r["M"].fullmatch(text):
        if bool(m.group("b")) != ("]" in text) or ("[" in text) != ("]" in text):
            raise Unreadable(text)
        return ("M", node(m.group("n")), m.group("a"), sup(m.group("s")), sub(m.group("t")))
    if m := r["N"].fullmatch(text):
        return (m.group("k"), node(m.group("n")), m.group("a"))
    raise Unreadable(f"{text!r} is not a command")


def pattern(text, fmt):
    """Printed pattern -> (list of printed commands, number of commands announced as not printed)."""
    more = 0
    if m := re.search(r"\.\.\.\((-?\d+) more commands\)\Z", text):
        more, text = int(m.group(1)), text[: m.start()]
    if fmt == "LaTeX":
        if not (text.startswith(r"\(") and text.endswith(r"\)")):
            raise Unreadable(text)
        parts = text[2:-2].split(r"\,") if text != r"\(\)" else []
    else:
        parts = []
        if text:
            # LaTeX names of Cliffords contain no spaces
            parts = text.split(" ")
    return [command(p, fmt) for p in parts], more


def nodeset(text, fmt):
    o, c = (r"\{", r"\}") if fmt == "LaTeX" else ("{", "}")
    if not (text.startswith(o) and text.endswith(c)):
        raise Unreadable(text)
    return ints(text[len(o) : -len(c)], ", ")


def layers(text, fmt):
    sep = {"ASCII": " < ", "Unicode": " ≺ ", "LaTeX": r" \prec "}[fmt]
    return [nodeset(t, fmt) for t in text.split(sep)] if text else []


def function(parts, name, fmt):
    out = {}
    for p in parts:
        m = re.fullmatch(rf"{name}\((-?\d+)\) = (.*)", p, re.S)
        if not m:
            raise Unreadable(p)
        n = int(m.group(1))
        if n in out:
            raise Unreadable(f"{name}({n}) printed twice")
        out[n] = nodeset(m.group(2), fmt)
    return out


def structure(text, names, fmt, multiline):
    """Flow or corrections -> ({name: function}, layers)."""
    comp = (r";\\" if multiline else r"; \;") if fmt == "LaTeX" else ("\n" if multiline else "; ")
    item = (r",\\" if multiline else r", \;") if fmt == "LaTeX" else ("\n" if multiline else ", ")
    out = {n: {} for n in names}
    if comp == item:  # one item per line in ASCII and Unicode
        lines = text.split("\n")
        for n in names:
            part = [x for x in lines[:-1] if x.startswith(f"{n}(")]
            out[n] = function(part, n, fmt)
        if sum(len(f) for f in out.values()) != len([x for x in lines[:-1] if x]):
            raise Unreadable(text)
        return out, layers(lines[-1], fmt)
    parts = text.split(comp)
    if len(parts) != len(names) + 1:
        raise Unreadable(text)
    for n, part in zip(names, parts[:-1], strict=True):
        if part:
            cut = re.split(re.escape(item) + rf"(?={n}\()", part)
            out[n] = function(cut, n, fmt)
    return out, layers(parts[-1], fmt)
