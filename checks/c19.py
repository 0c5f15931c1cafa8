"""C19 - formula dispersions (differential fuzzing against an independent parser and evaluator)."""
import cmath
import math
import re

from vlib.core import Property, close, fail, require
from vlib.disp import _dawson, H, C, Q
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C19",
    rule="a case is non-trivial if the formula has at least two operators and depends on the axis variable, or is "
    "rejected by the reference grammar",
    assumptions=[
        "where a real intermediate value leaves the domain of its function (logarithm of non-positive numbers, "
        "fractional powers of negative numbers, division by zero) nothing is required",
        "values that change by more than 1e-7 when every constant is perturbed by 1e-12 are not compared",
        "the axis variable converted to nm, um, angstrom, m, eV, meV or J",
    ],
)

FUNCS = ["sin", "cos", "tan", "sqrt", "dawsn", "ln", "log", "heaviside"]
EPS0, HBAR = 8.8541878128e-12, H / 2 / math.pi
CONST = {"1j": 1j, "pi": math.pi, "eps_0": 8.8541878188e-12, "hbar": HBAR, "h": H, "c": C}


class Reject(Exception):
    pass


class Undefined(Exception):
    """Outside the real domain: nothing is required."""


# ------------------------------------------------------------------- reference parser
TOKEN = re.compile(
    r"[ \t]*(?:(?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)|(?P<name>[A-Za-z_]\w*)|(?P<op>\*\*|[-+*/()\[\]=]))",
    re.ASCII,
)
JNUM = re.compile(r"[ \t]*1j\b")


def tokens(text):
    out, i = [], 0
    text = text.rstrip(" \t")
    while i < len(text):
        m = JNUM.match(text, i)
        if m:
            out.append(("const", "1j"))
            i = m.end()
            continue
        m = TOKEN.match(text, i)
        if not m:
            raise Reject(f"character {text[i]!r}")
        if m.group("num"):
            out.append(("num", float(m.group("num"))))
        elif m.group("name"):
            n = m.group("name")
            out.append(("func" if n in FUNCS else "const" if n in CONST else "sum" if n == "sum" else "name", n))
        else:
            out.append(("op", m.group("op")))
        i = m.end()
    return out


class Parser:
    """Documented grammar: + - * / ** with ordinary precedence, one level of sum[...]."""

    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ("end", None)

    def take(self, kind, val=None):
        p = self.peek()
        if p[0] != kind or (val is not None and p[1] != val):
            raise Reject(f"expected {kind} {val}, found {p}")
        self.i += 1
        return p[1]

    def is_op(self, *ops):
        p = self.peek()
        return p[0] == "op" and p[1] in ops

    def assignment(self):
        name = self.take("name")
        if name not in ("eps", "n"):
            raise Reject(name)
        self.take("op", "=")
        e = self.expr(False)
        if self.peek()[0] != "end":
            raise Reject(f"trailing {self.peek()}")
        return name, e

    def expr(self, rep):
        e = self.term(rep)
        while self.is_op("+", "-"):
            o = self.take("op")
            e = (o, e, self.term(rep))
        return e

    def term(self, rep):
        e = self.factor(rep)
        while self.is_op("*", "/"):
            o = self.take("op")
            e = (o, e, self.factor(rep))
        return e

    def factor(self, rep):
        if self.is_op("-", "+"):
            o = self.take("op")
            e = self.factor(rep)
            return ("neg", e) if o == "-" else e
        e = self.atom(rep)
        if self.is_op("**"):
            self.take("op")
            neg = False
            if self.is_op("-", "+"):
                neg = self.take("op") == "-"
            x = self.atom(rep)
            e = ("**", e, ("neg", x) if neg else x)
        return e

    def atom(self, rep):
        k, v = self.peek()
        if k == "op" and v == "(":
            self.i += 1
            e = self.expr(rep)
            self.take("op", ")")
            return e
        if k == "func":
            self.i += 1
            self.take("op", "(")
            e = self.expr(rep)
            self.take("op", ")")
            return ("func", v, e)
        if k == "sum" and not rep:
            self.i += 1
            self.take("op", "[")
            e = self.expr(True)
            self.take("op", "]")
            return ("sum", e)
        if k in ("num", "const", "name"):
            self.i += 1
            return (k, v)
        raise Reject(f"unexpected {k} {v}")


# ---------------------------------------------------------------- reference evaluation
class Env:
    def __init__(self, axis, x, single, rep, noise=None):
        self.axis, self.x, self.single, self.rep, self.noise = axis, x, single, rep, noise

    def n(self, v):
        if self.noise is None:
            return v
        return v * (1 + 1e-12 * self.noise.uniform(-1, 1))


def ev(e, env, idx=None):
    k = e[0]
    if k == "num":
        return env.n(e[1])
    if k == "const":
        return CONST[e[1]]
    if k == "name":
        if e[1] == env.axis:
            return env.x
        if e[1] in env.single:
            return env.n(env.single[e[1]])
        if idx is not None and e[1] in env.rep:
            return env.n(env.rep[e[1]][idx])
        raise Reject(f"unknown name {e[1]}")
    if k == "sum":
        n = len(next(iter(env.rep.values()))) if env.rep else 0
        if n == 0:
            names(e[1], env)
            if not {x for x in walk(e[1])} <= {"+", "-", "*", "neg", "num", "name", "const pi"}:
                raise Undefined
        return sum((ev(e[1], env, i) for i in range(n)), 0.0)
    if k == "neg":
        return -ev(e[1], env, idx)
    if k == "func":
        v = ev(e[2], env, idx)
        return func(e[1], v)
    a = ev(e[1], env, idx)
    b = ev(e[2], env, idx)
    if k in "+-":
        r = a + b if k == "+" else a - b
        if abs(r) < 1e-9 * abs(a):
            raise Undefined  # cancellation
        return r
    if k == "*":
        return a * b
    if k == "/":
        if abs(b) < 1e-200:
            raise Undefined
        return a / b
    # powers
    if abs(a) == 0 and not (isinstance(b, float) and b >= 0):
        raise Undefined
    if not isinstance(a, complex) and not isinstance(b, complex) and a < 0 and b != int(b):
        raise Undefined
    try:
        return a**b
    except (OverflowError, ZeroDivisionError):
        raise Undefined from None


def names(e, env):
    """All names of a sum over nothing must exist."""
    if e[0] == "name" and e[1] != env.axis and e[1] not in env.single and e[1] not in env.rep:
        raise Reject(e[1])
    for x in e[1:]:
        if isinstance(x, tuple):
            names(x, env)


def func(name, v):
    z = isinstance(v, complex)
    try:
        if name in ("sin", "cos", "tan"):
            if abs(v) > 1e6 or (z and abs(v.imag) > 30):
                raise Undefined
            return getattr(cmath if z else math, name)(v)
        if name == "sqrt":
            return cmath.sqrt(v) if z or v < 0 else math.sqrt(v)
        if name in ("ln", "log"):
            if abs(v) == 0 or (not z and v < 0):
                raise Undefined
            w = cmath.log(v) if z else math.log(v)
            return w / math.log(10) if name == "log" else w
        if name == "heaviside":
            if z:
                raise Undefined
            return 0.5 if v == 0 else float(v > 0)
        if z:
            raise Undefined
        if abs(v) < 1e-4:
            return v * (1 - 2 * v * v / 3)
        if abs(v) > 20:
            return 1 / (2 * v) * (1 + 1 / (2 * v**2) + 3 / (4 * v**4) + 15 / (8 * v**6) + 105 / (16 * v**8))
        return float(_dawson(v))
    except (OverflowError, ValueError):
        raise Undefined from None


# ------------------------------------------------------------------------ generation
SNAMES = ["a", "b", "A_1", "E0", "cc", "height", "pin", "sinus", "sqrt_a", "log_b", "hc", "eps", "n", "eps_inf", "lambda0", "cos2", "J"]
RNAMES = ["A", "B", "c_i", "gamma", "hbars", "sums"]
AXES = ["x", "lbda", "E", "wavelength", "hv", "c0"]


@st.composite
def expression(draw, axis, single, rep, depth, inside=False):
    """Text of an expression; parentheses partly redundant, blanks anywhere."""
    ws = draw(st.sampled_from(["", "", " ", "  ", "\t"]))
    kind = draw(st.sampled_from(["leaf", "leaf"] + ["bin", "bin", "bin", "pow", "func", "neg", "par"] * (depth > 0) + ["sum"] * (2 if depth > 0 and not inside else 0)))
    sub = lambda d=depth - 1, i=inside: draw(expression(axis, single, rep, d, i))  # noqa: E731
    if kind == "leaf":
        opts = [axis, "num", "num", "const"] + single + (rep * 2 if inside else [])
        o = draw(st.sampled_from(opts))
        if o == "num":
            o = draw(st.one_of(st.integers(0, 9).map(str), fl(0, 20, 3).map(repr), st.sampled_from([".5", "2.", "1e-1", "3E0", "1.5e+1", "0.25e1"])))
        elif o == "const":
            o = draw(st.sampled_from(["1j", "pi", "c", "h", "hbar", "eps_0", "1j", "pi"]))
        return o
    if kind == "bin":
        o = draw(st.sampled_from(["+", "-", "*", "/", "*", "-"]))
        return f"{sub()}{ws}{o}{ws}{sub()}"
    if kind == "pow":
        base = draw(st.sampled_from(["par", "leaf"]))
        b = f"({sub()})" if base == "par" else draw(st.sampled_from([axis, *single] + (rep if inside else [])))
        x = draw(st.one_of(st.sampled_from(["2", "3", "-1", "-2", "0.5", "+2", "(-1)", "1", "0"]), st.sampled_from(single + (rep if inside else []))))
        return f"{b}{ws}**{ws}{x}"
    if kind == "func":
        return f"{draw(st.sampled_from(FUNCS))}{ws}({sub()}{ws})"
    if kind == "neg":
        return f"{draw(st.sampled_from('-+-'))}{ws}{sub()}"
    if kind == "sum":
        return f"sum{ws}[{ws}{sub(depth - 1, True)}{ws}]"
    return f"({ws}{sub()})"


UNITS = {"nm": ("l", 1.0), "um": ("l", 1e-3), "micrometer": ("l", 1e-3), "angstrom": ("l", 10.0), "Angstroms": ("l", 10.0), "m": ("l", 1e-9), "eV": ("e", None), "meV": ("e", None), "J": ("e", None), "electronvolt": ("e", None), None: ("l", 1.0)}


def axis_value(lbda, unit):
    kind, f = UNITS[unit]
    if kind == "l":
        return lbda * f
    joule = H * C / (lbda * 1e-9)
    return joule if unit == "J" else joule / Q * (1000 if unit == "meV" else 1)


@st.composite
def formula_case(draw, depth=3):
    single = draw(st.lists(st.sampled_from(SNAMES), unique=True, min_size=1, max_size=4))
    rep = draw(st.lists(st.sampled_from(RNAMES), unique=True, max_size=3))
    axis = draw(st.sampled_from(AXES))
    nrep = draw(st.integers(1, 3)) if rep else 0
    text = draw(expression(axis, single, rep, depth))
    kind = draw(st.sampled_from(["eps", "n"]))
    sp = draw(st.sampled_from(["", " "]))
    return {
        "text": f"{kind}{sp}={sp}{text}", "kind": kind, "axis": axis,
        "single": {n: draw(mix([0, 1, 2, -1], fl(-5, 5, 3))) for n in single},
        "rep": {n: [draw(mix([0.0, 1.0], fl(-4, 4, 3))) for _ in range(nrep)] for n in rep},
        "unit": draw(st.sampled_from(list(UNITS))),
        "lbda": draw(st.lists(mix([500.0, 1000.0], fl(200, 2000, 1)), min_size=1, max_size=3)),
        "cont": draw(st.sampled_from(["array", "list", "scalar"])),
        "arrays": draw(st.booleans()),
    }


def expected(case, text, lbda):
    """Reference values, or None where nothing is required."""
    kind, tree = Parser(text).assignment()
    out = []
    for x in lbda:
        env = Env(case["axis"], axis_value(x, case["unit"]), case["single"], case["rep"])
        v = complex(ev(tree, env))
        rng = np.random.RandomState(1)
        for _ in range(2):
            e2 = Env(case["axis"], env.x * (1 + 1e-12 * rng.uniform(-1, 1)), case["single"], case["rep"], rng)
            w = complex(ev(tree, e2))
            if not abs(v - w) <= 1e-7 * abs(v) + 1e-300:
                raise Undefined
        if not (abs(v) < 1e60):
            raise Undefined
        out.append(v)
    return kind, np.array(out), tree


def depends(tree, axis):
    return tree == ("name", axis) or any(isinstance(x, tuple) and depends(x, axis) for x in tree[1:])


def ops(tree):
    return (tree[0] in ("+", "-", "*", "/", "**", "neg", "func", "sum")) + sum(ops(x) for x in tree[1:] if isinstance(x, tuple))


def construct(case, text):
    cls = elli.Formula if case["kind"] == "eps" else elli.FormulaIndex
    rep = {k: (np.array(v) if case["arrays"] else list(v)) for k, v in case["rep"].items()}
    a = (text, case["axis"], dict(case["single"]), rep)
    return cls(*a) if case["unit"] is None else cls(*a, case["unit"])


def value(d, case, lb):
    return d.get_dielectric(lb) if case["kind"] == "eps" else d.get_refractive_index(lb)


def compare(case, text, t, what="formula"):
    L = case["lbda"]
    given = L[0] if case["cont"] == "scalar" else (list(L) if case["cont"] == "list" else np.array(L))
    if case["cont"] == "scalar":
        L = L[:1]
    try:
        kind, exp, tree = expected(case, text, L)
        if kind != case["kind"]:
            raise Reject("kind")
    except Undefined:
        t.tag("undefined or ill-conditioned")
        return
    except Reject as r:
        t.nontrivial()
        t.tag("rejected")
        try:
            v = value(construct(case, text), case, given)
        except Exception:  # noqa: BLE001  any error will do
            return
        fail(f"{what} {text!r} ({r}) accepted with value {v!r}")
    t.nontrivial(ops(tree) >= 2 and depends(tree, case["axis"]))
    for k in {x for x in walk(tree)}:
        t.tag(k)
    t.tag(f"unit {case['unit']}", case["cont"])
    got = np.asarray(value(construct(case, text), case, given))
    if got.ndim == 0:
        require(case["cont"] == "scalar" or not depends(tree, case["axis"]), f"{what} {text!r}: one value for an array of wavelengths")
        got = np.full(len(L), got)
    close(got, exp, 2e-7, 1e-300, f"{what} {text!r} in {case['unit']} with {case['single']} {case['rep']} at {L}")
    return tree


def walk(tree):
    if tree[0] == "func":
        yield tree[1]
    elif tree[0] == "const":
        yield "const " + tree[1]
    else:
        yield tree[0]
    for x in tree[1:]:
        if isinstance(x, tuple):
            yield from walk(x)


@P.sub("evaluates_as_written", formula_case(), 6000, 150000, 6)
def evaluates(case, t):
    compare(case, case["text"], t)


CHARS = list("+-*/()[]=. 0123456789") + ["**", "sum", "sin", "sqrt", "1j", "x", "a", "eps", "n", "pi", "h", "\n", ",", "^", "#", "<kkr>", "!", "j", "e"]


@st.composite
def mutated(draw):
    case = draw(formula_case(2))
    s = case["text"]
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(s)))
        o = draw(st.sampled_from(["ins", "del", "rep", "swap", "split"]))
        c = draw(st.sampled_from(CHARS))
        inside = [k for k in range(1, len(s)) if re.match(r"[\w.*]{2}", s[k - 1 : k + 1])]
        if o == "split" and inside:
            # a blank inside of a number, name or operator
            i = inside[i % len(inside)]
            s = s[:i] + " " + s[i:]
        elif o == "ins":
            s = s[:i] + c + s[i:]
        elif o == "del":
            s = s[: max(i - 1, 0)] + s[i:]
        elif o == "rep":
            s = s[:i] + c + s[i + 1 :]
        elif i + 1 < len(s):
            s = s[:i] + s[i + 1] + s[i] + s[i + 2 :]
    case["text"] = s
    return case


@P.sub("ill_formed_are_rejected", mutated(), 6000, 150000, 6)
def ill(case, t):
    compare(case, case["text"], t, "mutated formula")


@st.composite
def broken_inputs(draw):
    case = draw(formula_case(2))
    case["what"] = draw(st.sampled_from(["missing", "unit", "length", "kind", "name"]))
    case["i"] = draw(st.integers(0, 9))
    case["badunit"] = draw(st.sampled_from(["s", "kg", "Hz", "foo", "nm*eV", "", "m**2", "1/cm", "K", "V"]))
    case["extra"] = draw(st.integers(1, 2))
    return case


@P.sub("invalid_inputs_are_rejected", broken_inputs(), 2500, 50000, 2)
def invalid(case, t):
    text = case["text"]
    try:
        _, tree = Parser(text).assignment()
    except Reject:
        return
    c = dict(case, single=dict(case["single"]), rep={k: list(v) for k, v in case["rep"].items()})
    w = case["what"]
    if w == "missing":
        used = sorted(used_names(tree) & set(c["single"]))
        if not used:
            return
        del c["single"][used[case["i"] % len(used)]]
    elif w == "unit":
        c["unit"] = case["badunit"]
    elif w == "length":
        if len(c["rep"]) < 2:
            return
        k = sorted(c["rep"])[case["i"] % len(c["rep"])]
        c["rep"][k] = c["rep"][k] + [1.0] * case["extra"]
    elif w == "kind":
        c["kind"] = "n" if case["kind"] == "eps" else "eps"
    else:
        text = text + " + undefined_name"
    t.nontrivial()
    t.tag(w)
    try:
        v = value(construct(c, text), c, np.array(case["lbda"]))
    except Exception:  # noqa: BLE001
        return
    fail(f"{w}: formula {text!r} with {c['single']} {c['rep']} unit {c['unit']!r} gives {v!r}")


def used_names(tree):
    out = {tree[1]} if tree[0] == "name" else set()
    for x in tree[1:]:
        if isinstance(x, tuple):
            out |= used_names(x)
    return out


@P.sub("independence", st.lists(formula_case(2), min_size=2, max_size=4), 1200, 25000, 2)
def independence(cases, t):
    """Interleaved formulas (also the same text with other parameters) do not affect each other."""
    cases = cases + [dict(cases[0], single={k: v + 1 for k, v in cases[0]["single"].items()})]
    objs = []
    for c in cases:
        c["cont"] = "array"
        try:
            exp = expected(c, c["text"], c["lbda"])
            objs.append((c, construct(c, c["text"]), exp[1]))
        except (Reject, Undefined):
            continue
        try:
            construct(c, c["text"] + " +")
        except Exception:  # noqa: BLE001
            pass
    t.nontrivial(len(objs) > 1)
    for _ in range(2):
        for c, d, e in objs:
            g = np.asarray(value(d, c, np.array(c["lbda"])))
            close(np.full(e.shape, g) if g.ndim == 0 else g, e, 2e-7, 1e-300, f"{c['text']!r} among other formulas")
    for c, d, _ in objs:
        require(dict(d.single_params) == c["single"], "single parameters of a formula changed")
        require([dict(r) for r in d.rep_params] == [dict(zip(c["rep"], v)) for v in zip(*c["rep"].values())], "repeated parameters of a formula changed")


@st.composite
def later_case(draw):
    case = draw(formula_case(2))
    case["cont"] = "array"
    val = mix([0.0, 1.0], fl(-4, 4, 3))
    case["ops"] = draw(st.lists(st.fixed_dictionaries({
        "op": st.sampled_from(["single", "term", "add", "add", "remove", "evaluate"]), "i": st.integers(0, 9), "v": st.lists(val, min_size=4, max_size=4)}), min_size=1, max_size=5))
    return case


@P.sub("later_changes", later_case(), 1500, 30000, 2)
def later(case, t):
    """A formula follows later changes of the parameters it holds and terms added to it."""
    case = dict(case, single=dict(case["single"]), rep={k: list(v) for k, v in case["rep"].items()})
    try:
        if expected(case, case["text"], case["lbda"])[0] != case["kind"]:
            return
    except (Reject, Undefined):
        return
    d = construct(case, case["text"])
    L = np.array(case["lbda"])
    n = 0
    for o in case["ops"]:
        names = list(case["rep"])
        terms = len(case["rep"][names[0]]) if names else 0
        if o["op"] == "single" or not names:
            k = sorted(case["single"])[o["i"] % len(case["single"])]
            d.single_params[k] = case["single"][k] = o["v"][0]
        elif o["op"] == "term" and terms:
            k = names[o["i"] % len(names)]
            j = o["i"] % terms
            d.rep_params[j][k] = case["rep"][k][j] = o["v"][0]
        elif o["op"] == "remove" and terms > 1:
            j = o["i"] % terms
            del d.rep_params[j]
            for k in names:
                del case["rep"][k][j]
        elif o["op"] == "add":
            new = dict(zip(names, o["v"]))
            d.add(**new) if o["i"] % 2 else d.add(*new.values())
            for k in names:
                case["rep"][k].append(new[k])
        t.tag(o["op"])
        try:
            exp = expected(case, case["text"], case["lbda"])[1]
        except (Reject, Undefined):
            continue
        n += 1
        g = np.asarray(value(d, case, L))
        close(np.full(exp.shape, g) if g.ndim == 0 else g, exp, 2e-7, 1e-300, f"{case['text']!r} after {o['op']} with {case['single']} {case['rep']}")
    t.nontrivial(n > 0 and depends(expected_tree(case), case["axis"]))


def expected_tree(case):
    return Parser(case["text"]).assignment()[1]


@P.sub("step_function", st.fixed_dictionaries({"a": st.integers(250, 1500), "d": st.lists(st.integers(-3, 3), min_size=1, max_size=4), "flip": st.booleans()}), 300, 4000)
def step(case, t):
    """heaviside is 0, 1/2, 1 below, at and above zero."""
    txt = "eps = 1 + heaviside(a - x)" if case["flip"] else "eps = 1 + heaviside(x - a)"
    d = elli.Formula(txt, "x", {"a": case["a"]}, {}, "nm")
    L = np.array([case["a"] + k for k in case["d"]], float)
    t.nontrivial(0 in case["d"])
    e = 1 + np.array([0.5 if k == 0 else float((k > 0) != case["flip"]) for k in case["d"]])
    close(d.get_dielectric(L).real, e, 1e-12, 0, txt)
