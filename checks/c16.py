"""C16 - sums of dispersions."""
from vlib.core import Property, close, raises, require
from vlib import disp, rich
from vlib.disp import TEMPLATES
from vlib import gen
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C16",
    rule="a case is non-trivial if it has at least two non-constant terms, or a parameter of a term is changed later",
    assumptions=[
        "a table is never added to another bare table and a pseudo-dielectric function never is the left operand: "
        "these raise NotImplementedError by documentation",
        "numbers are int or float",
    ],
)
EPS = [k for k in disp.EPS if k not in ("CodyLorentz", "Tanguy")]


def atoms(rep):
    kinds = disp.INDEX if rep == "n" else EPS
    tab = rich.table(200.0, 2000.0).filter(lambda s: s["rep"] == rep)
    num = st.one_of(st.integers(-5, 5), fl(-4, 4, 3)).map(lambda x: {"k": "num", "v": x})
    model = disp.model(kinds, max_rep=2)
    frm = (
        st.tuples(fl(0.5, 3), fl(-100, 100)).map(lambda t: {"k": "formula", "rep": rep, "c": list(t)})
    )
    return st.one_of(model, model, model, tab, num, frm)


def tree(rep):
    leaf = atoms(rep)
    return st.recursive(
        leaf,
        lambda ch: st.one_of(
            st.tuples(ch, ch).map(lambda t: {"k": "+", "of": list(t)}),
            st.lists(ch, min_size=1, max_size=4).map(lambda t: {"k": "sumfn", "of": t}),
            st.tuples(ch, st.integers(0, 3)).map(lambda t: {"k": "again", "of": [t[0], t[1]]}),
        ),
        max_leaves=6,
    )


def has_number_only(s):
    return s["k"] == "num" or (s["k"] in ("+", "sumfn") and all(has_number_only(x) for x in s["of"])) or (s["k"] == "again" and has_number_only(s["of"][0]))


def bare_table(s):
    return s["k"] == "table"


class NotSupported(Exception):
    pass


def build(s, leaves, nodes):
    """The live object; `leaves` collects (spec, object), `nodes` intermediate sums."""
    k = s["k"]
    if k == "num":
        return s["v"]
    if k == "formula":
        cls = elli.Formula if s["rep"] == "eps" else elli.FormulaIndex
        o = cls(("eps" if s["rep"] == "eps" else "n") + " = a + b / x", "x", {"a": s["c"][0], "b": s["c"][1]}, {}, "nm")
        leaves.append((s, o))
        return o
    if k == "+":
        a, b = build(s["of"][0], leaves, nodes), build(s["of"][1], leaves, nodes)
        return add(a, b, nodes)
    if k == "sumfn":
        parts = [build(x, leaves, nodes) for x in s["of"]]
        acc = 0
        for p in parts:  # what sum() does, checked for unsupported pairs first
            guard(acc, p)
            acc = acc + p
        return sum(parts)
    if k == "again":
        # the same object several times in a sum
        a = build(s["of"][0], leaves, nodes)
        out = a
        for _ in range(s["of"][1]):
            out = add(out, a, nodes)
        return out
    o = rich.build_disp(s)
    leaves.append((s, o))
    return o


TAB = (elli.Table, elli.TableEpsilon)


def guard(a, b):
    if isinstance(a, TAB) and isinstance(b, TAB):
        raise NotSupported


def value_of(o, L, rep):
    if isinstance(o, (int, float)):
        return np.full(L.shape, complex(o))
    v = o.get_refractive_index(L) if rep == "n" else o.get_dielectric(L)
    return np.broadcast_to(np.asarray(v), L.shape)


CUR = {}


def add(a, b, nodes):
    guard(a, b)
    L, rep = CUR["L"], CUR["rep"]
    va, vb = value_of(a, L, rep).copy(), value_of(b, L, rep).copy()
    ra, rb = repr(a), repr(b)
    out = a + b
    require(repr(a) == ra and repr(b) == rb, lambda: f"forming a sum changed the textual form of an operand: {ra[:200]!r} -> {repr(a)[:300]!r}; {rb[:200]!r} -> {repr(b)[:300]!r}")
    require(np.array_equal(value_of(a, L, rep), va, equal_nan=True) and np.array_equal(value_of(b, L, rep), vb, equal_nan=True), "forming a sum changed the value of an operand")
    if not isinstance(out, (int, float)):
        require(out is not a and out is not b, "a sum is one of its operands")
        nodes.append(out)
    return out


def ref(s, L):
    k = s["k"]
    if k == "num":
        return np.full(L.shape, complex(s["v"]))
    if k == "formula":
        return s["c"][0] + s["c"][1] / L + 0j
    if k in ("+", "sumfn"):
        return sum(ref(x, L) for x in s["of"])
    if k == "again":
        return ref(s["of"][0], L) * (1 + s["of"][1])
    if k == "table":
        v = np.array([complex(*x) for x in s["v"]])
        return np.interp(L, s["lbda"], v.real) + 1j * np.interp(L, s["lbda"], v.imag)
    return disp.reference(s, L)


def size(s, L):
    """Sum of the magnitudes of the terms: the scale of rounding."""
    if s["k"] in ("+", "sumfn"):
        return sum(size(x, L) for x in s["of"])
    if s["k"] == "again":
        return size(s["of"][0], L) * (1 + s["of"][1])
    return float(np.max(np.abs(ref(s, L))))


def terms(s):
    if s["k"] in ("+", "sumfn"):
        return sum((terms(x) for x in s["of"]), [])
    if s["k"] == "again":
        return terms(s["of"][0])
    return [s]


case_s = st.sampled_from(["n", "eps"]).flatmap(
    lambda r: st.fixed_dictionaries({"rep": st.just(r), "tree": tree(r), "lbda": st.lists(fl(250, 1800, 2), min_size=1, max_size=3), "edit": st.tuples(st.integers(0, 9), st.integers(0, 9), fl(0.5, 2)).map(list)})
)


@P.sub("pointwise", case_s, 5000, 100000, 4)
def pointwise(case, t):
    L, s, rep = np.array(case["lbda"]), case["tree"], case["rep"]
    leaf_specs = terms(s)
    if any(not disp.regular(x, L) for x in leaf_specs if "r" in x):
        return
    CUR.update(L=L, rep=rep)
    leaves, nodes = [], []
    try:
        o = build(s, leaves, nodes)
    except NotSupported:
        t.tag("table + table")
        return
    if isinstance(o, (int, float)):
        return
    for x in leaf_specs:
        t.tag(x["k"])
    t.tag(f"terms={len(leaf_specs)}", "index" if rep == "n" else "permittivity", s["k"])
    t.nontrivial(sum(x["k"] != "num" for x in leaf_specs) > 1)
    scale = size(s, L)
    tol = 1e-9 * (1 + scale)
    close(value_of(o, L, rep), ref(s, L), 1e-9, tol, "sum against the pointwise sum of the formulas")
    if rep == "n":
        close(np.broadcast_to(o.get_dielectric(L), L.shape), ref(s, L) ** 2, 1e-8, tol * (1 + scale), "permittivity of an index-based sum")
        require(isinstance(o, elli.dispersions.base_dispersion.IndexDispersion), "a sum of index models is not an index model")
    # every term is unchanged by having been summed
    for ls, lo in leaves:
        close(value_of(lo, L, rep), ref(ls, L), 1e-9, 1e-9 * (1 + size(ls, L)), f"{ls['k']} after it was summed")
    # a sum with a table, asked (twice) at exactly the wavelengths of the table
    nodes_of = [np.array(x["lbda"]) for x in leaf_specs if x["k"] == "table"]
    if nodes_of and all(disp.regular(x, nodes_of[0]) for x in leaf_specs if "r" in x):
        N = nodes_of[0]
        t.tag("at the nodes of a table")
        for what in ("first", "second"):
            e = ref(s, N)
            close(value_of(o, N, rep), e, 1e-9, 1e-9 * (1 + size(s, N)), f"sum at the wavelengths of its table ({what} query)")
        for ls, lo in leaves:
            close(value_of(lo, N, rep), ref(ls, N), 1e-9, 1e-9 * (1 + size(ls, N)), f"{ls['k']} at the wavelengths of the table")
    # a later change of one parameter of a leaf is the only thing that changes the sum
    i, j, f = case["edit"]
    live = [(ls, lo) for ls, lo in leaves if "r" in ls and (ls["s"] or ls["r"])]
    if not live:
        return
    ls, lo = live[i % len(live)]
    if ls["k"] in ("Sellmeier", "SellmeierCustomExponent", "LorentzEnergy", "LorentzLambda", "Gaussian", "TaucLorentz"):
        if not lo.rep_params:
            return
        r = lo.rep_params[j % len(lo.rep_params)]
        r["A"] = r["A"] * f + 0.25
    else:
        key = next(iter(lo.single_params))
        if ls["k"] == "DrudeResistivity":
            lo.single_params[key] = lo.single_params[key] * f
        else:
            lo.single_params[key] = lo.single_params[key] + f
    t.tag("edited")
    now = sum_now(s, leaves, L, rep)
    close(value_of(o, L, rep), now, 1e-9, 1e-9 * (1 + scale + np.max(abs(now))), f"sum after a later change of {ls['k']}")


def sum_now(s, leaves, L, rep):
    it = iter([lo for _, lo in leaves])

    def walk(x):
        k = x["k"]
        if k == "num":
            return np.full(L.shape, complex(x["v"]))
        if k in ("+", "sumfn"):
            return sum(walk(y) for y in x["of"])
        if k == "again":
            return walk(x["of"][0]) * (1 + x["of"][1])
        return value_of(next(it), L, rep)

    return walk(s)


@P.sub(
    "grouping_and_order",
    st.sampled_from(["n", "eps"]).flatmap(
        lambda r: st.fixed_dictionaries({"rep": st.just(r), "of": st.lists(atoms(r), min_size=2, max_size=6), "perm": st.integers(0, 999), "lbda": st.lists(fl(250, 1800, 2), min_size=1, max_size=2)})
    ),
    2500,
    50000,
    2,
)
def grouping(case, t):
    """Left fold, right fold, random binary tree and sum() of the same terms agree."""
    L, rep = np.array(case["lbda"]), case["rep"]
    specs = [dict(x) for x in case["of"]]
    if "n" in case:  # many of them, at most one table
        tables = [x for x in specs if x["k"] == "table"][:1]
        rest = [x for x in specs if x["k"] != "table"]
        specs = tables + [dict(rest[i % len(rest)]) for i in range(case["n"])] if rest else tables
        t.tag("many terms")
    if any(not disp.regular(x, L) for x in specs if "r" in x):
        return
    if sum(x["k"] == "table" for x in specs) > 1 or all(x["k"] == "num" for x in specs):
        return
    CUR.update(L=L, rep=rep)
    objs = [build(x, [], []) for x in specs]
    t.nontrivial(sum(x["k"] != "num" for x in specs) > 1)
    t.tag(*[x["k"] for x in specs])
    rng = np.random.RandomState(case["perm"])

    def random_tree(xs):
        if len(xs) == 1:
            return xs[0]
        c = rng.randint(1, len(xs))
        return random_tree(xs[:c]) + random_tree(xs[c:])

    forms = {"sum()": sum(objs), "sum() of the reverse": sum(reversed(objs))}
    acc = objs[0]
    for x in objs[1:]:
        acc = acc + x
    forms["left to right"] = acc
    acc = objs[-1]
    for x in reversed(objs[:-1]):
        acc = x + acc
    forms["right to left"] = acc
    forms["random grouping"] = random_tree(objs)
    forms["random order"] = random_tree([objs[i] for i in rng.permutation(len(objs))])
    acc = objs[0]
    for x in objs[1:]:
        acc += x
    forms["+="] = acc
    e = sum(ref(x, L) for x in specs)
    tol = 1e-9 * (1 + sum(size(x, L) for x in specs))
    for n, o in forms.items():
        close(value_of(o, L, rep), e, 1e-9, tol, f"{n}")
    for x, o in zip(specs, objs):
        close(value_of(o, L, rep), ref(x, L), 1e-9, 1e-9 * (1 + size(x, L)), f"{x['k']} afterwards")


P.sub(
    "sums_of_many",
    st.sampled_from(["n", "eps"]).flatmap(
        lambda r: st.fixed_dictionaries({"rep": st.just(r), "of": st.lists(atoms(r), min_size=2, max_size=5), "perm": st.integers(0, 999), "n": gen.big(8, 64), "lbda": st.lists(fl(250, 1800, 2), min_size=1, max_size=2)})
    ),
    150,
    3000,
    2,
)(grouping)


@P.sub(
    "kinds_do_not_mix",
    st.fixed_dictionaries({"n": tree("n"), "eps": tree("eps"), "flip": st.booleans(), "lbda": st.lists(fl(250, 1800, 2), min_size=1, max_size=2)}),
    2000,
    40000,
    2,
)
def kinds(case, t):
    L = np.array(case["lbda"])
    if has_number_only(case["n"]) or has_number_only(case["eps"]):
        return
    if any(not disp.regular(x, L) for x in terms(case["n"]) + terms(case["eps"]) if "r" in x):
        return
    try:
        CUR.update(L=L, rep="n")
        a = build(case["n"], [], [])
        CUR.update(L=L, rep="eps")
        b = build(case["eps"], [], [])
    except NotSupported:
        return
    ra, rb = repr(a), repr(b)
    t.nontrivial()
    t.tag(case["n"]["k"], case["eps"]["k"])
    x, y = (b, a) if case["flip"] else (a, b)
    raises(TypeError, lambda: x + y, "adding an index-based and a permittivity-based dispersion")
    raises(TypeError, lambda: sum([x, y]), "sum() of an index-based and a permittivity-based dispersion")
    for junk in ("1", None, [1.0], {"a": 1}, 1j):
        if junk == 1j:
            continue
        raises(TypeError, lambda: a + junk, f"adding {junk!r}")
        raises(TypeError, lambda: b + junk, f"adding {junk!r}")
    require(repr(a) == ra and repr(b) == rb, "a rejected sum changed an operand")
    # explicit conversion
    c = b.as_index()
    vb = value_of(b, L, "eps")
    close(value_of(c, L, "n") ** 2, vb, 1e-9, 1e-9 * (1 + np.max(abs(vb))), "converted dispersion")
    s = (c + a) if case["flip"] else (a + c)
    e = value_of(a, L, "n") + np.sqrt(vb)
    g = value_of(s, L, "n")
    # (the square root of a negative real permittivity may take either sign of zero imaginary part)
    ok = (vb.imag != 0) | (vb.real > 0)
    close(g[ok], e[ok], 1e-9, 1e-9 * (1 + np.max(abs(e))), "sum with a converted dispersion")
    require(repr(b) == rb, "converting changed the dispersion")
    close(value_of(b, L, "eps"), vb, 0, 0, "converting changed the value")


@P.sub(
    "converted_model_follows",
    st.fixed_dictionaries({"d": disp.model(EPS, max_rep=3), "i": st.integers(0, 9), "f": fl(0.5, 2), "which": st.booleans(), "lbda": st.lists(fl(250, 1800, 2), min_size=1, max_size=2)}),
    500,
    10000,
)
def follows(case, t):
    """An index-based view of a permittivity model keeps evaluating the parameters it reports."""
    L, spec = np.array(case["lbda"]), case["d"]
    if not disp.regular(spec, L):
        return
    d = rich.build_disp(spec)
    c = d.as_index()
    target = d if case["which"] else c
    if not (spec["s"] or spec["r"]):
        return
    t.tag(spec["k"], "original edited" if case["which"] else "conversion edited")
    if spec["r"]:
        r = target.rep_params[case["i"] % len(spec["r"])]
        r["A" if "A" in r else list(r)[0]] = r["A" if "A" in r else list(r)[0]] * case["f"] + 0.25
    else:
        key = list(target.single_params)[0]
        target.single_params[key] = target.single_params[key] * case["f"]
    t.nontrivial()
    for o, what in ((d, "original"), (c, "conversion")):
        sp = {"k": spec["k"], "s": list(o.single_params.values()), "r": [list(x.values()) for x in o.rep_params]}
        if any(not isinstance(v, (int, float)) for v in sp["s"]):
            sp["s"] = [[complex(v).real, complex(v).imag] for v in sp["s"]]
        e = disp.reference(sp, L)
        close(value_of(o, L, "eps"), e, 1e-8, 1e-9 * (1 + np.max(abs(e))), f"{what}: value for the parameters it reports")
    n = value_of(c, L, "n")
    close(n**2, value_of(c, L, "eps"), 1e-9, 1e-9 * (1 + np.max(abs(n)) ** 2), "index and permittivity of the conversion")
