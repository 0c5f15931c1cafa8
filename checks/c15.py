"""C15 - parameter binding of dispersion models."""
import re

from vlib.core import Property, close, fail, raises, require
from vlib import disp
from vlib.disp import TEMPLATES, REP, SINGLE
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C15",
    rule="a case is non-trivial if at least one argument is given by keyword out of declaration order, or an "
    "invalid argument list is used",
    assumptions=["the declared parameters, their order and defaults are those of the documentation of each model"],
)

NAMES = sorted(TEMPLATES)
# distinct values identify the parameter they were given for
value = st.floats(0.1, 9.9).map(lambda x: round(x, 5))


def call(names, vals, npos, order):
    """npos leading positional values, the others by keyword in any order, some left out."""
    pos = vals[:npos]
    rest = [n for n in names[npos:] if n in order]
    rest.sort(key=order.index)
    kw = {n: vals[names.index(n)] for n in rest}
    return pos, kw


@st.composite
def binding(draw, kind=None, what="single"):
    k = kind or draw(st.sampled_from(NAMES))
    names = list(TEMPLATES[k][0 if what == "single" else 1])
    vals = [v + i * 10 for i, v in enumerate(draw(st.lists(value, min_size=len(names), max_size=len(names))))]
    npos = draw(st.integers(0, len(names)))
    kws = draw(st.lists(st.sampled_from(names), unique=True, max_size=len(names))) if names else []
    return {"names": names, "vals": vals, "npos": npos, "kw": [n for n in kws if names.index(n) >= npos]}


def expected(kind, what, b):
    out = dict(TEMPLATES[kind][0 if what == "single" else 1])
    for i, n in enumerate(b["names"]):
        if i < b["npos"] or n in b["kw"]:
            out[n] = b["vals"][i]
    return out


def args(b):
    return b["vals"][: b["npos"]], {n: b["vals"][b["names"].index(n)] for n in b["kw"]}


@st.composite
def model_case(draw):
    k = draw(st.sampled_from(NAMES))
    one = {"k": k, "single": draw(binding(k, "single")), "rep": []}
    if TEMPLATES[k][1]:
        one["rep"] = draw(st.lists(binding(k, "rep"), max_size=3))
    one["factory"] = draw(st.booleans())
    return one


def make(one):
    a, kw = args(one["single"])
    if one["factory"]:
        d = elli.DispersionFactory.get_dispersion(one["k"], *a, **kw)
    else:
        d = getattr(elli, one["k"])(*a, **kw)
    require(type(d) is getattr(elli, one["k"]), f"{one['k']} from the factory is {type(d)}")
    return d


def check_bound(d, one, n, what):
    exp = expected(one["k"], "single", one["single"])
    require(dict(d.single_params) == exp, lambda: f"{what}: single parameters {d.single_params} != {exp}")
    require(list(d.single_params) == list(exp), f"{what}: order of the parameters")
    reps = [expected(one["k"], "rep", b) for b in one["rep"][:n]]
    require([dict(r) for r in d.rep_params] == reps, lambda: f"{what}: repeated parameters {d.rep_params} != {reps}")


def numbers_in(text):
    return text


def check_repr(d, one, n):
    text = repr(d)
    lines = text.split("\n")
    require(lines[0].strip() == one["k"], f"the textual form does not start with the name: {lines[0]!r}")
    exp = expected(one["k"], "single", one["single"])
    reps = [expected(one["k"], "rep", b) for b in one["rep"][:n]]

    def has(group, where):
        for k, v in group.items():
            m = re.search(rf"(?<![A-Za-z_0-9]){re.escape(k)} = ([^,\n]*)", where)
            require(m, f"{one['k']}: parameter {k} is missing in the textual form {where!r}")
            require(m.group(1).strip() == str(v), f"{one['k']}: {k} = {m.group(1)!r} in the textual form, is {v!r}")

    head = text.split("Oscillators")[0]
    has(exp, head)
    if reps:
        tail = [x for x in text.split("Oscillators", 1)[1].split("\n") if " = " in x]
        require(len(tail) == len(reps), f"{len(tail)} oscillators in the textual form of {len(reps)}")
        for r, x in zip(reps, tail):
            has(r, x)
    else:
        require("Oscillators" not in text, "oscillators listed where there are none")
    require(str(d) == text, "str and repr differ")


@P.sub("binding", st.fixed_dictionaries({"m": st.lists(model_case(), min_size=1, max_size=3), "order": st.lists(st.integers(0, 5), max_size=8)}), 4000, 80000, 4)
def binding_check(case, t):
    """Several instances filled in an interleaved order stay independent."""
    ms = case["m"]
    objs = [make(m) for m in ms]
    filled = [0] * len(ms)
    order = [o % len(ms) for o in case["order"]] + [i for i in range(len(ms)) for _ in range(3)]
    for i in order:
        if filled[i] < len(ms[i]["rep"]):
            a, kw = args(ms[i]["rep"][filled[i]])
            r = objs[i].add(*a, **kw)
            require(r is objs[i], "add does not return the dispersion itself")
            filled[i] += 1
        for d, m, n in zip(objs, ms, filled):
            check_bound(d, m, n, m["k"])
    for d, m, n in zip(objs, ms, filled):
        check_repr(d, m, n)
        kws = m["single"]["kw"]
        t.nontrivial(len(kws) > 1 or bool(m["rep"]))
        t.tag(m["k"], "factory" if m["factory"] else "direct")
    # a new instance has the declared defaults again
    for m in ms:
        d = getattr(elli, m["k"])()
        require(dict(d.single_params) == TEMPLATES[m["k"]][0] and d.rep_params == [], f"defaults of {m['k']} changed to {d.single_params} {d.rep_params}")
    # editing one instance does not touch a second one
    d1, d2 = make(ms[0]), make(ms[0])
    for m in ms[0]["rep"]:
        d1.add(*args(m)[0], **args(m)[1])
        d2.add(*args(m)[0], **args(m)[1])
    for k in list(d1.single_params):
        d1.single_params[k] = -77.0
    for r in d1.rep_params:
        for k in r:
            r[k] = -77.0
    check_bound(d2, ms[0], len(ms[0]["rep"]), f"second {ms[0]['k']}")
    if TEMPLATES[ms[0]["k"]][1]:
        d1.add()
        require(len(d2.rep_params) == len(ms[0]["rep"]), "an oscillator added to one instance shows in another")
        require(dict(d1.rep_params[-1]) == TEMPLATES[ms[0]["k"]][1], f"oscillator defaults of {ms[0]['k']}: {d1.rep_params[-1]}")


@P.sub("value_follows_binding", st.fixed_dictionaries({"d": disp.model([k for k in disp.SIMPLE], max_rep=2), "perm": st.integers(0, 999), "npos": st.integers(0, 6), "lbda": st.lists(fl(250, 1500, 2), min_size=1, max_size=2)}), 2000, 40000, 2)
def follows(case, t):
    """The value does not depend on how the arguments were passed; factory and class agree."""
    s = case["d"]
    L = np.array(case["lbda"])
    if not disp.regular(s, L):
        return
    rng = np.random.RandomState(case["perm"])
    names, rnames = list(TEMPLATES[s["k"]][0]), list(TEMPLATES[s["k"]][1])

    def split(nm, vals):
        vals = [disp.val(v) for v in vals]
        n = min(case["npos"], len(nm))
        rest = list(range(n, len(nm)))
        rng.shuffle(rest)
        return vals[:n], {nm[i]: vals[i] for i in rest}

    a, kw = split(names, s["s"])
    d = elli.DispersionFactory.get_dispersion(s["k"], *a, **kw)
    e = getattr(elli, s["k"])(*a, **kw)
    for r in s["r"]:
        a, kw = split(rnames, r)
        d.add(*a, **kw)
        e.add(*a, **kw)
    t.nontrivial(case["npos"] < len(names) - 1 or bool(s["r"]))
    t.tag(s["k"])
    ref = np.asarray(disp.build(s).get_dielectric(L))
    close(d.get_dielectric(L), ref, 1e-12, 0, f"{s['k']} by keywords through the factory")
    close(e.get_dielectric(L), ref, 1e-12, 0, f"{s['k']} by keywords")
    require(repr(d) == repr(e) == repr(disp.build(s)), "textual forms differ")


@st.composite
def bad_case(draw):
    k = draw(st.sampled_from(NAMES))
    what = draw(st.sampled_from(["unknown", "many", "twice", "case", "other_group"]))
    rep = draw(st.booleans()) and bool(TEMPLATES[k][1])
    return {
        "k": k, "what": what, "rep": rep, "i": draw(st.integers(0, 9)), "n": draw(st.integers(1, 3)),
        "have": draw(st.integers(0, 2)), "name": draw(st.sampled_from(["foo", "x1", "lambda", "epsilon", "amplitude", "_"])),
        "factory": draw(st.booleans()), "some": draw(st.lists(st.integers(0, 9), max_size=3)),
    }


@P.sub("invalid_parameters", bad_case(), 3000, 60000, 2)
def invalid(case, t):
    k = case["k"]
    sp, rp, _ = TEMPLATES[k]
    tmpl = rp if case["rep"] else sp
    names = list(tmpl)
    a, kw = [], {}
    w = case["what"]
    good = {names[i % len(names)]: 1.5 for i in case["some"]} if names else {}
    if w == "unknown":
        kw = dict(good, **{case["name"]: 1.0})
    elif w == "many":
        a = [1.0] * (len(names) + case["n"])
    elif w == "twice":
        if not names:
            return
        i = case["i"] % len(names)
        a = [1.0] * (i + 1)
        j = case["n"] % (i + 1)
        kw = {names[j]: 2.0}
    elif w == "case":
        cand = [n.swapcase() for n in names if n.swapcase() not in names]
        if not cand:
            return
        kw = {cand[case["i"] % len(cand)]: 1.0}
    else:
        oth = [n for n in (sp if case["rep"] else rp) if n not in tmpl]
        if not oth:
            return
        kw = dict(good, **{oth[case["i"] % len(oth)]: 1.0})
    t.nontrivial()
    t.tag(w, "oscillator" if case["rep"] else "single")
    if case["rep"]:
        d = getattr(elli, k)()
        for _ in range(case["have"]):
            d.add()
        before = (dict(d.single_params), [dict(r) for r in d.rep_params])
        raises(elli.InvalidParameters, lambda: d.add(*a, **kw), f"{k}.add(*{a}, **{kw})")
        require((dict(d.single_params), [dict(r) for r in d.rep_params]) == before, f"the rejected {k}.add left {d.rep_params}")
        d.add()
        require(len(d.rep_params) == case["have"] + 1 and dict(d.rep_params[-1]) == rp, f"after a rejected add: {d.rep_params}")
    else:
        make_ = (lambda: elli.DispersionFactory.get_dispersion(k, *a, **kw)) if case["factory"] else (lambda: getattr(elli, k)(*a, **kw))
        raises(elli.InvalidParameters, make_, f"{k}(*{a}, **{kw})")
        d = getattr(elli, k)()
        require(dict(d.single_params) == sp and d.rep_params == [], f"defaults of {k} after a rejected construction: {d.single_params}")


REQ = {
    "Table": ["lbda", "n"],
    "TableEpsilon": ["lbda", "epsilon"],
    "PseudoDielectricFunction": ["angle", "lbda", "psi", "delta"],
}
VALUE = {"lbda": [400.0, 500.0, 600.0, 700.0, 800.0], "n": [1.5] * 5, "epsilon": [2.2] * 5, "angle": 70.0, "psi": [20.0] * 5, "delta": [100.0] * 5}


@P.sub("missing_required", st.fixed_dictionaries({"k": st.sampled_from(sorted(REQ)), "give": st.integers(0, 15), "npos": st.integers(0, 3), "none": st.booleans(), "factory": st.booleans()}), 400, 4000)
def missing(case, t):
    names = REQ[case["k"]]
    give = [n for i, n in enumerate(names) if case["give"] >> i & 1]
    npos = 0
    while npos < min(case["npos"], len(names)) and names[npos] in give:
        npos += 1
    a = [VALUE[n] if n != "angle" else 70.0 for n in names[:npos]]
    a = [np.array(v) if isinstance(v, list) else v for v in a]
    kw = {n: (np.array(VALUE[n]) if n != "angle" else 70.0) for n in give if names.index(n) >= npos}
    if case["none"]:
        for n in names[npos:]:
            kw.setdefault(n, None)

    def mk():
        if case["factory"]:
            return elli.DispersionFactory.get_dispersion(case["k"], *a, **kw)
        return getattr(elli, case["k"])(*a, **kw)

    t.tag(case["k"], f"given {len(give)} of {len(names)}")
    t.nontrivial()
    if len(give) == len(names):
        d = mk()
        for n in names:
            require(np.all(np.asarray(d.single_params[n]) == np.asarray(VALUE[n])), f"{case['k']}: {n} is {d.single_params[n]}")
    else:
        raises(elli.InvalidParameters, mk, f"{case['k']} with only {give}")


WORDS = st.one_of(
    st.sampled_from(["Dispersion", "cauchy", "CAUCHY", "", "Foo", "BaseDispersion", "base_dispersion", "__name__", "np", "Cauchy ", "cauchy_custom", "sellmeier", "DispersionFactory", "InvalidParameters"]),
    st.text(alphabet="abcXYZ_ ", max_size=8),
)


@P.sub("unknown_model_names", st.fixed_dictionaries({"name": WORDS}), 400, 4000)
def unknown(case, t):
    ok = set(TEMPLATES) | set(REQ) | {"Formula", "FormulaIndex", "TableSpectraRay"}
    if case["name"] in ok:
        return
    t.nontrivial()
    raises(ValueError, lambda: elli.DispersionFactory.get_dispersion(case["name"]), f"model name {case['name']!r}")
