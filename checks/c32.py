"""C32 - copies behave like the original and are independent of it."""
import copy
import pickle

from vlib.core import Property, close, require
from vlib import disp, gen, quant, rich
from vlib.gen import elli, fl, mix, st
from checks import c07
from elli.fitting import ParamsHist
import numpy as np

P = Property(
    "C32",
    rule="a case is non-trivial if the original or the copy is changed after copying in a way that changes its value",
    assumptions=[
        "structures within the numerically safe domain; only public attributes and methods are used for changes",
        "pickling is asked of objects without user-defined functions, default profiles and conversions, whose functions "
        "Python cannot pickle",
    ],
)


def dup(o, how):
    return copy.deepcopy(o) if how == "deepcopy" else pickle.loads(pickle.dumps(o))


def picklable(s):
    """No function objects inside."""
    if isinstance(s, dict):
        return s.get("k") != "conv" and s.get("l") != "vary" and all(picklable(v) for v in s.values())
    return all(picklable(v) for v in s) if isinstance(s, list) else True


# --------------------------------------------------------------------- dispersions
model = st.one_of(rich.dispersion, rich.conv(), rich.formula(), disp.model([k for k in disp.TEMPLATES if k != "Tanguy"], max_rep=3))
sums = st.lists(st.one_of(model, model, fl(-2, 3).map(lambda x: {"k": "num", "v": x})), min_size=2, max_size=4).map(lambda of: {"k": "mixed", "of": of})


def rep_of(s):
    if "rep" in s:
        return s["rep"]
    if s["k"] in ("conv", "sum"):
        return "n" if s["k"] == "conv" else rep_of(s["of"][0])
    return disp.repr_of(s)


def build(s, leaves):
    if s["k"] == "mixed":
        parts = [x for x in s["of"] if x["k"] == "num" or rep_of(x) == rep_of(first(s))]
        tabs = [x for x in parts if x["k"] == "table"]
        parts = [x for x in parts if x["k"] != "table" or x is tabs[0]]
        out = None
        for x in parts:
            o = x["v"] if x["k"] == "num" else build(x, leaves)
            out = o if out is None else out + o
        return out
    if s["k"] == "conv":
        return build(s["of"], leaves).as_index()
    if s["k"] == "sum":
        return build(s["of"][0], leaves) + build(s["of"][1], leaves)
    o = rich.build_disp(s)
    leaves.append((s, o))
    return o


def first(s):
    return next(x for x in s["of"] if x["k"] != "num")


def edit(leaves, i, j, f):
    """Changes one parameter of one of the leaf models; returns the name of the change."""
    live = [(s, o) for s, o in leaves if s["k"] != "table" and (s["s"] or s["r"])]
    if not live:
        return None
    s, o = live[i % len(live)]
    if o.rep_params and (j % 2 or not o.single_params):
        r = o.rep_params[j % len(o.rep_params)]
        k = list(r)[0]
        r[k] = r[k] * f + 0.125
        return "oscillator"
    k = list(o.single_params)[0]
    v = o.single_params[k]
    o.single_params[k] = v * f if s["k"] in ("DrudeResistivity",) else v * f + 0.125
    return "single parameter"


def values(o, L):
    e = np.broadcast_to(np.asarray(o.get_dielectric(L)), L.shape).astype(complex)
    n = np.broadcast_to(np.asarray(o.get_refractive_index(L)), L.shape).astype(complex)
    return np.stack([e, n**2])


def same(a, b, what):
    ok = np.isfinite(b)
    require(np.array_equal(np.isfinite(a), ok), f"{what}: {a} is not {b}")
    close(a[ok], b[ok], 1e-12, 1e-12, what)


@P.sub(
    "dispersions",
    st.fixed_dictionaries(
        {"d": st.one_of(model, model, sums), "lbda": st.lists(fl(rich.LO + 5, rich.HI - 5, 2), min_size=1, max_size=3), "how": st.sampled_from(["deepcopy", "pickle"]), "which": st.booleans(),
         "i": st.integers(0, 9), "j": st.integers(0, 9), "f": fl(0.5, 1.5)}
    ),
    2000,
    40000,
    4,
)
def dispersions(case, t):
    s, L = case["d"], np.array(case["lbda"])
    if s["k"] == "mixed" and all(x["k"] == "num" for x in s["of"]):
        return
    if rich.singular([x for x in s.get("of", [s]) if isinstance(x, dict) and x["k"] != "num"] if s["k"] == "mixed" else s, L):
        t.tag("singular")
        return
    how = case["how"] if picklable(s) else "deepcopy"
    t.tag(s["k"], how, "original changed" if case["which"] else "copy changed")
    leaves = []
    o = build(s, leaves)
    if isinstance(o, (int, float)):
        return
    v = values(o, L)
    c, cl = dup((o, leaves), how)
    text = repr(o)
    require(type(c).__name__ == type(o).__name__ and repr(c) == text, "textual form of the copy differs")
    require(c is not o, "the copy is the original")
    same(values(c, L), v, "copy against the original")
    same(values(o, L), v, "original after copying")
    a, b = (o, c) if case["which"] else (c, o)
    done = edit(leaves if case["which"] else cl, case["i"], case["j"], case["f"])
    if not done:
        return
    new = []
    ref = build(s, new)  # built anew and edited alike
    edit(new, case["i"], case["j"], case["f"])
    e = values(ref, L)
    t.nontrivial(not np.allclose(e, v, rtol=1e-9, equal_nan=True))
    same(values(b, L), v, f"{'copy' if case['which'] else 'original'} after a change ({done}) of the {'original' if case['which'] else 'copy'}")
    require(repr(b) == text, "a change of one of them appears in the textual form of the other")
    same(values(a, L), e, f"{'original' if case['which'] else 'copy'} after its change ({done})")


# ---------------------------------------------------------------- materials ... structures
mut = st.tuples(st.just("mut"), st.integers(0, 60), st.integers(0, 20), fl(0.7, 1.3), rich.dispersion, gen.rotation()).map(list)


@P.sub(
    "structures",
    st.fixed_dictionaries(
        {"s": rich.structure(max_layers=2), "lbda": rich.wavelengths(1, 2), "theta": gen.theta(0, 80), "how": st.sampled_from(["deepcopy", "deepcopy", "pickle"]),
         "ops": st.lists(st.tuples(st.integers(0, 2), mut).map(list), min_size=1, max_size=4), "again": st.booleans()}
    ),
    700,
    15000,
    8,
)
def structures(case, t):
    """A structure and its copies, changed separately, against freshly built ones."""
    spec, L = copy.deepcopy(case["s"]), np.array(case["lbda"], float)
    if not rich.evaluable(spec, L, case["theta"]):
        t.tag("outside domain")
        return
    how = case["how"] if picklable(spec) else "deepcopy"
    worlds = [c07.World(spec, False)]
    worlds.append(copy_world(worlds[0], how))
    if case["again"]:
        worlds.append(copy_world(worlds[-1], "deepcopy"))
    t.tag(how, f"{len(worlds)} objects")

    def compare(what):
        for k, w in enumerate(worlds):
            e = rich.build_structure(w.spec)
            prof, ref = w.struct.get_permittivity_profile(L), e.get_permittivity_profile(L)
            require(len(prof) == len(ref), f"object {k} {what}: {len(prof)} layers instead of {len(ref)}")
            for (d1, e1), (d2, e2) in zip(prof, ref):
                close(d1, d2, 1e-9, 1e-9, f"object {k} {what}: thickness")
                close(e1, e2, 1e-9, 1e-9 * (1 + np.max(abs(e2))), f"object {k} {what}: tensor")
            if rich.evaluable(w.spec, L, case["theta"]):
                a, b = w.struct.evaluate(L, case["theta"]), e.evaluate(L, case["theta"])
                quant.same(quant.read(a, quant.SIMPLE), quant.read(b, quant.SIMPLE), f"object {k} {what}: results")

    compare("after copying")
    for k, op in case["ops"]:
        g = c07.mutate(worlds[k % len(worlds)], op)
        if g:
            t.tag(g)
            t.nontrivial()
        compare(f"after a change of object {k % len(worlds)} ({g})")


def copy_world(w, how):
    """The structure, all objects in it and the spec, copied together."""
    out = copy.copy(w)
    out.spec, out.pairs, out.struct = dup((w.spec, w.pairs, w.struct), how)
    return out


# ------------------------------------------------------------------- results and experiments
@P.sub(
    "results",
    st.fixed_dictionaries(
        {"s": st.lists(rich.structure(max_layers=2, depth=0), min_size=1, max_size=3), "lbda": rich.wavelengths(1, 3), "theta": gen.theta(20, 80), "how": st.sampled_from(["deepcopy", "pickle"]),
         "range": st.sampled_from([None, (0, 360), (-90, 270)]), "what": st.sampled_from(["result", "list", "mean", "experiment"]), "vector": st.sampled_from([None, [1, 0.5], [1, 0, 0, 1]])}
    ),
    400,
    8000,
    4,
)
def results(case, t):
    L = np.array(case["lbda"])
    if not all(rich.evaluable(s, L, case["theta"]) for s in case["s"]):
        t.tag("outside domain")
        return
    how = case["how"] if picklable(case["s"]) else "deepcopy"
    t.tag(how, case["what"])
    objs = [rich.build_structure(s) for s in case["s"]]
    exps = [elli.Experiment(o, L, case["theta"], case["vector"]) for o in objs]
    if case["what"] == "experiment":
        c = dup(exps[0], how)
        close(c.lbda, exps[0].lbda, 0, 0, "wavelengths of the copy")
        close(c.stokes_vector, exps[0].stokes_vector, 0, 0, "polarisation of the copy")
        before = quant.read(exps[0].evaluate())
        quant.same(quant.read(c.evaluate()), before, "copied experiment")
        exps[0].set_theta(case["theta"] / 2)
        exps[0].set_lbda(L + 7)
        exps[0].structure.set_back_material(elli.ConstantRefractiveIndex(2.2).get_mat())
        t.nontrivial()
        quant.same(quant.read(c.evaluate()), before, "copied experiment after a change of the original")
        return
    res = [e.evaluate() for e in exps]
    if case["range"]:
        res = [r.as_delta_range(*case["range"]) for r in res]
    o = {"result": lambda: res[0], "list": lambda: elli.ResultList(res), "mean": lambda: elli.ResultList(res).mean}[case["what"]]()
    before = quant.read(o)
    c = dup(o, how)
    require(type(c) is type(o), f"copy of {type(o).__name__} is {type(c).__name__}")
    for q, e in quant.read(c).items():
        require(e.shape == before[q].shape and np.allclose(e, before[q], rtol=1e-12, atol=0, equal_nan=True), f"{q} of the copy differs")
    if case["what"] == "list":
        require(len(c) == len(o), "length of the copy")
        c.append(res[0])
        require(len(o) == len(res), "appending to the copy appends to the original")
        o.append(res[0])
        o.append(res[0])
        require(len(c) == len(case["s"]) + 1, "appending to the original appends to the copy")
    elif case["what"] == "result":
        c = c.as_delta_range(-180, 180)
        for q, e in quant.read(o).items():
            require(np.array_equal(e, before[q], equal_nan=True), f"{q} of the original changed with the delta range of the copy")
    t.nontrivial(case["what"] != "mean")


# ------------------------------------------------------------------------------- parameters
par = st.tuples(fl(-5, 5), st.booleans(), st.booleans(), st.booleans()).map(list)


@P.sub(
    "parameters",
    st.fixed_dictionaries({"p": st.lists(par, min_size=1, max_size=4), "how": st.sampled_from(["deepcopy", "pickle", "copy()", "copy.copy"]), "hist": st.lists(fl(-5, 5), max_size=3), "new": st.lists(fl(-5, 5), min_size=1, max_size=4), "which": st.booleans()}),
    600,
    10000,
)
def parameters(case, t):
    p = ParamsHist()
    for i, (v, vary, bound, expr) in enumerate(case["p"]):
        if expr and i:
            p.add(f"p{i}", expr="2 * p0 + 1")
        else:
            p.add(f"p{i}", v, vary=vary, **({"min": -6, "max": 7 + i} if bound else {}))
    for v in case["hist"]:
        p.update_value("p0", v)

    def state(x):
        return [(n, q.value, q.vary, q.min, q.max, q.expr) for n, q in x.items()]

    s, h = state(p), [state(x) for x in p.history]
    c = {"copy()": lambda: p.copy(), "copy.copy": lambda: copy.copy(p)}.get(case["how"], lambda: dup(p, case["how"]))()
    t.tag(case["how"])
    require(type(c) is ParamsHist, f"copy is {type(c).__name__}")
    require(state(c) == s and state(p) == s, f"parameters {s} copied to {state(c)}")
    a, b = (p, c) if case["which"] else (c, p)
    hb = [state(x) for x in b.history]
    for v in case["new"]:
        a.update_value("p0", v)
        t.nontrivial(v != s[0][1])
    require(state(b) == s, f"a change of {'the original' if case['which'] else 'the copy'} changed the other: {s} to {state(b)}")
    require([state(x) for x in b.history] == hb, "a change of one of them changed the history of the other")
    e = dict((n, v) for n, v, *_ in s)
    e["p0"] = case["new"][-1]
    for i, (_, _, _, expr) in enumerate(case["p"]):
        if expr and i:
            e[f"p{i}"] = 2 * e["p0"] + 1
    got = {n: v for n, v, *_ in state(a)}
    close([got[n] for n in e], [min(max(e[n], -6), 7) if n == "p0" and case["p"][0][2] else e[n] for n in e], 1e-12, 1e-12, "changed parameters")
    while a.history_len:
        a.pop()
    require(state(b) == s, "undoing in one of them changed the other")
    t.tag(f"history={min(len(h), 3)}")
