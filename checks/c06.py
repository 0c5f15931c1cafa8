"""C06 - wavelength-wise independence (metamorphic: array against single evaluations)."""
from vlib.core import Property, close, require
from vlib import disp, gen, quant, rich
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C06",
    rule="a case is non-trivial if the wavelength list has at least two different wavelengths at which the "
    "evaluated quantity differs, or a container other than a plain float array is used",
    assumptions=[
        "structures within the numerically safe domain (attenuation exponent below 4 for the 4x4 solver)",
        "models without wavelength dependence may return one value standing for all wavelengths",
    ],
)

wl = st.tuples(
    st.lists(st.one_of(st.sampled_from([300.0, 400.0, 500.0, 633.0, 1000.0]), fl(250, 1700, 3)), min_size=1, max_size=5),
    st.lists(st.integers(0, 9), max_size=3),
    st.integers(0, 1000),
).map(lambda t: _dup(*t))


def _dup(ls, dups, perm):
    ls = ls + [ls[i % len(ls)] for i in dups]
    return list(np.array(ls)[np.random.RandomState(perm).permutation(len(ls))])


def bc(x, n):
    return np.broadcast_to(np.asarray(x), (n,)) if np.ndim(x) == 0 else np.asarray(x)


@P.sub("dispersions", st.fixed_dictionaries({"d": st.one_of(disp.model(list(disp.TEMPLATES)), rich.dispersion), "lbda": wl}), 900, 20000, 4)
def dispersions(case, t):
    s, L = case["d"], np.array(case["lbda"])
    if rich.singular(s, L):
        t.tag("singular")
        return
    d = rich.build_disp(s)
    t.tag(s["k"], f"n={len(L)}")
    for name, f in (("permittivity", d.get_dielectric), ("index", d.get_refractive_index)):
        arr = bc(f(L), len(L))
        one = np.array([bc(f(np.array([x])), 1)[0] for x in L])
        sca = np.array([np.asarray(f(float(x))).reshape(-1)[0] for x in L])
        t.nontrivial(len(np.unique(one)) > 1)
        tol = 1e-11 * (1 + np.max(abs(one)))
        close(arr, one, 1e-11, tol, f"{name}: array against one-element arrays")
        close(arr, sca, 1e-11, tol, f"{name}: array against scalar wavelengths")


far = st.tuples(
    st.lists(fl(200, 1700, 3), min_size=1, max_size=2), st.lists(fl(1700, 9500, 2), min_size=1, max_size=3), st.integers(0, 100)
).map(lambda t: _dup(t[0] + t[1], [], t[2]))


@P.sub(
    "dispersions_far_range",
    st.fixed_dictionaries(
        {"d": st.one_of(disp.model(["CodyLorentz"], min_rep=0), disp.model(list(disp.TEMPLATES))), "lbda": far}
    ),
    500,
    12000,
    2,
)
def far_range(case, t):
    """Wavelengths far apart in one query (up to 9.5 um)."""
    dispersions(case, t)


# Arrays that a lookup by length, ends, sum or set of values would confuse
def _confuse(t):
    base, kinds, xs = t
    out = [list(base)]
    for k, x in zip(kinds, xs):
        b = list(out[k // 8 % len(out)])
        n = len(b)
        k %= 8
        if k == 0:
            b[n // 2 if n > 2 else 0] = x  # same length and ends
        elif k == 1:
            b = b[::-1]
        elif k == 2:
            b = b[1:] + b[:1]
        elif k == 3 and n > 2:
            b[1], b[-2] = (b[1] + b[-2]) / 2 + 3, (b[1] + b[-2]) / 2 - 3  # same sum
        elif k == 4:
            b = b[:-1] or b
        elif k == 5:
            b = b + [x]
        elif k == 6:
            b = [b[0]] * n
        else:
            b = [v + 1e-3 for v in b]
        out.append([float(v) for v in b])
    return out


queries = st.tuples(
    st.lists(fl(250, 1700, 3), min_size=2, max_size=5), st.lists(st.integers(0, 40), min_size=1, max_size=4), st.lists(fl(250, 1700, 3), min_size=4, max_size=4)
).map(_confuse)


@P.sub(
    "repeated_queries",
    st.fixed_dictionaries({"s": rich.shared(rich.structure(max_layers=3)), "q": queries, "theta": gen.theta(0, 80), "what": st.sampled_from(["disp", "mat", "profile", "evaluate"])}),
    900,
    20000,
    4,
)
def repeated_queries(case, t):
    """One object asked for several, easily confused wavelength arrays in turn: each answer as from a fresh object."""
    s = case["s"]
    if case["what"] == "evaluate":
        if not all(rich.evaluable(s, np.array(q), case["theta"]) for q in case["q"]):
            t.tag("outside domain")
            return
    elif any(rich.singular(s, np.array(q)) for q in case["q"]):
        t.tag("singular")
        return
    t.tag(case["what"])
    t.nontrivial()

    def ask(obj, q):
        """[(name, array)]"""
        st_, reg = obj
        if case["what"] == "disp":
            ds = [o for o in reg if isinstance(o, elli.dispersions.base_dispersion.BaseDispersion)]
            return [(f"{type(o).__name__} {n}", bc(f(q), len(q))) for o in ds for n, f in (("permittivity", o.get_dielectric), ("index squared", lambda x, o=o: np.asarray(o.get_refractive_index(x)) ** 2))]
        if case["what"] == "mat":
            ms = [o for o in reg if isinstance(o, elli.Material)]
            return [(f"{type(o).__name__} tensor", o.get_tensor(q)) for o in ms]
        if case["what"] == "profile":
            return [("profile tensor", e) for _, e in st_.get_permittivity_profile(q)]
        return [("result", st_.evaluate(q, case["theta"]))]

    def make():
        reg = []
        return rich.build_structure(s, reg), reg

    live = make()
    order = list(range(len(case["q"]))) + [0]
    for i in order:
        q = np.array(case["q"][i])
        for (name, a), (_, b) in zip(ask(live, q), ask(make(), q)):
            if case["what"] == "evaluate":
                quant.same(quant.read(a), quant.read(b), f"query {i} of one structure", ratios=quant.well_defined(b))
            else:
                close(a, b, 1e-9, 1e-9 * (1 + np.max(abs(b))), f"query {i}: {name}")


@P.sub("materials", st.fixed_dictionaries({"m": rich.material(), "lbda": wl}), 900, 20000, 2)
def materials(case, t):
    L = np.array(case["lbda"])
    if rich.singular(case["m"], L):
        t.tag("singular")
        return
    m = rich.build(case["m"])
    t.tag(case["m"]["m"])
    for name, f in (("tensor", m.get_tensor), ("index tensor", m.get_refractive_index)):
        arr = f(L)
        one = np.concatenate([f(np.array([x])) for x in L])
        sca = np.concatenate([f(float(x)) for x in L])
        t.nontrivial(len(np.unique(one[:, 2, 2])) > 1)
        # (index tensors: square roots of rounding noise in vanishing elements)
        tol = 1e-10 * (1 + np.max(abs(one))) if name == "tensor" else 1e-6
        if name == "tensor":
            close(arr, one, 1e-10, tol, f"{name}: array against one-element arrays")
            close(arr, sca, 1e-10, tol, f"{name}: array against scalar wavelengths")
        else:
            close(arr**2, one**2, 1e-9, tol, f"{name} squared: array against one-element arrays")
            close(arr**2, sca**2, 1e-9, tol, f"{name} squared: array against scalar wavelengths")


def pick(case, s):
    if rich.is_iso(s) and case["solver"] == "2x2":
        return "2x2", {"solver": elli.Solver2x2}
    kw = {"solver": elli.Solver4x4}
    if case["prop"] == "eig":
        kw["propagator"] = elli.PropagatorEig()
    elif case["prop"] == "linear":
        kw["propagator"] = elli.PropagatorLinear()
    elif case["prop"] == "scipy":
        kw["propagator"] = elli.PropagatorExpm("scipy")
    return "4x4", kw


def str_case(lb=wl, **kw):
    return st.fixed_dictionaries(
        {
            "s": rich.shared(st.one_of(rich.structure(**kw), rich.structure(mat=rich.iso_material(), back=rich.iso_material(), with_graded=False))),
            "lbda": lb,
            "theta": gen.theta(0, 85),
            "solver": st.sampled_from(["2x2", "4x4"]),
            "prop": st.sampled_from(["default", "default", "eig", "scipy", "linear"]),
        }
    )


@P.sub("structures", str_case(), 700, 20000, 4)
def structures(case, t):
    s, L = case["s"], np.array(case["lbda"])
    name, kw = pick(case, s)
    if not rich.evaluable(s, L, case["theta"], name):
        t.tag("outside domain")
        return
    obj = rich.build_structure(s)
    full = obj.evaluate(L, case["theta"], **kw)
    t.tag(name, case["prop"] if name == "4x4" else None, f"n={len(L)}")
    t.nontrivial(len(set(np.round(full.R, 9))) > 1)
    ok = quant.well_defined(full)
    got = quant.read(full)
    one = [quant.read(obj.evaluate(np.array([x]), case["theta"], **kw)) for x in L]
    for q in quant.ALL:
        require(len(got[q]) == len(L), lambda: f"{q}: {len(got[q])} values for {len(L)} wavelengths")
    quant.same(got, {q: np.concatenate([o[q] for o in one]) for q in quant.ALL}, "array against single wavelengths", ratios=ok)
    # depth profile
    prof = obj.get_permittivity_profile(L)
    single = [obj.get_permittivity_profile(np.array([x])) for x in L]
    for i, (d, e) in enumerate(prof):
        close(d, single[0][i][0], 0, 0, "profile thickness")
        close(e, np.concatenate([p[i][1] for p in single]), 1e-10, 1e-10 * (1 + np.max(abs(e))), "profile tensor")


@P.sub(
    "coinciding_media",
    st.tuples(st.one_of(rich.coinciding(), rich.coinciding(isotropic=True)), gen.theta(0, 80), st.sampled_from(["2x2", "4x4"]), st.sampled_from(["default", "eig", "scipy"])).map(
        lambda t: dict(t[0], theta=t[1], solver=t[2], prop=t[3])
    ),
    500,
    12000,
    2,
)
def coinciding_media(case, t):
    """Media that agree (or are isotropic) at one of the wavelengths only."""
    structures(case, t)


CONT = {
    "list": list,
    "tuple": tuple,
    "int_list": lambda L: [int(x) for x in L],
    "int_array": lambda L: np.array(L).astype(np.int64),
    "int32_array": lambda L: np.array(L).astype(np.int32),
    "strided": lambda L: np.repeat(np.array(L), 2)[::2],
    "reversed_view": lambda L: np.array(L)[::-1][::-1],
    "readonly": lambda L: _ro(np.array(L)),
    "scalar": lambda L: float(L[0]),
    "int_scalar": lambda L: int(L[0]),
    "numpy_scalar": lambda L: np.float64(L[0]),
    "zero_dim": lambda L: np.array(L[0]),
}


def _ro(a):
    a.setflags(write=False)
    return a


ints = st.lists(st.integers(250, 1700).map(float), min_size=1, max_size=4)


@P.sub("containers", st.tuples(str_case(ints), st.sampled_from(sorted(CONT))).map(lambda t: dict(t[0], cont=t[1])), 700, 15000, 2)
def containers(case, t):
    s, L = case["s"], np.array(case["lbda"])
    name, kw = pick(case, s)
    if not rich.evaluable(s, L, case["theta"], name):
        t.tag("outside domain")
        return
    t.tag(case["cont"])
    t.nontrivial()
    obj = rich.build_structure(s)
    given = CONT[case["cont"]](case["lbda"])
    ref = obj.evaluate(L[:1] if np.ndim(given) == 0 else L, case["theta"], **kw)
    res = obj.evaluate(given, case["theta"], **kw)
    quant.same(quant.read(res), quant.read(ref), f"wavelengths as {case['cont']}", ratios=quant.well_defined(ref))
    exp = elli.Experiment(obj, given, case["theta"])
    quant.same(quant.read(exp.evaluate(**kw)), quant.read(ref), f"Experiment with {case['cont']}", ratios=quant.well_defined(ref))


@P.sub(
    "dispersion_containers",
    st.fixed_dictionaries({"d": st.one_of(disp.model(list(disp.TEMPLATES)), rich.dispersion), "lbda": ints, "cont": st.sampled_from(sorted(CONT))}),
    600,
    10000,
)
def dispersion_containers(case, t):
    s, L = case["d"], np.array(case["lbda"])
    if rich.singular(s, L):
        t.tag("singular")
        return
    d = rich.build_disp(s)
    given = CONT[case["cont"]](case["lbda"])
    if np.ndim(given) == 0:
        L = L[:1]
    t.tag(case["cont"])
    t.nontrivial(case["cont"] not in ("strided", "reversed_view"))
    for name, f in (("permittivity", d.get_dielectric), ("index", d.get_refractive_index), ("tensor", d.get_mat().get_tensor)):
        a, b = np.asarray(f(L)), np.asarray(f(given))
        if name != "tensor":
            a, b = bc(a, len(L)), np.atleast_1d(b)
            b = bc(b[0], len(L)) if b.size == 1 else b
        close(b, a, 1e-11, 1e-11 * (1 + np.max(abs(a))), f"{name} with wavelengths as {case['cont']}")


ORDER = st.sampled_from(["up", "up", "down", "random"])


@P.sub(
    "long_queries",
    st.fixed_dictionaries({"m": rich.shared(st.one_of(rich.structure(max_layers=2), rich.structure(max_layers=2))), "n": gen.big(), "seed": st.integers(0, 10**6), "order": ORDER, "again": st.integers(0, 3)}),
    600,
    12000,
    4,
)
def long_queries(case, t):
    """Many wavelengths in one query of dispersions, materials and profiles, against short queries."""
    n = case["n"]
    L = gen.spread(n, case["seed"], 350.0, 1100.0, case["order"])
    if rich.singular(case["m"], L):
        t.tag("singular")
        return
    reg = []
    s = rich.build_structure(case["m"], reg)
    t.tag(f"n<{1 << (n - 1).bit_length()}", case["order"])
    t.nontrivial()
    pos = gen.picks(n, case["seed"])
    fs = [(type(o).__name__, o.get_dielectric) for o in reg if isinstance(o, elli.dispersions.base_dispersion.BaseDispersion)]
    fs += [(type(o).__name__, o.get_tensor) for o in reg if isinstance(o, elli.Material)]
    fs.append(("profile", lambda q: np.moveaxis(np.array([e for _, e in s.get_permittivity_profile(q)]), 1, 0)))
    for k in range(case["again"] + 1):
        # a second query of the same length with the same ends
        if k:
            mid = slice(3, n - 3)
            L = L.copy()
            L[mid] = L[mid] + 0.25 * k * (1 if case["order"] == "random" else 0.3 * 750 / n)
            if rich.singular(case["m"], L):
                return
        for name, f in fs:
            a = np.asarray(f(L))
            b = np.asarray(f(L[pos]))
            if a.ndim == 0:
                continue
            require(len(a) == n, f"{name}: {len(a)} values for {n} wavelengths")
            close(a[pos], b, 1e-10, 1e-10 * (1 + np.max(abs(b))), f"{name}: {n} wavelengths against {len(pos)} of them")
            one = [np.asarray(f(L[i : i + 1]))[0] for i in pos[:: max(1, len(pos) // 3)]]
            close(b[:: max(1, len(pos) // 3)], one, 1e-10, 1e-10 * (1 + np.max(abs(b))), f"{name}: short query against single wavelengths")


@P.sub("long_evaluations", st.tuples(str_case(st.just([500.0]), max_layers=2), gen.big(20, 1100), st.integers(0, 10**6), ORDER).map(lambda a: dict(a[0], n=a[1], seed=a[2], order=a[3])), 600, 12000, 4)
def long_evaluations(case, t):
    """Many wavelengths in one evaluation, against an evaluation of some of them."""
    s, n = case["s"], case["n"]
    L = gen.spread(n, case["seed"], 400.0, 1000.0, case["order"])
    name, kw = pick(case, s)
    if sum(rich.count(x) for x in s["layers"]) * n > 12000 or not rich.evaluable(s, L, case["theta"], name):
        t.tag("outside domain")
        return
    obj = rich.build_structure(s)
    pos = gen.picks(n, case["seed"])
    full = quant.read(obj.evaluate(L, case["theta"], **kw))
    part = obj.evaluate(L[pos], case["theta"], **kw)
    t.tag(name, case["prop"] if name == "4x4" else None, f"n<{1 << (n - 1).bit_length()}")
    t.nontrivial(len(set(np.round(part.R, 9))) > 1)
    for q in quant.ALL:
        require(len(full[q]) == n, lambda: f"{q}: {len(full[q])} values for {n} wavelengths")
    quant.same({q: full[q][pos] for q in quant.ALL}, quant.read(part), f"{n} wavelengths against {len(pos)} of them", ratios=quant.well_defined(part))
