"""C07 - evaluation without side effects, results as snapshots (model-based histories)."""
import copy
import json

from vlib.core import Property, close, require
from vlib import disp, gen, quant, refoptics, rich
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C07",
    rule="a history is non-trivial if it evaluates, then changes an object the evaluated structure uses, and later "
    "reads the stored result or evaluates again",
    assumptions=[
        "structures within the numerically safe domain; others are queried but not compared after a change",
        "only public attributes (parameters, materials, thicknesses, rotations, lists, vectors) count as state",
        "the arrays of a table dispersion are not changed after construction",
    ],
)


# ------------------------------------------------------------------ spec <-> object pairs
class World:
    """The mutable spec, the live objects and the pairs between them."""

    def __init__(self, spec, share):
        self.spec = spec
        self.pairs = []
        self.share = share
        self.memo = {}
        self.struct = elli.Structure(
            self.mat(spec["front"]), [self.layer(x) for x in spec["layers"]], self.mat(spec["back"])
        )

    def disp(self, s):
        if s["k"] == "sum":
            parts = [self.disp(x) for x in s["of"]]
            out = parts[0]
            for p in parts[1:]:
                out = out + p
            self.pairs.append(("sum", s, out))
            return out
        if s["k"] == "conv":
            out = self.disp(s["of"]).as_index()
            self.pairs.append(("sum", s, out))
            return out
        d = rich.build_disp(s)
        self.pairs.append(("disp", s, d))
        return d

    def mat(self, s):
        if s["m"] == "d":
            o = elli.IsotropicMaterial(self.disp(s["d"]))
        elif s["m"] == "uni":
            o = elli.UniaxialMaterial(*[self.disp(d) for d in s["d"]])
        elif s["m"] == "bi":
            o = elli.BiaxialMaterial(*[self.disp(d) for d in s["d"]])
        else:
            o = rich.MIX[s["kind"]](self.mat(s["host"]), self.mat(s["guest"]), s["f"])
        if s.get("rot"):
            o.set_rotation(gen.elli_rotation(s["rot"]))
        self.pairs.append(("mix" if s["m"] == "mix" else "single", s, o))
        return o

    def layer(self, s):
        k = s["l"]
        if k == "layer":
            o = elli.Layer(self.mat(s["mat"]), s["d"])
        elif k == "twist":
            o = elli.TwistedLayer(self.mat(s["mat"]), s["d"], s["div"], s["angle"])
        elif k == "vary":
            f = rich.PROFILES[s["prof"]]
            a = (self.mat(s["mat"]), s["d"], s["div"])
            o = elli.VaryingMixtureLayer(*a) if f is None else elli.VaryingMixtureLayer(*a, f)
        else:
            o = elli.RepeatedLayers([self.layer(x) for x in s["of"]], s["rep"], s["before"], s["after"])
        self.pairs.append((k, s, o))
        return o

    def find(self, spec):
        return next(o for _, s, o in self.pairs if s is spec)


def freeze(v):
    if isinstance(v, np.ndarray) or hasattr(v, "to_numpy"):
        a = np.asarray(v)
        return ("array", a.shape, str(a.dtype), a.tobytes())
    if isinstance(v, dict):
        return ("dict", tuple((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    return repr(v)


ATTR = {
    "layer": ("thickness", "material"),
    "twist": ("thickness", "material", "div", "angle"),
    "vary": ("thickness", "material", "div", "fraction_modulation"),
    "rep": ("repetitions", "before", "after", "layers"),
    "single": ("dispersion_x", "dispersion_y", "dispersion_z", "rotation_matrix"),
    "mix": ("host_material", "guest_material", "fraction"),
    "disp": ("single_params", "rep_params", "default_lbda_range"),
    "sum": (),
}


def ident(v):
    if isinstance(v, list):
        return ("list", id(v), tuple(ident(x) for x in v))
    if type(v).__module__.startswith("elli") or callable(v):
        return ("object", id(v))
    return freeze(v)


def fingerprint(w, exp, user):
    """Public state of every object of the world."""
    out = []
    for k, _, o in w.pairs:
        out.append((k, type(o).__name__, tuple((a, ident(getattr(o, a))) for a in ATTR[k])))
        if k in ("disp", "sum"):
            out.append(("repr", repr(o)))
    s = w.struct
    out.append(("structure", ident(s.front_material), ident(s.layers), ident(s.back_material)))
    out.append(("experiment", ident(exp.structure), freeze(exp.lbda), freeze(exp.theta_i), freeze(exp.jones_vector), freeze(exp.stokes_vector)))
    out.append(("user arrays", tuple(freeze(u) for u in user)))
    out.append(("numpy errors", freeze(np.geterr())))
    return out


def unchanged(before, after, what):
    if before != after:
        for a, b in zip(before, after):
            require(a == b, lambda: f"{what} changed {str(a)[:400]} to {str(b)[:400]}")
        require(False, f"{what} changed the set of objects")


# ------------------------------------------------------------------------- mutations
def scale(v, f):
    return [x * f for x in v] if isinstance(v, list) else v * f


def mutate(w, op):
    """Change one object through its public interface and the spec alike. Returns a tag or None."""
    _, i, j, f, new, rot = op
    cands = [p for p in w.pairs if not (p[0] == "disp" and p[1]["k"] == "table") and p[0] != "sum"]
    kinds = sorted({p[0] for p in cands}) + ["structure"]
    kind = kinds[i % len(kinds)]
    i //= len(kinds)
    cands = [p for p in cands if p[0] == kind]
    if kind == "structure":
        i %= 3
        s = w.struct
        if i == 0 and len(w.spec["layers"]) > 1:
            order = list(reversed(range(len(w.spec["layers"]))))
            if j % 2:
                s.set_layers([s.layers[q] for q in order])
            else:
                s.layers.reverse()
            w.spec["layers"] = [w.spec["layers"][q] for q in order]
            return "layer order"
        if i == 1:
            m = {"m": "d", "d": new}
            w.spec["back"] = m
            s.set_back_material(w.mat(m))
            return "back material"
        if i == 2:
            la = {"l": "layer", "mat": {"m": "d", "d": new}, "d": 10.0}
            w.spec["layers"].append(la)
            s.layers.append(w.layer(la))
            return "layer added"
        return None
    kind, s, o = cands[i % len(cands)]
    if kind in ("layer", "twist", "vary") and j % 4 == 0:
        la = {"m": "d", "d": new}
        if kind == "vary":
            la = {"m": "mix", "kind": "vca", "host": la, "guest": copy.deepcopy(la), "f": 0.2}
        s["mat"] = la
        o.set_material(w.mat(la))
        return "layer material"
    if kind == "twist" and j % 4 == 1:
        s["angle"] = s["angle"] + 25.0
        o.set_angle(s["angle"])
        return "twist angle"
    if kind in ("twist", "vary") and j % 4 == 2:
        s["div"] = s["div"] % 6 + 1
        o.set_divisions(s["div"])
        return "divisions"
    if kind == "vary" and j % 4 == 1:
        s["prof"] = "square" if s["prof"] != "square" else "reverse"
        o.set_fraction_modulation(rich.PROFILES[s["prof"]])
        return "modulation"
    if kind in ("layer", "twist", "vary"):
        s["d"] = round(s["d"] * f + 3, 3)
        o.set_thickness(s["d"])
        return "thickness"
    if kind == "rep":
        if j % 2:
            s["rep"] = s["rep"] % 3 + 1
            o.set_repetitions(s["rep"], s["before"], s["after"])
            return "repetitions"
        s["of"] = list(reversed(s["of"]))
        o.set_layers(list(reversed(o.layers)))
        return "block order"
    if kind == "mix":
        if j % 2:
            s["f"] = round((s["f"] + 0.37) % 1.0, 6)
            o.set_fraction(s["f"])
            return "fraction"
        s["host"], s["guest"] = s["guest"], s["host"]
        o.set_constituents(o.guest_material, o.host_material)
        return "constituents"
    if kind == "single":
        if j % 2 or s["m"] == "d":
            if s["m"] == "d":
                s["d"] = new
                o.set_dispersion(w.disp(new))
            else:
                k = j % len(s["d"])
                s["d"] = [new if q == k else d for q, d in enumerate(s["d"])]
                old = [o.dispersion_x, o.dispersion_z] if s["m"] == "uni" else [o.dispersion_x, o.dispersion_y, o.dispersion_z]
                old[k] = w.disp(new)
                o.set_dispersion(*old)
            return "dispersion of a material"
        s["rot"] = rot
        o.set_rotation(gen.elli_rotation(rot))
        return "rotation"
    # dispersion parameters
    if s["r"] and j % 2:
        q, m = (j // 2) % len(s["r"]), 0
        s["r"] = [list(x) for x in s["r"]]
        s["r"][q][m] = scale(s["r"][q][m], f)
        key = list(o.rep_params[q])[m]
        o.rep_params[q][key] = disp.val(s["r"][q][m])
        return "oscillator parameter"
    if s["s"]:
        m = 0 if s["k"] in ("CodyLorentz", "TaucLorentz", "Tanguy") else j % len(s["s"])
        if s["k"] == "TaucLorentz":
            return None
        s["s"] = list(s["s"])
        s["s"][m] = scale(s["s"][m], f)
        o.single_params[list(o.single_params)[m]] = disp.val(s["s"][m])
        return "single parameter"
    if s["r"]:
        s["r"] = [list(x) for x in s["r"]] + [list(s["r"][0])]
        o.add(*[disp.val(v) for v in s["r"][0]])
        return "oscillator added"
    return None


op = st.one_of(
    st.tuples(st.just("eval"), st.integers(0, 7)).map(list),
    st.tuples(st.just("eval"), st.integers(0, 7)).map(list),
    st.tuples(st.just("read"), st.integers(0, 5), st.integers(0, 60)).map(list),
    st.tuples(st.just("query"), st.integers(0, 30), st.integers(0, 8)).map(list),
    st.tuples(st.just("exp"), st.integers(0, 5), rich.wavelengths(1, 3), gen.theta(0, 80)).map(list),
    st.tuples(st.just("mut"), st.integers(0, 60), st.integers(0, 20), fl(0.7, 1.3), rich.dispersion, gen.rotation()).map(list),
    st.tuples(st.just("mut"), st.integers(0, 60), st.integers(0, 20), fl(0.7, 1.3), rich.dispersion, gen.rotation()).map(list),
)

case_s = st.fixed_dictionaries(
    {
        "s": st.one_of(rich.structure(max_layers=2), rich.structure(max_layers=2, mat=rich.iso_material(), back=rich.iso_material(), with_graded=False)),
        "lbda": rich.wavelengths(1, 3),
        "theta": gen.theta(0, 80),
        "vector": st.sampled_from([None, [1, 0.5], [1, 0, 0, 1], [2, 0.5, 1, 0.3]]),
        "ops": st.lists(op, min_size=3, max_size=10),
    }
)


def same(a, b, what):
    for q in b:
        x, y = np.asarray(a[q]), np.asarray(b[q])
        require(x.shape == y.shape, f"{what}: {q} shape {x.shape} != {y.shape}")
        tol = 1e-10 * (1 + np.max(np.abs(np.where(np.isfinite(y), y, 0)), initial=0))
        if "delta" in q:
            e = np.abs(quant.wrapped(x - y))
        else:
            e = np.abs(x - y)
        bad = ~((e <= tol) | ((x != x) & (y != y)) | (x == y))
        require(not np.any(bad), lambda: f"{what}: {q} was {y[bad][:3]}, is now {x[bad][:3]}")


SOLVERS = [
    {}, {"solver": elli.Solver4x4}, {"solver": elli.Solver4x4, "propagator": elli.PropagatorEig()},
    {"solver": elli.Solver4x4, "propagator": elli.PropagatorExpm("scipy")}, {"solver": elli.Solver4x4, "propagator": elli.PropagatorLinear()},
]


def conditions(exp):
    """The experiment stored with a result: wavelengths, angle, polarisation and depth profile."""
    L = np.array(exp.lbda, float)
    out = [L, np.array(exp.theta_i, float), np.array(exp.stokes_vector, float)]
    out += [np.array(v) for d, e in exp.structure.get_permittivity_profile(L) for v in (d, e)]
    return out


def history(case, t):
    spec = copy.deepcopy(case["s"])
    w = World(spec, False)
    lbda = np.array(case["lbda"], float)
    vec = None if case["vector"] is None else np.array(case["vector"], float)
    user = [lbda] + ([vec] if vec is not None else [])
    state = {"lbda": case["lbda"], "theta": case["theta"], "vector": case["vector"]}
    exp = elli.Experiment(w.struct, lbda, case["theta"], vec)
    stored = []  # (result, snapshot)
    changed_after_eval = False
    for o in case["ops"]:
        fp = fingerprint(w, exp, user)
        what = o[0]
        L = np.array(state["lbda"], float)
        dom = rich.evaluable(spec, L, state["theta"], "4x4")
        if o[0] == "eval":
            kw = SOLVERS[o[1] % len(SOLVERS)]
            if o[1] >= 5 and rich.is_iso(spec):
                kw = {"solver": elli.Solver2x2}
            if not dom:
                t.tag("outside domain")
                continue
            direct = o[1] % 2 and state["vector"] is None
            run = (lambda: w.struct.evaluate(lbda, state["theta"], **kw)) if direct else (lambda: exp.evaluate(**kw))
            res = run()
            names = quant.ALL
            snap = quant.read(res, names)
            unchanged(fp, fingerprint(w, exp, user), "evaluating")
            same(quant.read(run(), names), snap, "second evaluation")
            unchanged(fp, fingerprint(w, exp, user), "reading all quantities")
            fresh = elli.Experiment(rich.build_structure(spec), L, state["theta"], state["vector"]).evaluate(**kw)
            quant.same(snap, quant.read(fresh), "evaluation after the history, against freshly built objects", ratios=quant.well_defined(fresh))
            stored.append((res, snap, conditions(res.experiment)))
            if changed_after_eval:
                t.nontrivial()
            t.tag("evaluated")
        elif o[0] == "read" and stored:
            res, snap, _c = stored[o[1] % len(stored)]
            q = quant.ALL[o[2] % len(quant.ALL)]
            a = np.array(getattr(res, q))
            b = np.array(res.get(q))
            same({q: a}, {q: snap[q]}, "stored result")
            same({q: b}, {q: snap[q]}, "stored result (get)")
            _ = elli.ResultList([r for r, *_ in stored]).get("R") if len({s["R"].shape for _, s, _ in stored}) == 1 else None
            unchanged(fp, fingerprint(w, exp, user), f"reading {q}")
            if changed_after_eval:
                t.nontrivial()
        elif o[0] == "query":
            if not dom:
                continue
            if o[2] == 0:
                p1, p2 = w.struct.get_permittivity_profile(lbda), w.struct.get_permittivity_profile(lbda)
                ref = rich.build_structure(spec).get_permittivity_profile(L)
                for (d1, e1), (d2, e2), (d3, e3) in zip(p1, p2, ref):
                    require(d1 == d2 and (d1 == d3 or abs(d1 - d3) < 1e-9), "profile thickness depends on history")
                    close(e1, e2, 1e-12, 1e-12, "repeated profile")
                    close(e1, e3, 1e-10, 1e-10 * (1 + np.max(abs(e3))), "profile after the history")
                require(len(p1) == len(ref), "profile length depends on history")
                what = "a profile query"
                # writing to the answer must not write to the objects
                p1.clear()
                unchanged(fp, fingerprint(w, exp, user), "changing the returned profile list")
            else:
                k, s, ob = w.pairs[o[1] % len(w.pairs)]
                what = f"a query of {type(ob).__name__}"
                if k in ("disp", "sum"):
                    fs = [ob.get_dielectric, ob.get_refractive_index, ob.get_dielectric_df, ob.get_refractive_index_df]
                    f = fs[o[2] % 4]
                    if o[2] % 4 > 1 and (s["k"] in ("ConstantRefractiveIndex", "EpsilonInf") or k == "sum" ):
                        f = fs[0]
                    a, b = np.array(f(lbda)), np.array(f(lbda))
                    close(a, b, 1e-12, 1e-12, "repeated query of a dispersion")
                elif k in ("single", "mix"):
                    f = ob.get_tensor if o[2] % 2 else ob.get_refractive_index
                    a = f(lbda)
                    keep = np.array(a)
                    a[...] = 7.0
                    unchanged(fp, fingerprint(w, exp, user), "writing into a returned tensor")
                    close(f(lbda), keep, 1e-12, 1e-12, "repeated query of a material")
                    if k == "mix":
                        ob.get_tensor_fraction(lbda, 0.9)
                        close(f(lbda), keep, 1e-12, 1e-12, "tensor after a query with another fraction")
                else:
                    a, b = ob.get_permittivity_profile(lbda), ob.get_permittivity_profile(lbda)
                    require(len(a) == len(b) and all(x[0] == y[0] for x, y in zip(a, b)), "repeated layer profile differs")
                t.tag("query")
            unchanged(fp, fingerprint(w, exp, user), what)
        elif o[0] == "exp":
            if o[1] == 0:
                state["theta"] = o[3]
                exp.set_theta(o[3])
            elif o[1] == 1:
                state["vector"] = [1, 1, 0, 0.5]
                vec = np.array(state["vector"], float)
                exp.set_vector(vec)
                user = [lbda, vec]
            elif o[1] == 2:
                # the user re-uses the array
                lbda[...] = lbda + 1.0
                state["lbda"] = list(lbda)
                exp.set_lbda(lbda)
            elif o[1] == 5:
                # the user re-uses the array of the polarisation vector
                if vec is None:
                    vec = np.array([1.0, 0.25])
                    exp.set_vector(vec)
                    user = [lbda, vec]
                else:
                    vec[:2] = [vec[0] + 0.5, vec[1] * 0.5 + 0.1]
                    exp.set_vector(vec)
                state["vector"] = list(vec)
            elif o[1] == 3 and stored:
                exp.set_structure(w.struct)
            else:
                state["lbda"] = o[2]
                lbda = np.array(o[2], float)
                exp.set_lbda(lbda)
                user = [lbda, *user[1:]]
            t.tag("experiment changed")
            changed_after_eval |= bool(stored)
        elif o[0] == "mut":
            g = mutate(w, o)
            if g:
                t.tag(g)
                changed_after_eval |= bool(stored)
        for res, snap, _c in stored:
            same(quant.read(res, ["R", "psi", "T"]), {q: snap[q] for q in ("R", "psi", "T")}, f"stored result after '{o[0]}'")
    for res, snap, cond in stored:
        same(quant.read(res), snap, "stored result at the end")
        now = conditions(res.experiment)
        for a, b in zip(now, cond):
            require(a.shape == b.shape and np.array_equal(a, b), lambda: f"conditions stored with a result changed from {b} to {a}")


P.sub("history", case_s, 4000, 100000, 8)(history)


@P.sub(
    "delta_ranges_do_not_leak",
    st.fixed_dictionaries(
        {"s": rich.shared(rich.structure(max_layers=2, depth=0)), "lbda": rich.wavelengths(1, 3), "theta": gen.theta(20, 80), "order": st.lists(st.integers(0, 3), min_size=1, max_size=5)}
    ),
    200,
    4000,
)
def ranges(case, t):
    """Changing the delta range of one result leaves other results and later evaluations alone."""
    L = np.array(case["lbda"])
    if not rich.evaluable(case["s"], L, case["theta"]):
        return
    s = rich.build_structure(case["s"])
    first = s.evaluate(L, case["theta"])
    snap = quant.read(first)
    t.nontrivial()
    for k in case["order"]:
        r = s.evaluate(L, case["theta"])
        same(quant.read(r), snap, "evaluation after another result's delta range was changed")
        r.as_delta_range(*[(0, 360), (-180, 180), (0, 180), (-90, 270)][k])
        same(quant.read(first), snap, "another result after a delta range was changed")


# ------------------------------------------------- queries on the axis of the dispersion's own data
EPS_TERMS = ["Sellmeier", "LorentzEnergy", "LorentzLambda", "DrudeEnergy"]
INDEX_TERMS = ["Cauchy", "CauchyCustomExponent"]


def axis_case(rep):
    term = disp.model(EPS_TERMS if rep == "eps" else INDEX_TERMS, max_rep=2, min_rep=1)
    return st.fixed_dictionaries(
        {
            "rep": st.just(rep),
            "axis": st.lists(fl(300, 900, 1), min_size=2, max_size=5, unique=True).map(sorted),
            "tables": st.lists(
                st.fixed_dictionaries(
                    {"v": st.lists(st.tuples(fl(1.1, 6), fl(0, 2)).map(list), min_size=5, max_size=5), "real": st.booleans(), "as": st.sampled_from(["array", "array", "list"])}
                ),
                min_size=1,
                max_size=1,  # (tables cannot be added to each other)
            ),
            "number": fl(0.1, 2),
            "terms": st.lists(term, max_size=2),
            "order": st.integers(0, 23),
            "ops": st.lists(st.tuples(st.integers(0, 20), st.sampled_from(["own", "own", "copy", "first", "inside"]), st.integers(0, 3), st.booleans()).map(list), min_size=3, max_size=10),
        }
    )


@P.sub("own_axis", st.sampled_from(["eps", "n"]).flatmap(axis_case), 1200, 40000, 2)
def own_axis(case, t):
    """Dispersions from data, alone and in sums, asked repeatedly at the wavelengths of the data."""
    eps = case["rep"] == "eps"
    axis = np.array(case["axis"], float)
    n = len(axis)
    keep_axis = axis.copy()
    mem = []  # (object, reference over wavelengths)
    users = []
    for tb in case["tables"]:
        v = np.array([x[0] if tb["real"] else complex(*x) for x in tb["v"]])[:n]
        arg = v if tb["as"] == "array" else list(v)
        ax = axis if tb["as"] == "array" else list(axis)
        o = (elli.TableEpsilon if eps else elli.Table)(ax, arg)
        users.append((v, v.copy()))
        mem.append((o, lambda L, v=v.copy(): np.interp(L, keep_axis, np.real(v)) + 1j * np.interp(L, keep_axis, np.imag(v))))
    for s in case["terms"]:
        if not disp.regular(s, np.concatenate([keep_axis, (keep_axis[:-1] + keep_axis[1:]) / 2])):
            continue
        mem.append((rich.build_disp(s), lambda L, s=s: disp.reference(s, L)))
    k = case["order"] % len(mem)
    mem = mem[k:] + mem[:k]
    objs = list(mem)
    total, ref = mem[0]
    parts = [ref]
    for o, r in mem[1:]:
        total = total + o
        parts.append(r)
        objs.append((total, lambda L, p=tuple(parts): sum((f(L) for f in p[1:]), p[0](L))))
    if len(mem) == 1:
        total = total + case["number"]
        objs.append((total, lambda L: case["number"] + ref(L)))
    asked = 0
    for i, where, how, scribble in case["ops"]:
        o, r = objs[-1 - i % len(objs)]
        L = {"own": axis, "copy": axis.copy(), "first": axis[:1].copy(), "inside": (axis[:-1] + axis[1:]) / 2}[where]
        want = np.asarray(r(np.array(L)), complex)
        want = want if eps else want**2
        if how == 0:
            got, exp = o.get_dielectric(L), want
        elif how == 1:
            got, exp = o.get_refractive_index(L), None
        elif how == 2:
            got, exp = elli.IsotropicMaterial(o).get_tensor(L)[:, 0, 0], want
        else:
            got, exp = o.get_dielectric_df(L).to_numpy()[:, -2:], None
        what = f"{type(o).__name__} asked at {where} wavelengths after {asked} queries"
        if exp is None and how == 1:
            close(np.asarray(got) ** 2, want, 1e-9, 1e-9 * (1 + np.max(abs(want))), what)
        elif exp is None:
            close(got[:, 0] + 1j * got[:, 1], want, 1e-9, 1e-9 * (1 + np.max(abs(want))), what)
        else:
            close(got, exp, 1e-9, 1e-9 * (1 + np.max(abs(want))), what)
        if scribble and isinstance(got, np.ndarray) and got.flags.writeable:
            got[...] = 7.0
        asked += 1
        close(axis, keep_axis, 0, 0, "the caller's wavelengths")
        for u, k0 in users:
            close(u, k0, 0, 0, "the caller's table values")
        t.tag(f"{where} axis", "sum" if o is not mem[0][0] else "single")
    t.nontrivial(len(case["ops"]) > 2 and any(w in ("own", "copy") for _, w, *_ in case["ops"]))


# ------------------------------------------------- objects created and dropped one after another
STEP = st.sampled_from([0.0, 1e-8, -1e-7, 1e-6, 1e-5, -1e-4, 1e-3, 0.01, 0.1])


def numbers(x, path=()):
    """Paths of the model parameters and thicknesses inside a spec."""
    if isinstance(x, dict):
        for k in sorted(x):
            if k in ("s", "r", "d", "v", "front", "back", "layers", "host", "guest", "mat", "of", "f", "rot", "angle"):
                yield from numbers(x[k], (*path, k))
    elif isinstance(x, list):
        unit = x[:1] == ["vt"]  # a unit vector stays one
        for i, y in enumerate(x):
            if not unit or i == 4:
                yield from numbers(y, (*path, i))
    elif isinstance(x, float):
        yield path


def changed(spec, edits):
    """A copy with some numbers changed by a relative step."""
    spec = copy.deepcopy(spec)
    paths = list(numbers(spec))
    for i, step in edits:
        if paths:
            p = paths[i % len(paths)]
            o = spec
            for k in p[:-1]:
                o = o[k]
            o[p[-1]] = o[p[-1]] * (1 + step) if p[-1] != "f" else min(1.0, o[p[-1]] * (1 + step))
    return spec


def sane(x):
    """The changed parameters are still in the range of the model's formula."""
    if isinstance(x, dict):
        if x.get("k") == "TaucLorentz" and not all(e > x["s"][0] and c < 1.95 * e for _a, e, c in x["r"]):
            return False
        if x.get("k") == "CodyLorentz" and not x["s"][0] < min(x["s"][2], x["s"][5]):
            return False
        if x.get("k") == "Tanguy" and not (1 < x["s"][1] < 3 and abs(x["s"][1] - 2) > 0.003):
            return x["s"][1] in (2, 3)
        return all(sane(v) for v in x.values())
    return all(sane(v) for v in x) if isinstance(x, list) else True


edits_s = st.lists(st.lists(st.tuples(st.integers(0, 60), STEP).map(list), min_size=1, max_size=2), min_size=2, max_size=6)
many = st.tuples(gen.big(1001, 1400), st.integers(0, 10**6)).map(lambda a: {"n": a[0], "seed": a[1]})


@P.sub(
    "successive_models",
    st.fixed_dictionaries(
        {
            "d": st.one_of(disp.model(list(disp.TEMPLATES), min_rep=1), rich.dispersion),
            "edits": edits_s,
            "lbda": st.one_of(rich.wavelengths(1, 4), rich.wavelengths(1, 4), many),
            "how": st.integers(0, 3),
        }
    ),
    1500,
    40000,
    2,
)
def successive_models(case, t):
    """Similar models, each created, asked and dropped: every one answers for its own parameters."""
    if isinstance(case["lbda"], dict):
        L = gen.spread(case["lbda"]["n"], case["lbda"]["seed"], rich.LO + 5, rich.HI - 5)
        at = gen.picks(len(L), case["lbda"]["seed"])
        t.tag("many wavelengths")
    else:
        L = np.array(case["lbda"], float)
        at = list(range(len(L)))
    cody = case["d"]["k"] == "CodyLorentz"
    spec, seen = case["d"], []
    for e in [[], *case["edits"]]:
        spec = changed(spec, e)
        if not rich.singular(spec, L) and sane(spec):
            seen.append(json.dumps(spec, sort_keys=True))
            if cody:
                want = 1j * disp.cody_eps2(disp.HC_NM / L, *spec["s"])
            else:
                want = rich.ref_disp(spec, L)
            if not np.all(np.isfinite(want)):
                continue
            if case["how"] == 0:
                got = rich.build_disp(spec).get_dielectric(L)
            elif case["how"] == 1:
                got = rich.build_disp(spec).get_mat().get_tensor(L)[:, 2, 2]
            elif case["how"] == 2:
                got = np.asarray(rich.build_disp(spec).get_refractive_index(L)) ** 2
            else:
                d = rich.build_disp(spec)
                k = len(L) // 2
                L2 = L.copy()
                L2[k] *= 1 + 1e-9  # the same list but for a hair's breadth, other values wanted
                d.get_dielectric(L2)
                L2[k] = L[0]
                w2 = rich.ref_disp(dict(spec), L2) if not cody else 1j * disp.cody_eps2(disp.HC_NM / L2, *spec["s"])
                g2 = np.broadcast_to(np.asarray(d.get_dielectric(L2)), L2.shape)
                cmp_eps(g2, w2, [*at, k], cody, "the same model at a slightly different list")
                got = d.get_dielectric(L)
                del d
            cmp_eps(np.broadcast_to(np.asarray(got), L.shape), want, at, cody, f"model {len(seen)} in a row")
    t.tag(case["d"]["k"], f"how={case['how']}")
    t.nontrivial(len(set(seen)) > 1)


@P.sub(
    "lookalike_lists",
    st.fixed_dictionaries(
        {
            "d": st.one_of(*[st.sampled_from(sorted(disp.TEMPLATES)).flatmap(lambda k: disp.model([k], min_rep=1))] * 6, rich.dispersion),
            "n": st.one_of(gen.big(3, 40), gen.big(1001, 1300), gen.big(1001, 1300)),
            "seed": st.integers(0, 10**6),
            "moves": st.lists(st.lists(st.tuples(st.integers(3, 1300), st.sampled_from([1e-9, 1e-7, 1e-3, 0.2])).map(list), min_size=1, max_size=3), min_size=1, max_size=3),
            "how": st.integers(0, 4),
            "fresh": st.booleans(),
        }
    ),
    500,
    12000,
    4,
)
def lookalike_lists(case, t):
    """One model asked for lists of wavelengths which differ in a few entries only, each answer against its own list."""
    spec, n = case["d"], case["n"]
    L = gen.spread(n, case["seed"], rich.LO + 5, rich.HI - 5, "up")
    lists = [L]
    for move in case["moves"]:
        M = lists[-1].copy()
        for i, f in move:
            i = min(i, n - 1) if n < 8 else 3 + i % (n - 6)  # the ends, which are printed, stay
            M[i] = M[i] + f * (L[0] - M[i])
        lists.append(M)
    if rich.singular(spec, np.concatenate(lists)) or not sane(spec):
        t.tag("singular")
        return
    cody = spec["k"] == "CodyLorentz"
    d = rich.build_disp(spec)
    for j, M in enumerate(lists):
        want = 1j * disp.cody_eps2(disp.HC_NM / M, *spec["s"]) if cody else rich.ref_disp(spec, M)
        if not np.all(np.isfinite(want)):
            t.tag("not finite")
            return
        if case["fresh"]:
            d = rich.build_disp(spec)
        if case["how"] == 0:
            got = d.get_dielectric(M)
        elif case["how"] == 1:
            got = d.get_mat().get_tensor(M)[:, 1, 1]
        elif case["how"] == 2:
            got = np.asarray(d.get_refractive_index(M)) ** 2
        elif case["how"] == 3:
            got = np.asarray(d.get_dielectric_df(M)["ϵ1"]) + 1j * np.asarray(d.get_dielectric_df(M)["ϵ2"])
        else:
            got = d.get_dielectric(M.tolist())
        at = gen.picks(n, case["seed"]) + [int(i) for i in np.nonzero(M != lists[j - 1])[0]]
        cmp_eps(np.broadcast_to(np.asarray(got), M.shape), want, at, cody, f"list {j + 1} of look-alikes")
    t.tag(spec["k"], f"how={case['how']}", "long" if n > 1000 else "short", "fresh" if case["fresh"] else "same object")
    t.nontrivial(len(lists) > 1)


def cmp_eps(got, want, at, cody, what):
    g, w = got[at], want[at]
    scale = max(1.0, float(np.max(abs(want))))
    if cody:
        g, w = np.imag(g), np.imag(w)
    close(g, w, 1e-9, 1e-9 * scale, what)


@P.sub(
    "successive_structures",
    st.fixed_dictionaries(
        {
            "s": rich.structure(max_layers=2, depth=1, dmax=150.0),
            "edits": edits_s,
            "lbda": rich.wavelengths(1, 3),
            "theta": gen.theta(0, 80),
            "how": st.integers(0, 2),
        }
    ),
    600,
    15000,
    4,
)
def successive_structures(case, t):
    """Similar structures, each created, evaluated and dropped, against the boundary-value problem."""
    L = np.array(case["lbda"], float)
    spec, done = case["s"], set()
    for e in [[], *case["edits"]]:
        spec = changed(spec, e)
        if not sane(spec) or not rich.evaluable(spec, L, case["theta"]):
            continue
        exp = expected(spec, L, case["theta"])
        if not all(np.isfinite(k) and k < 1e7 and g > 1e-2 for _, _, k, g in exp):
            continue
        if case["how"] == 0:
            r = rich.build_structure(spec).evaluate(L, case["theta"])
        elif case["how"] == 1:
            r = elli.Experiment(rich.build_structure(spec), L, case["theta"]).evaluate()
        else:
            r = rich.build_structure(spec).evaluate(L, case["theta"], propagator=elli.PropagatorEig())
        close(r.jones_matrix_r, np.array([x[0] for x in exp]), 1e-7, 1e-7, f"structure {len(done) + 1} in a row")
        if exp[0][1] is not None:
            tt = np.array([x[1] for x in exp])
            close(r.jones_matrix_t, tt, 1e-7, 1e-7 * max(1.0, abs(tt).max()), f"transmission of structure {len(done) + 1} in a row")
        del r
        done.add(json.dumps(spec, sort_keys=True))
    t.tag(f"how={case['how']}", f"structures={min(len(done), 7)}")
    t.nontrivial(len(done) > 1)


def expected(spec, L, theta):
    front = np.sqrt(rich.ref_tensor(spec["front"], L)[:, 0, 0]).real
    layers = [x for la in spec["layers"] for x in rich.ref_profile(la, L)]
    back = rich.ref_tensor(spec["back"], L)
    iso = spec["back"]["m"] == "d"
    return [refoptics.anisotropic(front[i], [(e[i], d) for d, e in layers], back[i], L[i], theta, iso) for i in range(len(L))]
