"""C33 - interleaved evaluations do not influence one another."""
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

from vlib.core import Property, Violation, close, require
from vlib import disp, gen, quant, rich
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C33",
    rule="a case is non-trivial if at least two evaluations with different answers overlap",
    assumptions=[
        "no object is changed while evaluations that use it are under way",
        "structures within the numerically safe domain",
        "the schedule of threads is left to the interpreter with a switch interval of 5 microseconds; nested evaluations "
        "interleave at each request for a permittivity, refractive index or mixture fraction",
    ],
)

SOLVERS = ["2x2", "4x4", "eig", "scipy", "linear"]


def keywords(name, iso):
    if name == "2x2" and iso:
        return {"solver": elli.Solver2x2}
    kw = {"solver": elli.Solver4x4}
    p = {"eig": lambda: elli.PropagatorEig(), "scipy": lambda: elli.PropagatorExpm("scipy"), "linear": lambda: elli.PropagatorLinear()}.get(name)
    if p:
        kw["propagator"] = p()
    return kw


QUANT = quant.SIMPLE + ["rho", "psi", "mueller_matrix", "rho_matrix"]


def answer(job, objs):
    """The arrays a job asks for."""
    L = np.array(job["lbda"])
    st_, kw = objs
    if job["ask"] == "profile":
        return {"profile": np.concatenate([np.concatenate([[d + 0j], e.ravel()]) for d, e in st_.get_permittivity_profile(L)])}
    res = st_.evaluate(L, job["theta"], **kw)
    if job["ask"] == "mean":
        res = elli.ResultList([res, st_.evaluate(L, job["theta"] / 2, **kw)]).mean
        return quant.read(res, ["R", "T", "R_matrix"])
    return quant.read(res, QUANT)


def same(got, exp, what):
    for k in exp:
        a, b = np.asarray(got[k]), np.asarray(exp[k])
        require(a.shape == b.shape, f"{what}: {k} has shape {a.shape} instead of {b.shape}")
        sc = np.max(np.abs(np.where(np.isfinite(b), b, 0)), initial=0)
        bad = ~((abs(a - b) <= 1e-9 * (1 + sc)) | ((a != a) & (b != b)) | (a == b))
        require(not np.any(bad), lambda: f"{what}: {k} is {a[bad][:3]}, alone it is {b[bad][:3]}")


job = st.fixed_dictionaries(
    {
        "which": st.integers(0, 3),
        "lbda": rich.wavelengths(1, 4),
        "theta": gen.theta(10, 80),
        "solver": st.sampled_from(SOLVERS),
        "ask": st.sampled_from(["result", "result", "mean", "profile"]),
    }
)
structs = st.lists(
    st.one_of(rich.structure(max_layers=2), rich.structure(max_layers=3, mat=rich.iso_material(), back=rich.iso_material(), with_graded=False)), min_size=1, max_size=2
)


def prepare(case):
    """Structures that share all equal materials, and the jobs inside the safe domain."""
    specs = [dict(s, share=1) for s in case["s"]]
    jobs = [j for j in case["jobs"] if rich.evaluable(specs[j["which"] % len(specs)], np.array(j["lbda"]), j["theta"]) and rich.evaluable(specs[j["which"] % len(specs)], np.array(j["lbda"]), j["theta"] / 2)]
    return specs, jobs


@P.sub("threads", st.fixed_dictionaries({"s": structs, "jobs": st.lists(job, min_size=2, max_size=6), "copies": st.integers(1, 4)}), 300, 6000, 8)
def threads(case, t):
    """Several threads evaluate the same objects at once."""
    specs, jobs = prepare(case)
    if len(jobs) < 2:
        t.tag("outside domain")
        return
    objs = [rich.build_structure(s) for s in specs]
    kws = [keywords(j["solver"], rich.is_iso(specs[j["which"] % len(specs)])) for j in jobs]
    alone = [answer(j, (rich.build_structure(specs[j["which"] % len(specs)]), kw)) for j, kw in zip(jobs, kws)]
    t.tag(f"{len(jobs)} jobs", *[j["ask"] for j in jobs])
    t.nontrivial(any(np.shape(a.get("R")) != np.shape(alone[0].get("R")) or not np.allclose(a.get("R", 0), alone[0].get("R", 1), equal_nan=True) for a in alone[1:]))
    todo = [k for k in range(len(jobs)) for _ in range(case["copies"])]
    gate = threading.Barrier(len(todo))

    def run(k):
        gate.wait(60)
        j = jobs[k]
        return answer(j, (objs[j["which"] % len(objs)], kws[k]))

    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        with ThreadPoolExecutor(len(todo)) as pool:
            futures = [pool.submit(run, k) for k in todo]
            done = [f.exception() or f.result() for f in futures]
    finally:
        sys.setswitchinterval(old)
    for k, r in zip(todo, done):
        if isinstance(r, Exception):
            raise Violation(f"job {k} raised {r!r} in a thread") from r
        same(r, alone[k], f"job {k} in a thread")


# ------------------------------------------------------- nested evaluations (deterministic)
class Hook:
    """Runs the other evaluation when asked for the n-th time."""

    def __init__(self, when, other):
        self.when, self.other, self.count, self.got, self.busy = when, other, 0, None, False

    def __deepcopy__(self, memo):
        return self

    def __call__(self):
        if self.busy:
            return
        self.count += 1
        if self.count == self.when:
            self.busy = True
            self.got = self.other()
            self.busy = False


class HookedDispersion(elli.dispersions.base_dispersion.Dispersion):
    """A user-defined permittivity model that looks something up while being evaluated."""

    single_params_template = {}
    rep_params_template = {}

    def __init__(self, inner, hook):
        super().__init__()
        self.inner, self.hook = inner, hook

    def dielectric_function(self, lbda):
        self.hook()
        out = np.asarray(self.inner.get_dielectric(lbda))
        self.hook()
        return out


class HookedIndex(elli.dispersions.base_dispersion.IndexDispersion):
    single_params_template = {}
    rep_params_template = {}

    def __init__(self, inner, hook):
        super().__init__()
        self.inner, self.hook = inner, hook

    def refractive_index(self, lbda):
        self.hook()
        out = np.asarray(self.inner.get_refractive_index(lbda))
        self.hook()
        return out


class HookedMaterial(elli.Material):
    def __init__(self, inner, hook):
        self.inner, self.hook = inner, hook

    def get_tensor(self, lbda):
        self.hook()
        out = self.inner.get_tensor(lbda)
        self.hook()
        return out


@P.sub(
    "nested",
    st.fixed_dictionaries(
        {"s": structs, "jobs": st.lists(job, min_size=2, max_size=2), "mat": rich.single(), "where": st.sampled_from(["permittivity", "index", "material", "fraction", "sum", "mixture"]), "when": st.integers(1, 6), "at": st.integers(0, 3),
         "host": rich.iso(), "guest": rich.iso(), "kind": st.sampled_from(list(rich.MIX)), "div": st.integers(1, 4)}
    ),
    600,
    15000,
    8,
)
def nested(case, t):
    """While one structure is evaluated, one of its models evaluates another structure that shares its materials."""
    specs, jobs = prepare(case)
    if len(jobs) < 2:
        t.tag("outside domain")
        return
    outer, inner = jobs
    so = case["s"][outer["which"] % len(specs)]
    si = case["s"][inner["which"] % len(specs)]

    def make(hook):
        """The outer structure with one more layer that contains the hook."""
        base = rich.build_structure(dict(so, share=1))
        iso = {"m": "d", "d": case["mat"]["d"] if case["mat"]["m"] == "d" else case["mat"]["d"][0]}
        d = rich.build_disp(iso["d"])
        w = case["where"]
        if w == "permittivity":
            lay = elli.Layer(HookedDispersion(d, hook).get_mat(), 40.0)
        elif w == "index":
            lay = elli.Layer(HookedIndex(d, hook).get_mat(), 40.0)
        elif w == "sum":
            lay = elli.Layer((HookedDispersion(d, hook) + 1).get_mat(), 40.0)
        elif w == "material":
            lay = elli.Layer(HookedMaterial(rich.build(case["mat"]), hook), 40.0)
        elif w == "mixture":
            lay = elli.Layer(rich.MIX[case["kind"]](HookedDispersion(d, hook).get_mat(), rich.build(case["guest"]), 0.4), 40.0)
        else:
            mixture = rich.MIX[case["kind"]](rich.build(case["host"]), rich.build(case["guest"]), 0.3)

            def profile(x):
                hook()
                return x * x

            lay = elli.VaryingMixtureLayer(mixture, 40.0, case["div"], profile)
        layers = list(base.layers)
        layers.insert(case["at"] % (len(layers) + 1), lay)
        return elli.Structure(base.front_material, layers, base.back_material)

    kwo, kwi = {"solver": elli.Solver4x4}, keywords(inner["solver"], rich.is_iso(si))
    if outer["solver"] in ("eig", "scipy"):
        kwo = keywords(outer["solver"], False)
    L = np.array(outer["lbda"])
    if rich.singular([case["mat"], case["host"], case["guest"]], L):
        return
    idle = Hook(-1, None)
    alone_o = answer(outer, (make(idle), kwo))
    if any(not np.all(np.isfinite(v)) for v in alone_o.values() if np.asarray(v).dtype.kind != "O"):
        t.tag("not finite")
        return
    alone_i = answer(inner, (rich.build_structure(dict(si, share=1)), kwi))
    shared = rich.build_structure(dict(si, share=1))

    hook = Hook(case["when"], lambda: answer(inner, (shared, kwi)))
    st_ = make(hook)
    if so is si:
        # the very same objects are evaluated from inside
        target = [None]
        hook.other = lambda: answer(inner, (target[0], kwi))
        target[0] = elli.Structure(st_.front_material, [la for la in st_.layers if la is not st_.layers[case["at"] % len(st_.layers)]], st_.back_material)
        t.tag("same objects")
    got = answer(outer, (st_, kwo))
    if hook.got is None:
        t.tag("hook not reached")
        return
    t.tag(case["where"])
    t.nontrivial()
    same(hook.got, alone_i, "the inner evaluation")
    same(got, alone_o, "the outer evaluation")
    same(answer(outer, (st_, kwo)), alone_o, "the outer evaluation later")


# ------------------------------------------------------------------- dispersions in threads
@P.sub(
    "queries_in_threads",
    st.fixed_dictionaries({"d": st.lists(st.one_of(rich.dispersion, disp.model([k for k in disp.TEMPLATES if k != "Tanguy"], max_rep=3)), min_size=1, max_size=3), "q": st.lists(st.lists(fl(rich.LO + 5, rich.HI - 5, 2), min_size=1, max_size=6), min_size=2, max_size=6), "what": st.sampled_from(["permittivity", "index", "frame", "mixture"]), "kind": st.sampled_from(list(rich.MIX))}),
    400,
    8000,
    4,
)
def queries(case, t):
    """The same models and mixtures asked for several spectra by several threads."""
    flat = sorted({x for q in case["q"] for x in q})
    if rich.singular(case["d"], flat):
        t.tag("singular")
        return
    ds = [rich.build_disp(s) for s in case["d"]]
    what = case["what"]
    mix_ = rich.MIX[case["kind"]](ds[0].get_mat(), ds[-1].get_mat(), 0.35) if what == "mixture" else None

    def ask(q, i, ds_, m):
        L = np.array(q)
        if what == "mixture":
            f = 0.1 + 0.1 * i
            return np.concatenate([m.get_tensor(L), m.get_tensor_fraction(L, f)])
        d = ds_[i % len(ds_)]
        if what == "permittivity":
            return np.asarray(d.get_dielectric(L))
        if what == "index":
            return np.asarray(d.get_refractive_index(L))
        v = np.broadcast_to(np.asarray(d.get_dielectric(L)), L.shape)
        return np.concatenate([d.get_dielectric_df(L).to_numpy().ravel(), v.real]) if np.ndim(d.get_dielectric(L)) else v

    alone = [ask(q, i, ds, mix_) for i, q in enumerate(case["q"])]
    t.tag(what)
    t.nontrivial(any(a.shape != alone[0].shape or not np.allclose(a, alone[0], equal_nan=True) for a in alone))
    old = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        gate = threading.Barrier(len(case["q"]))

        def run(i):
            gate.wait(60)
            return [ask(case["q"][i], i, ds, mix_) for _ in range(3)]

        with ThreadPoolExecutor(len(case["q"])) as pool:
            futures = [pool.submit(run, i) for i in range(len(case["q"]))]
            done = [f.exception() or f.result() for f in futures]
    finally:
        sys.setswitchinterval(old)
    for i, r in enumerate(done):
        if isinstance(r, Exception):
            raise Violation(f"query {i} raised {r!r} in a thread") from r
        for a in r:
            same({"value": a}, {"value": alone[i]}, f"query {i} in a thread")


# ------------------------------------------------ composite dispersions asked from within themselves
terms = st.sampled_from(["n", "eps"]).flatmap(
    lambda k: st.fixed_dictionaries(
        {"rep": st.just(k), "of": st.lists(disp.model([m for m in (disp.INDEX if k == "n" else disp.EPS) if m not in ("Tanguy", "CodyLorentz", "EpsilonInf", "ConstantRefractiveIndex")], max_rep=2, min_rep=1), min_size=1, max_size=3)}
    )
)


@P.sub(
    "reentrant_models",
    st.fixed_dictionaries(
        {
            "t": terms,
            "at": st.integers(0, 3),
            "number": st.one_of(st.none(), fl(0.1, 2)),
            "conv": st.booleans(),
            "extra": st.booleans(),
            "form": st.sampled_from(["permittivity", "index", "tensor", "mixture", "fraction", "profile"]),
            "kind": st.sampled_from(list(rich.MIX)),
            "guest": rich.iso(),
            "f": st.tuples(fl(0.05, 0.95), fl(0.05, 0.95)),
            "outer": st.lists(fl(rich.LO + 5, rich.HI - 5, 2), min_size=1, max_size=4),
            "inner": st.lists(fl(rich.LO + 5, rich.HI - 5, 2), min_size=1, max_size=4),
            "when": st.integers(1, 4),
            "threads": st.booleans(),
        }
    ),
    900,
    20000,
    4,
)
def reentrant(case, t):
    """A term of a sum (conversion, mixture) asks the whole for its value at other wavelengths while it is evaluated."""
    spec = case["t"]
    both = sorted({*case["outer"], *case["inner"]})
    if rich.singular([spec["of"], case["guest"]], both):
        t.tag("singular")
        return
    lo, li = np.array(case["outer"]), np.array(case["inner"])
    fo, fi = case["f"]

    def make(hook):
        parts = [rich.build_disp(s) for s in spec["of"]]
        k = case["at"] % len(parts)
        parts[k] = (HookedIndex if spec["rep"] == "n" else HookedDispersion)(parts[k], hook)
        d = parts[0]
        for p in parts[1:]:
            d = d + p
        if case["number"] is not None or len(parts) == 1:
            d = d + (case["number"] or 0.5)
        if case["conv"] and spec["rep"] == "eps":
            d = d.as_index()
            if case["extra"]:
                d = d + elli.Cauchy(1.3, 20)
        m = d.get_mat()
        if case["form"] in ("mixture", "fraction", "profile"):
            m = rich.MIX[case["kind"]](m, rich.build(case["guest"]), 0.3)
        return d, m

    def ask(objs, L, f):
        d, m = objs
        if case["form"] == "permittivity":
            return np.array(d.get_dielectric(L))
        if case["form"] == "index":
            return np.array(d.get_refractive_index(L))
        if case["form"] == "fraction":
            return np.array(m.get_tensor_fraction(L, f))
        if case["form"] == "profile":
            return np.array([e for _, e in elli.VaryingMixtureLayer(m, 10.0, 2, lambda x: f * x).get_permittivity_profile(L)])
        return np.array(m.get_tensor(L))

    idle = Hook(-1, None)
    alone_o, alone_i = ask(make(idle), lo, fo), ask(make(idle), li, fi)
    if not (np.all(np.isfinite(alone_o)) and np.all(np.isfinite(alone_i))):
        t.tag("not finite")
        return
    hook = Hook(case["when"], lambda: ask(objs, li, fi))
    objs = make(hook)
    got = ask(objs, lo, fo)
    t.tag(case["form"], spec["rep"])
    if hook.got is not None:
        same({"value": hook.got}, {"value": alone_i}, f"the inner query ({case['form']})")
        t.nontrivial(alone_o.shape != alone_i.shape or not np.allclose(alone_o, alone_i))
    same({"value": got}, {"value": alone_o}, f"the outer query ({case['form']})")
    same({"value": ask(objs, lo, fo)}, {"value": alone_o}, f"the outer query later ({case['form']})")
    if case["threads"]:
        objs = make(idle)
        gate = threading.Barrier(4)

        def run(k):
            gate.wait(60)
            return [ask(objs, *((lo, fo) if k % 2 else (li, fi))) for _ in range(3)]

        old = sys.getswitchinterval()
        sys.setswitchinterval(5e-6)
        try:
            with ThreadPoolExecutor(4) as pool:
                done = list(pool.map(run, range(4)))
        finally:
            sys.setswitchinterval(old)
        for k, r in enumerate(done):
            for a in r:
                same({"value": a}, {"value": alone_o if k % 2 else alone_i}, f"thread {k} ({case['form']})")
