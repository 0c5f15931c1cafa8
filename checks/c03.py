"""C03 - agreement of solvers and propagators (differential)."""
from vlib.core import Property, close, require, raises
from vlib import gen, refoptics
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C03",
    rule="a case is non-trivial if the structure has at least one layer thicker than 1 nm that differs "
    "from its neighbours, or (propagator cases) the exponent norm exceeds 0.01",
    assumptions=[
        "attenuation exponent below 4, |kz/k0| > 1e-3 in every medium, no exact surface plasmon resonance (range in which transfer "
        "matrices and eigenvector matrices are well conditioned)",
    ],
)

SOLVERS = {
    "2x2": lambda: (elli.Solver2x2, {}),
    "default": lambda: (None, {}),
    "4x4": lambda: (elli.Solver4x4, {}),
    "auto": lambda: (elli.Solver4x4, {"propagator": elli.PropagatorExpm()}),
    "auto2": lambda: (elli.Solver4x4, {"propagator": elli.PropagatorExpm(backend="automatic")}),
    "torch": lambda: (elli.Solver4x4, {"propagator": elli.PropagatorExpm(backend="torch")}),
    "scipy": lambda: (elli.Solver4x4, {"propagator": elli.PropagatorExpm("scipy")}),
    "eig": lambda: (elli.Solver4x4, {"propagator": elli.PropagatorEig()}),
}


def evaluate(structure, lbda, theta, which):
    solver, kw = SOLVERS[which]()
    if solver is None:
        return structure.evaluate(lbda, theta)
    return structure.evaluate(lbda, theta, solver=solver, **kw)


iso_layer = st.one_of(
    gen.iso(st.one_of(gen.n_transparent(), gen.n_transparent(), gen.n_absorbing(1.5))), gen.cauchy()
)
front = gen.iso(gen.n_transparent(1.0, 3.0))


def domain(case):
    return (
        gen.attenuation(case["s"], case["lbda"], case["theta"]) < 4
        and gen.min_kz(case["s"], case["theta"], case["lbda"]) > 1e-3
    )


def nontrivial(case):
    s = case["s"]
    seq = [s["front"], *[x["mat"] for x in s["layers"]], s["back"]]
    return any(
        x["d"] > 1 and (seq[i] != x["mat"] or seq[i + 2] != x["mat"]) for i, x in enumerate(s["layers"])
    )


@P.sub(
    "isotropic",
    st.fixed_dictionaries(
        {
            "s": gen.stack(iso_layer, front=front, dmax=700),
            "lbda": gen.wavelengths(1, 4),
            "theta": gen.either_side(gen.theta()),
            "a": st.just("2x2"),
            "b": st.sampled_from([k for k in SOLVERS if k != "2x2"]),
        }
    ),
    2000,
    80000,
    4,
)
def isotropic(case, t):
    same(case, t)


@P.sub(
    "anisotropic",
    st.fixed_dictionaries(
        {
            "s": gen.stack(gen.aniso(), front=front, back=st.one_of(iso_layer, gen.aniso()), dmax=500, max_layers=3),
            "lbda": gen.wavelengths(1, 4),
            "theta": gen.either_side(gen.theta()),
            "a": st.sampled_from(["default", "auto"]),
            "b": st.sampled_from([k for k in SOLVERS if k not in ("2x2", "default")]),
        }
    ),
    1000,
    40000,
    2,
)
def anisotropic(case, t):
    same(case, t)


@P.sub(
    "hyperbolic",
    st.fixed_dictionaries(
        {
            "s": gen.stack(
                st.one_of(gen.hyperbolic(), gen.hyperbolic(), gen.aniso(), iso_layer),
                front=front,
                back=st.one_of(iso_layer, iso_layer, gen.hyperbolic()),
                dmax=250,
                max_layers=3,
                min_layers=1,
            ),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.either_side(gen.theta()),
            "a": st.sampled_from(["default", "auto"]),
            "b": st.sampled_from(["scipy", "eig", "eig"]),
        }
    ),
    500,
    20000,
    2,
)
def hyperbolic(case, t):
    """Indefinite tensors: large wave vectors, modes whose power flows against their phase."""
    s = case["s"]
    for lb in case["lbda"]:
        n0 = np.sqrt(gen.ref_tensor(s["front"], lb)[0, 0, 0]).real
        layers = [(gen.ref_tensor(x["mat"], lb)[0], x["d"]) for x in s["layers"]]
        iso_back = s["back"]["m"] != "aniso"
        _, _, cond, gap = refoptics.anisotropic(n0, layers, gen.ref_tensor(s["back"], lb)[0], lb, case["theta"], iso_back)
        if gap < 1e-3 or cond > 1e7:
            t.tag("outside domain")
            return
    same(case, t)


@P.sub(
    "partial_total_reflection",
    st.tuples(
        gen.partial_reflection(st.one_of(iso_layer, iso_layer, gen.aniso())),
        st.sampled_from(["2x2", "default", "auto"]),
        st.sampled_from(["4x4", "scipy", "eig", "torch"]),
    ).map(lambda t: dict(t[0], a=t[1], b=t[2])),
    500,
    20000,
)
def partial(case, t):
    """Only some wavelengths are totally reflected by the exit medium."""
    if any(x["mat"]["m"] == "aniso" for x in case["s"]["layers"]):
        case = dict(case, a="default")
    same(case, t)


@P.sub(
    "opaque",
    st.fixed_dictionaries(
        {
            "front": gen.n_transparent(1.0, 2.0),
            "mats": st.lists(gen.n_absorbing(5.0), min_size=1, max_size=3),
            "exponents": st.lists(fl(0.1, 1.0), min_size=3, max_size=3),
            "total": st.one_of(fl(3.0, 25.0), fl(25.0, 300.0)),
            "back": gen.n_any(1.0),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.theta(0, 80),
            "b": st.sampled_from([k for k in SOLVERS if k != "2x2"]),
        }
    ),
    500,
    20000,
)
def opaque(case, t):
    """Strong attenuation: the (tiny) transmission keeps its relative accuracy."""
    kx = case["front"][0] * np.sin(np.deg2rad(case["theta"]))
    n = [gen.c(v) for v in case["mats"]]
    w = np.array(case["exponents"][: len(n)])
    w = w / w.sum() * case["total"]
    # exponent at the shortest wavelength
    d = [round(float(e / (abs(np.sqrt(x * x - kx * kx).imag) * 2 * np.pi / min(case["lbda"]))), 6) for x, e in zip(n, w)]
    if max(d) > 30000:
        t.tag("outside domain")
        return
    spec = {
        "front": {"m": "n", "n": case["front"]},
        "layers": [{"mat": {"m": "n", "n": v}, "d": x} for v, x in zip(case["mats"], d)],
        "back": {"m": "n", "n": case["back"]},
    }
    if gen.min_kz(spec, case["theta"]) < 0.05:
        t.tag("outside domain")
        return
    t.tag(case["b"], f"exponent {5 * int(case['total'] // 5)}.." if case["total"] < 25 else "exponent above 25")
    t.nontrivial(case["total"] > 5)
    lb = np.array(case["lbda"], float)
    s = gen.structure(spec)
    a, b = evaluate(s, lb, case["theta"], "2x2"), evaluate(s, lb, case["theta"], case["b"])
    close(b.jones_matrix_r, a.jones_matrix_r, 1e-6, 1e-7, "Jones matrix (reflection)")
    close(b.R, a.R, 1e-6, 1e-7, "R")
    for name in ("t_pp", "t_ss"):
        i = 0 if name == "t_pp" else 1
        x, y = b.jones_matrix_t[:, i, i], a.jones_matrix_t[:, i, i]
        close(x / y, np.ones(len(lb)), 0, 1e-6, f"{name} relative to the 2x2 solver")
    if case["back"][0] == 0 or case["back"][1] == 0 and case["back"][0] < kx:
        t.tag("total reflection")
        return
    close(b.T / a.T, np.ones(len(lb)), 0, 1e-6, "T relative to the 2x2 solver")


def same(case, t):
    if not domain(case):
        t.tag("outside domain")
        return
    t.tag(f"{case['a']} vs {case['b']}", f"layers={len(case['s']['layers'])}")
    t.nontrivial(nontrivial(case))
    lb = np.array(case["lbda"], float)
    s = gen.structure(case["s"])
    if case["theta"] < 0:
        t.tag("negative angle")
    a = evaluate(s, lb, case["theta"], case["a"])
    b = evaluate(s, lb, gen.as_given(case["theta"]), case["b"])
    iso_back = case["s"]["back"]["m"] != "aniso"
    close(b.jones_matrix_r, a.jones_matrix_r, 1e-6, 1e-7, "Jones matrix (reflection)")
    close(b.R_matrix, a.R_matrix, 1e-6, 1e-7, "R matrix")
    close(b.R, a.R, 1e-6, 1e-7, "R")
    if iso_back:
        sc = max(1.0, abs(a.jones_matrix_t).max())
        close(b.jones_matrix_t, a.jones_matrix_t, 1e-6, 1e-7 * sc, "Jones matrix (transmission)")
        close(b.T_matrix, a.T_matrix, 2e-6, 1e-7 * sc**2, "T matrix")
        close(b.T, a.T, 2e-6, 1e-7 * sc**2, "T")
    rss, rpp = a.jones_matrix_r[:, 1, 1], a.jones_matrix_r[:, 0, 0]
    good = (abs(rss) > 1e-2) & (abs(rpp) > 1e-2)
    if case["s"]["back"]["m"] != "aniso" and all(x["mat"]["m"] != "aniso" for x in case["s"]["layers"]):
        close(b.psi[good], a.psi[good], 1e-5, 1e-4, "psi")
        d = (b.delta - a.delta + 180) % 360 - 180
        close(d[good], 0 * d[good], 0, 1e-3, "delta")
        close(b.mueller_matrix[good], a.mueller_matrix[good], 0, 1e-4, "Mueller matrix")


@P.sub(
    "linear_convergence",
    st.fixed_dictionaries(
        {
            "n": gen.n_any(0.5),
            "aniso": st.one_of(st.none(), gen.aniso()),
            "d": fl(5, 120),
            "front": gen.n_transparent(1.0, 1.5),
            "back": gen.n_any(1.0),
            "lbda": gen.wavelengths(1, 2, lo=400.0),
            "theta": gen.theta(0, 80),
        }
    ),
    150,
    5000,
    2,
)
def linear_convergence(case, t):
    """Error of the linear propagator with N slices falls like 1/N."""
    mat = {"m": "n", "n": case["n"]} if case["aniso"] is None else case["aniso"]
    m = gen.material(mat)
    fr, ba = gen.material({"m": "n", "n": case["front"]}), gen.material({"m": "n", "n": case["back"]})
    spec = {"front": {"m": "n", "n": case["front"]}, "back": {"m": "n", "n": case["back"]}, "layers": [{"mat": mat, "d": case["d"]}]}
    if gen.min_kz(spec, case["theta"]) < 0.05 or gen.attenuation(spec, case["lbda"], case["theta"]) > 2:
        t.tag("outside domain")
        return
    lb = np.array(case["lbda"])
    exact = elli.Structure(fr, [elli.Layer(m, case["d"])], ba).evaluate(lb, case["theta"]).jones_matrix_r

    def err(n):
        s = elli.Structure(fr, [elli.RepeatedLayers([elli.Layer(m, case["d"] / n)], n)], ba)
        r = s.evaluate(lb, case["theta"], solver=elli.Solver4x4, propagator=elli.PropagatorLinear())
        return abs(r.jones_matrix_r - exact).max()

    e1, e2 = err(200), err(800)
    t.tag("error visible" if e1 > 1e-6 else "error below 1e-6")
    t.nontrivial(e1 > 1e-6)
    require(e2 <= 0.4 * e1 + 1e-8, f"linear propagator does not converge: error {e1} (200 slices), {e2} (800)")


@P.sub(
    "propagators",
    st.fixed_dictionaries(
        {
            "mat": st.one_of(gen.aniso(), gen.iso(gen.n_any(1.0))),
            "kx": fl(0.0, 1.2),
            "d1": fl(-300, 300),
            "d2": fl(-300, 300),
            "lbda": gen.wavelengths(1, 4),
        }
    ),
    1000,
    40000,
    2,
)
def propagators(case, t):
    """All exact propagators give the same matrix, which composes over distances."""
    lb = np.array(case["lbda"])
    eps = gen.material(case["mat"]).get_tensor(lb)
    delta = elli.Solver4x4.build_delta_matrix(np.full(len(lb), case["kx"]), eps)
    norm = max(abs(delta).sum(axis=(1, 2))) * (abs(case["d1"]) + abs(case["d2"])) * 2 * np.pi / min(lb)
    vals = [np.linalg.eigvals(x) for x in delta]
    gap = min(np.min(abs(v)) for v in vals)
    growth = max(abs(v.imag).max() for v in vals) * (abs(case["d1"]) + abs(case["d2"])) * 2 * np.pi / min(lb)
    if gap < 1e-2 or growth > 6:
        t.tag("outside domain")
        return
    t.nontrivial(norm > 1e-2)
    props = {
        "torch": elli.PropagatorExpm(backend="torch"),
        "scipy": elli.PropagatorExpm(backend="scipy"),
        "eig": elli.PropagatorEig(),
    }
    eye = np.broadcast_to(np.eye(4), delta.shape)
    base = None
    for name, p in props.items():
        p1 = p.calculate_propagation(delta, case["d1"], lb)
        p2 = p.calculate_propagation(delta, case["d2"], lb)
        p12 = p.calculate_propagation(delta, case["d1"] + case["d2"], lb)
        sc = max(1.0, abs(p1).max() * abs(p2).max()) * 10 / gap
        close(p1 @ p2, p12, 1e-7, 1e-9 * sc, f"{name}: composition of two distances")
        close(p.calculate_propagation(delta, 0.0, lb), eye, 0, 1e-10 / gap, f"{name}: zero distance")
        if base is None:
            base = p1
        else:
            close(p1, base, 1e-7, 1e-9 * sc, f"{name} against torch")
    lin = elli.PropagatorLinear().calculate_propagation(delta, case["d1"], lb)
    close(
        lin,
        np.eye(4) + 1j * case["d1"] * 2 * np.pi / lb[:, None, None] * delta,
        1e-12,
        1e-12 * (1 + norm),
        "linear propagator",
    )


@P.sub("unknown_backend", st.text(max_size=8), 60, 1000)
def unknown_backend(case, t):
    if case in ("torch", "scipy", "automatic"):
        return
    t.nontrivial()
    raises(ValueError, lambda: elli.PropagatorExpm(backend=case), f"backend {case!r}")
