"""C02 - the 4x4 solver against an independently formulated boundary-value problem."""
from vlib.core import Property, close, require
from vlib import gen, refoptics
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C02",
    rule="a case is non-trivial if some layer or the exit medium is anisotropic with an index "
    "difference > 1e-2 and has thickness > 1 nm (for layers)",
    assumptions=[
        "transparent isotropic front medium, passive symmetric tensors",
        "attenuation exponent of the stack below 12 (numerical range of the transfer matrices)",
        "|kz/k0| > 1e-3 in every isotropic medium; forward and backward modes of an anisotropic exit "
        "medium separated by more than 1e-3",
    ],
)


def expected(case):
    s = case["s"]
    out = []
    for i, lb in enumerate(case["lbda"]):
        layers = [(gen.ref_tensor(x["mat"], lb)[0], x["d"]) for x in s["layers"]]
        back = gen.ref_tensor(s["back"], lb)[0]
        n0 = np.sqrt(gen.ref_tensor(s["front"], lb)[0, 0, 0]).real
        iso_back = s["back"]["m"] != "aniso"
        out.append(refoptics.anisotropic(n0, layers, back, lb, case["theta"], iso_back))
    return out


def ok(case, exp):
    s = case["s"]
    if gen.attenuation(s, case["lbda"], case["theta"]) > 12:
        return False
    if gen.min_kz(s, case["theta"]) < 1e-3:
        return False
    return all(g > 1e-3 and c < 1e8 for _, _, c, g in exp)


def tags(case, t):
    s = case["s"]
    an = [x for x in s["layers"] if x["mat"]["m"] == "aniso"]
    t.tag(f"layers={min(len(s['layers']), 6)}", f"back={s['back']['m']}")

    def spread(m):
        v = [gen.c(x) for x in m["n"]]
        return max(abs(a - b) for a in v for b in v)

    nt = any(spread(x["mat"]) > 1e-2 and x["d"] > 1 for x in an)
    if s["back"]["m"] == "aniso" and spread(s["back"]) > 1e-2:
        nt = True
    if any(m.get("rot") for m in [x["mat"] for x in an] + [s["back"]]):
        t.tag("rotated tensor")
    if any(gen.c(v).imag > 0 for x in an for v in x["mat"]["n"]):
        t.tag("absorbing tensor")
    if case["theta"] == 0:
        t.tag("normal incidence")
    if case["theta"] < 0:
        t.tag("negative angle")
    t.nontrivial(nt)


def compare(res, exp, what=""):
    r = np.array([e[0] for e in exp])
    close(res.jones_matrix_r, r, 1e-6, 1e-6, what + "Jones matrix (reflection)")
    if exp[0][1] is not None:
        tt = np.array([e[1] for e in exp])
        close(res.jones_matrix_t, tt, 2e-6, 2e-6 * max(1, abs(tt).max()), what + "Jones matrix (transmission)")


def propagator(name):
    return {
        None: lambda: {},
        "expm": lambda: {"propagator": elli.PropagatorExpm()},
        "torch": lambda: {"propagator": elli.PropagatorExpm(backend="torch")},
        "scipy": lambda: {"propagator": elli.PropagatorExpm(backend="scipy")},
        "eig": lambda: {"propagator": elli.PropagatorEig()},
    }[name]()


PROPS = [None, "expm", "torch", "scipy", "eig"]


def run(case, t):
    exp = expected(case)
    if not ok(case, exp):
        t.tag("outside domain")
        return
    tags(case, t)
    t.tag(f"propagator={case['prop']}")
    st_ = gen.structure(case["s"])
    kw = propagator(case["prop"])
    if case["prop"] is None:
        res = st_.evaluate(np.array(case["lbda"], float), gen.as_given(case["theta"]))
    else:
        res = st_.evaluate(np.array(case["lbda"], float), gen.as_given(case["theta"]), solver=elli.Solver4x4, **kw)
    compare(res, exp)


iso = gen.iso(st.one_of(gen.n_transparent(), gen.n_transparent(), gen.n_absorbing(1.0)))
any_mat = st.one_of(gen.aniso(), gen.aniso(), iso)
front = st.one_of(gen.iso(gen.n_transparent(1.0, 2.5)), gen.iso(gen.n_transparent(1.0, 1.5)))


def cases(layer, back, props=PROPS, dmax=600.0, max_layers=4, theta=gen.either_side(gen.theta()), fr=front, min_layers=0):
    return st.fixed_dictionaries(
        {
            "s": gen.stack(layer, front=fr, back=back, dmax=dmax, max_layers=max_layers, min_layers=min_layers),
            "lbda": gen.wavelengths(1, 3),
            "theta": theta,
            "prop": st.sampled_from(props),
        }
    )


P.sub("aniso_layers", cases(any_mat, iso, min_layers=1), 1600, 60000, 4)(run)
P.sub("aniso_exit", cases(any_mat, gen.aniso(), max_layers=2), 1000, 40000, 2)(run)
P.sub("hyperbolic_layers", cases(st.one_of(gen.hyperbolic(), gen.hyperbolic(), any_mat), iso, min_layers=1, dmax=250.0, max_layers=3), 900, 30000, 2)(run)
P.sub("hyperbolic_exit", cases(any_mat, gen.hyperbolic(), max_layers=1, dmax=250.0), 500, 20000, 2)(run)
P.sub("transparent_exit", cases(gen.aniso(False), gen.aniso(False), max_layers=1, props=[None]), 600, 20000, 2)(run)
P.sub(
    "dense_front",
    cases(
        gen.aniso(),
        gen.iso(gen.n_transparent(1.0, 1.6)),
        dmax=200.0,
        theta=gen.theta(30, 89),
        fr=gen.iso(gen.n_transparent(1.6, 2.6)),
        min_layers=1,
        max_layers=2,
    ),
    600,
    20000,
    2,
)(run)


@P.sub(
    "twisted_and_graded",
    st.fixed_dictionaries(
        {
            "front": front,
            "mat": gen.aniso(),
            "d": fl(1, 1000),
            "twist": fl(-720, 720),
            "div": st.integers(1, 12),
            "back": iso,
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(),
        }
    ),
    300,
    10000,
    1,
)
def twisted(case, t):
    """A twisted layer is a stack of rotated slices, solved by the reference."""
    n, d = case["div"], case["d"]
    base = gen.ref_tensor(case["mat"], 500.0)[0]
    layers = []
    for k in range(n):
        a = np.deg2rad(case["twist"] * (k + 0.5) / n)
        r = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
        layers.append((r @ base @ r.T, d / n))
    s = {"front": case["front"], "layers": [{"mat": case["mat"], "d": d}], "back": case["back"]}
    full = {"s": s, "lbda": case["lbda"], "theta": case["theta"]}
    exp = [
        refoptics.anisotropic(
            gen.c(case["front"]["n"]), layers, gen.ref_tensor(case["back"], lb)[0], lb, case["theta"], True
        )
        for lb in case["lbda"]
    ]
    if not ok(full, exp):
        t.tag("outside domain")
        return
    tags(full, t)
    lay = elli.TwistedLayer(gen.material(case["mat"]), d, n, case["twist"])
    st_ = elli.Structure(gen.material(case["front"]), [lay], gen.material(case["back"]))
    compare(st_.evaluate(np.array(case["lbda"]), case["theta"]), exp)


class Tensor(elli.Material):
    """A material given by its permittivity tensor (user-defined subclass of the public base class)."""

    def __init__(self, eps):
        self.eps = np.array(eps, complex)

    def get_tensor(self, lbda):
        return np.broadcast_to(self.eps, (len(np.atleast_1d(lbda)), 3, 3)).copy()


@P.sub(
    "gentle_gradients",
    st.fixed_dictionaries(
        {
            "front": front,
            "mat": st.one_of(gen.aniso(False), gen.iso(gen.n_real(1.2, 3.0).map(lambda n: [n, 0.0])), gen.aniso()),
            "n": st.one_of(st.integers(2, 60), gen.big(40, 420)),
            "d": fl(100, 6000, 1),
            "change": st.tuples(fl(1, 9, 2), st.sampled_from([1e-5, 1e-4, 1e-3, 1e-2, 3e-2])).map(list),
            "course": st.sampled_from(["linear", "parabola", "wave", "random", "pairs"]),
            "twist": mix([0.0], fl(-30, 30, 3)),
            "back": iso,
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(),
            "prop": st.sampled_from([None, None, "expm", "scipy"]),
            "seed": st.integers(0, 10**6),
        }
    ),
    160,
    6000,
    4,
)
def gentle(case, t):
    """Many thin slices of equal thickness whose neighbours differ by next to nothing, but whose ends do not."""
    n, d = case["n"], round(case["d"] / case["n"], 6)
    u = (np.arange(n) + 0.5) / n
    shape = {"linear": u, "parabola": u**2, "wave": 0.5 - 0.5 * np.cos(6 * u), "random": np.cumsum(np.random.RandomState(case["seed"]).rand(n)) / n, "pairs": np.floor(u * n / 2) * 2 / n}[case["course"]]
    base = gen.ref_tensor(case["mat"], 500.0)[0]
    ch = case["change"][0] * case["change"][1]
    layers = []
    for f in shape:
        a = np.deg2rad(case["twist"] * f)
        r = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
        layers.append((r @ (base * (1 + ch * f)) @ r.T, d))
    s = {"front": case["front"], "layers": [{"mat": case["mat"], "d": n * d * (1 + ch)}], "back": case["back"]}
    full = {"s": s, "lbda": case["lbda"], "theta": case["theta"]}
    if gen.attenuation(s, case["lbda"], case["theta"]) > 8:
        t.tag("outside domain")
        return
    exp = [
        refoptics.anisotropic(gen.c(case["front"]["n"]), layers, gen.ref_tensor(case["back"], lb)[0], lb, case["theta"], True)
        for lb in case["lbda"]
    ]
    if not ok(full, exp):
        t.tag("outside domain")
        return
    t.tag(case["course"], case["mat"]["m"], f"propagator={case['prop']}", "many slices" if n > 60 else None, "twisted" if case["twist"] else None)
    t.tag(f"change between slices 1e{int(np.floor(np.log10(ch / n)))}")
    t.nontrivial(n > 4 and ch > 1e-3)
    st_ = elli.Structure(gen.material(case["front"]), [elli.Layer(Tensor(e), x) for e, x in layers], gen.material(case["back"]))
    kw = {} if case["prop"] is None else dict(solver=elli.Solver4x4, **propagator(case["prop"]))
    compare(st_.evaluate(np.array(case["lbda"], float), case["theta"], **kw), exp, f"{n} slices: ")


def gyro_tensor(spec):
    """Symmetric tensor plus a gyration vector: i [g] x is Hermitian for real g, i.e. lossless."""
    g = spec["g"]
    x = np.array([[0, -g[2], g[1]], [g[2], 0, -g[0]], [-g[1], g[0], 0]])
    return gen.ref_tensor(spec["base"], 500.0)[0] + 1j * x


gyro = st.fixed_dictionaries(
    {"base": st.one_of(gen.aniso(), gen.iso(gen.n_real(1.2, 3.0).map(lambda n: [n, 0.0]))), "g": st.tuples(*[mix([0.0], fl(-0.3, 0.3))] * 3).map(list)}
)


@P.sub(
    "gyrotropic",
    st.fixed_dictionaries(
        {
            "front": front,
            "layers": st.lists(st.fixed_dictionaries({"mat": gyro, "d": gen.thickness(400.0)}), max_size=3),
            "back": st.one_of(gyro, iso, iso),
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(),
            "prop": st.sampled_from(PROPS),
        }
    ),
    600,
    20000,
    2,
)
def gyrotropic(case, t):
    """Magneto-optical media, whose tensors are not symmetric, given as user-defined materials."""
    lay = [(gyro_tensor(x["mat"]), x["d"]) for x in case["layers"]]
    iso_back = "base" not in case["back"]
    back = gen.ref_tensor(case["back"], 500.0)[0] if iso_back else gyro_tensor(case["back"])
    exp = [refoptics.anisotropic(gen.c(case["front"]["n"]), lay, back, lb, case["theta"], iso_back) for lb in case["lbda"]]
    flat = [{"mat": x["mat"]["base"], "d": x["d"]} for x in case["layers"]]
    s = {"front": case["front"], "layers": flat, "back": case["back"] if iso_back else case["back"]["base"]}
    if gen.attenuation(s, case["lbda"], case["theta"]) > 3 or gen.min_kz(s, case["theta"]) < 1e-2 or not all(g > 1e-3 and k < 1e8 for _, _, k, g in exp):
        t.tag("outside domain")
        return
    used = [x["mat"]["g"] for x in case["layers"] if x["d"] > 1] + ([] if iso_back else [case["back"]["g"]])
    t.tag(f"layers={len(lay)}", "isotropic exit" if iso_back else "gyrotropic exit", f"propagator={case['prop']}")
    t.nontrivial(any(max(map(abs, g)) > 1e-2 for g in used))
    back_mat = gen.material(case["back"]) if iso_back else Tensor(back)
    st_ = elli.Structure(gen.material(case["front"]), [elli.Layer(Tensor(e), d) for e, d in lay], back_mat)
    kw = {} if case["prop"] is None else dict(solver=elli.Solver4x4, **propagator(case["prop"]))
    compare(st_.evaluate(np.array(case["lbda"], float), case["theta"], **kw), exp)
