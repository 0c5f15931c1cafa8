"""C01 - the 2x2 solver against an independent recursive Fresnel solution."""
from vlib.core import Property, close, require
from vlib import gen, refoptics
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C01",
    rule="a case is non-trivial if the structure has at least one optical contrast > 1e-3 "
    "and the angle is not zero or the stack has two or more layers",
    assumptions=[
        "transparent front medium, passive layers and exit medium",
        "total attenuation in the stack below exp(300), |kz/k0| > 1e-4 in every medium",
        "not exactly on the surface plasmon resonance of a lossless metal",
    ],
)


def ref(case):
    out = []
    for lb in case["lbda"]:
        n = [index(m, lb) for m in [case["s"]["front"], *[x["mat"] for x in case["s"]["layers"]], case["s"]["back"]]]
        out.append(
            (n, refoptics.isotropic(n, [x["d"] for x in case["s"]["layers"]], lb, case["theta"]))
        )
    return out


def index(m, lb):
    if m["m"] == "n":
        return gen.c(m["n"])
    n0, n1, n2 = m["c"]
    return complex(n0 + 1e2 * n1 / lb**2 + 1e7 * n2 / lb**4)


def in_domain(refs, case):
    for (n, _), lb in zip(refs, case["lbda"]):
        kx = n[0] * np.sin(np.deg2rad(case["theta"]))
        kz = [np.sqrt(complex(x * x - kx * kx)) for x in n]
        if min(abs(k) for k in kz) < 1e-4 or gen.plasmon(n, kx):
            return False
        att = sum(abs(k.imag) * x["d"] for k, x in zip(kz[1:-1], case["s"]["layers"]))
        if att * 2 * np.pi / lb > 300:
            return False
    return True


def compare(res, refs, t, T=True):
    rp, rs, tp, ts, fp, fs = (np.array(v) for v in zip(*[r[1] for r in refs]))
    zero = np.zeros(len(rp))
    J = res.jones_matrix_r
    close(J[:, 0, 0], rp, 1e-6, 1e-7, "r_pp")
    close(J[:, 1, 1], rs, 1e-6, 1e-7, "r_ss")
    close(J[:, 0, 1], zero, 0, 1e-12, "r_ps")
    close(J[:, 1, 0], zero, 0, 1e-12, "r_sp")
    K = res.jones_matrix_t
    close(K[:, 0, 0], tp, 1e-6, 1e-12, "t_pp")
    close(K[:, 1, 1], ts, 1e-6, 1e-12, "t_ss")
    close(K[:, 0, 1], zero, 0, 1e-12, "t_ps")
    close(K[:, 1, 0], zero, 0, 1e-12, "t_sp")
    close(res.R, (abs(rp) ** 2 + abs(rs) ** 2) / 2, 1e-6, 1e-7, "R")
    close(res.R_pp, abs(rp) ** 2, 1e-6, 1e-7, "R_pp")
    close(res.R_ss, abs(rs) ** 2, 1e-6, 1e-7, "R_ss")
    close(res.T_pp, fp * abs(tp) ** 2, 2e-6, 1e-9, "T_pp")
    close(res.T_ss, fs * abs(ts) ** 2, 2e-6, 1e-9, "T_ss")
    close(res.T, (fp * abs(tp) ** 2 + fs * abs(ts) ** 2) / 2, 2e-6, 1e-9, "T")


def tags(case, refs, t):
    n = refs[0][0]
    con = max(abs(a - b) for a, b in zip(n, n[1:]))
    kx = n[0] * np.sin(np.deg2rad(case["theta"]))
    t.tag(f"layers={min(len(n) - 2, 6)}")
    if case["theta"] == 0:
        t.tag("normal incidence")
    if n[-1].imag == 0 and n[-1].real < kx.real:
        t.tag("total internal reflection")
    if any(x.imag == 0 and x.real < kx.real for x in n[1:-1]):
        t.tag("frustrated layer")
    if any(x.imag > 0.1 for x in n[1:-1]):
        t.tag("absorbing layer")
    if n[-1].imag > 0:
        t.tag("absorbing exit")
    if any(0 < x.imag < 1e-3 for x in n):
        t.tag("weak absorption")
    if any(x.real == 0 for x in n):
        t.tag("pure imaginary index")
    t.nontrivial(con > 1e-3 and (case["theta"] != 0 or len(n) > 3))


def run(case, t):
    refs = ref(case)
    if not in_domain(refs, case):
        t.tag("outside domain")
        return
    tags(case, refs, t)
    s = gen.structure(case["s"])
    if case["theta"] < 0:
        t.tag("negative angle")
    res = s.evaluate(np.array(case["lbda"], float), gen.as_given(case["theta"]), solver=elli.Solver2x2)
    compare(res, refs, t)


weak = st.tuples(fl(1.0, 4.0), mix([1e-14, 1e-11, 1e-9, 1e-6], fl(1e-6, 1e-2, 9))).map(list)
plasma = fl(0.05, 5.0).map(lambda k: [0.0, k])
indices = gen.iso(st.one_of(gen.n_transparent(), gen.n_absorbing(), weak, gen.n_transparent(), plasma))
media = st.one_of(indices, indices, gen.cauchy())


def cases(**kw):
    return st.fixed_dictionaries(
        {
            "s": gen.stack(media, **kw),
            "lbda": gen.wavelengths(1, 4),
            "theta": gen.either_side(gen.theta()),
        }
    )


P.sub("random_stack", cases(front=st.one_of(gen.iso(gen.n_transparent(1.0, 4.0)), gen.cauchy())), 3000, 100000, 4)(run)
P.sub("interface", cases(front=gen.iso(gen.n_transparent(0.3, 4.0)), max_layers=0), 800, 20000, 1)(run)

# Light coming from the optically denser side at large angles: total reflection, tunnelling
tir = st.fixed_dictionaries(
    {
        "s": gen.stack(
            gen.iso(st.one_of(gen.n_transparent(1.0, 2.5), gen.n_transparent(1.0, 2.5), weak, gen.n_absorbing(2.0))),
            front=gen.iso(gen.n_transparent(1.5, 4.0)),
            back=gen.iso(st.one_of(gen.n_transparent(1.0, 2.0), weak)),
            dmax=600.0,
            max_layers=3,
        ),
        "lbda": gen.wavelengths(1, 3),
        "theta": gen.theta(25.0, 89.0),
    }
)
some = gen.partial_reflection(gen.iso(st.one_of(gen.n_transparent(1.0, 3.0), gen.n_absorbing(1.0))))
P.sub("partial_total_reflection", some, 600, 20000)(run)
P.sub("dense_front", tir, 1500, 40000, 2)(run)


@P.sub(
    "many_layers",
    st.fixed_dictionaries(
        {
            "front": gen.iso(gen.n_transparent(1.0, 2.5)),
            "unit": st.lists(
                st.fixed_dictionaries({"mat": indices, "d": gen.thickness(150.0)}), min_size=2, max_size=4
            ),
            "rep": st.integers(2, 25),
            "back": media,
            "lbda": gen.wavelengths(1, 2),
            "theta": gen.theta(0, 85),
        }
    ),
    300,
    10000,
    2,
)
def many_layers(case, t):
    """Periodic stacks given as repeated layers against the explicit recursion."""
    full = {
        "s": {"front": case["front"], "layers": case["unit"] * case["rep"], "back": case["back"]},
        "lbda": case["lbda"],
        "theta": case["theta"],
    }
    refs = ref(full)
    if not in_domain(refs, full):
        t.tag("outside domain")
        return
    tags(full, refs, t)
    unit = [gen.layer(x) for x in case["unit"]]
    s = elli.Structure(
        gen.material(case["front"]), [elli.RepeatedLayers(unit, case["rep"])], gen.material(case["back"])
    )
    compare(s.evaluate(np.array(case["lbda"], float), case["theta"], solver=elli.Solver2x2), refs, t)


@P.sub(
    "near_critical",
    st.fixed_dictionaries(
        {
            "n": st.tuples(fl(1.3, 4.0), fl(0.2, 0.98)).map(list),
            "kz": st.tuples(st.floats(-3.6, -1.0), st.sampled_from([-1, 1])).map(lambda t: [round(10 ** t[0], 8), t[1]]),
            "layers": st.lists(st.fixed_dictionaries({"mat": gen.iso(gen.n_transparent(1.0, 2.5)), "d": gen.thickness(300.0)}), max_size=2),
            "where": st.sampled_from(["exit", "exit", "layer"]),
            "lbda": gen.wavelengths(1, 3),
        }
    ),
    500,
    15000,
)
def near_critical(case, t):
    """Angles close to the critical angle of the exit medium or of a layer, from either side."""
    nf, nb = case["n"][0], round(case["n"][0] * case["n"][1], 6)
    kz, sign = case["kz"]
    kx = np.sqrt(nb**2 - sign * kz**2)
    if not 0 < kx < 0.9998 * nf:
        t.tag("outside domain")
        return
    medium = {"m": "n", "n": [nb, 0.0]}
    layers, back = list(case["layers"]), medium
    if case["where"] == "layer":
        layers.append({"mat": medium, "d": 200.0})
        back = {"m": "n", "n": [1.7, 0.2]}
    full = {
        "s": {"front": {"m": "n", "n": [nf, 0.0]}, "layers": layers, "back": back},
        "lbda": case["lbda"],
        "theta": float(np.rad2deg(np.arcsin(kx / nf))),
    }
    t.tag("decaying" if sign < 0 else "propagating")
    run(full, t)


@P.sub(
    "thick_layers",
    st.fixed_dictionaries(
        {
            "front": gen.iso(gen.n_transparent(1.0, 2.0)),
            "layers": st.lists(
                st.tuples(fl(1.0, 3.0), st.one_of(st.just(0.0), fl(0.05, 5.0)), st.floats(3, 6)).map(
                    # (index, attenuation exponent at 500 nm, decimal logarithm of the thickness)
                    lambda v: {"mat": {"m": "n", "n": [v[0], v[1] * 500 / (2 * np.pi * 10 ** v[2])]}, "d": float(f"{10 ** v[2]:.6g}")}
                ),
                min_size=1,
                max_size=2,
            ),
            "back": gen.iso(gen.n_any(2.0)),
            "lbda": st.tuples(st.floats(300, 1500), st.floats(1e-5, 1e-2), st.integers(1, 4)).map(lambda v: [v[0] + i * v[1] for i in range(v[2])]),
            "theta": gen.theta(0, 75),
        }
    ),
    500,
    15000,
)
def thick_layers(case, t):
    """Substrates up to a millimetre, wavelengths resolving their fringes, absorption down to k = 1e-7."""
    full = {"s": {k: case[k] for k in ("front", "layers", "back")}, "lbda": case["lbda"], "theta": case["theta"]}
    run(full, t)


@P.sub(
    "opaque",
    st.fixed_dictionaries(
        {
            "front": gen.n_transparent(1.0, 2.5),
            "mats": st.lists(gen.n_absorbing(5.0), min_size=1, max_size=4),
            "exponents": st.lists(fl(0.05, 1.0), min_size=4, max_size=4),
            "total": st.one_of(fl(3.0, 30.0), fl(30.0, 300.0)),
            "back": st.one_of(gen.n_transparent(1.0, 3.0), gen.n_absorbing(3.0)),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.theta(0, 85),
        }
    ),
    400,
    15000,
)
def opaque(case, t):
    """Strong attenuation: the tiny transmission keeps its relative accuracy, the reflection stays finite."""
    kx = case["front"][0] * np.sin(np.deg2rad(case["theta"]))
    n = [gen.c(v) for v in case["mats"]]
    w = np.array(case["exponents"][: len(n)])
    w = w / w.sum() * case["total"]
    d = [round(float(e / (abs(np.sqrt(x * x - kx * kx).imag) * 2 * np.pi / min(case["lbda"]))), 6) for x, e in zip(n, w)]
    if max(d) > 1e6:
        t.tag("outside domain")
        return
    full = {
        "s": {
            "front": {"m": "n", "n": case["front"]},
            "layers": [{"mat": {"m": "n", "n": v}, "d": x} for v, x in zip(case["mats"], d)],
            "back": {"m": "n", "n": case["back"]},
        },
        "lbda": case["lbda"],
        "theta": case["theta"],
    }
    refs = ref(full)
    if min(abs(np.sqrt(x * x - kx * kx + 0j)) for x in [*n, gen.c(case["back"])]) < 0.05 or not in_domain(refs, full):
        t.tag("outside domain")
        return
    t.tag(f"exponent {30 * int(case['total'] // 30)}..")
    t.nontrivial(case["total"] > 5)
    res = gen.structure(full["s"]).evaluate(np.array(case["lbda"], float), case["theta"], solver=elli.Solver2x2)
    compare(res, refs, t)
    one = np.ones(len(refs))
    tp, ts = (np.array([r[1][i] for r in refs]) for i in (2, 3))
    close(res.jones_matrix_t[:, 0, 0] / tp, one, 0, 1e-6, "t_pp relative to the exact value")
    close(res.jones_matrix_t[:, 1, 1] / ts, one, 0, 1e-6, "t_ss relative to the exact value")
