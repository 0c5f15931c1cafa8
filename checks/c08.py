"""C08 - symmetry, rotation and reciprocity of anisotropic samples (metamorphic)."""
from vlib.core import Property, close, require
from vlib import gen, refoptics
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C08",
    rule="a case is non-trivial if a layer thicker than 1 nm or the exit medium is anisotropic with a principal "
    "index difference above 1e-2 (for the mirror and reciprocity laws also: the cross-polarised coefficient is above 1e-6)",
    assumptions=[
        "transparent isotropic front medium, symmetric (reciprocal) tensors, attenuation exponent below 4",
        "|kz/k0| > 1e-3 in isotropic media",
    ],
)
I3 = np.eye(3)
C2X, C2Y, C2Z = np.diag([1.0, -1, -1]), np.diag([-1.0, 1, -1]), np.diag([-1.0, -1, 1])


def rz(deg):
    a = np.deg2rad(deg)
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])


def material(spec, op):
    """Material turned by the rotation op in addition to its own orientation."""
    if spec["m"] == "mix":
        return elli.VCAMaterial(material(spec["host"], op), material(spec["guest"], op), spec["f"])
    mat = gen.material(dict(spec, rot=None))
    if spec["m"] == "aniso":
        r0 = gen.rot_matrix(spec["rot"]) if spec.get("rot") else I3
        mat.set_rotation(op @ r0)
    return mat


def layers(specs, op, mirror=False):
    out = []
    for x in specs:
        m = material(x["mat"], op)
        k = x.get("k", "plain")
        if k == "twist":
            out.append(elli.TwistedLayer(m, x["d"], x["div"], -x["angle"] if mirror else x["angle"]))
        elif k == "vary":
            out.append(elli.VaryingMixtureLayer(m, x["d"], x["div"]))
        else:
            out.append(elli.Layer(m, x["d"]))
    return out


def evaluate(case, op, mirror=False, theta=None):
    s = case["s"]
    st_ = elli.Structure(gen.material(s["front"]), layers(s["layers"], op, mirror), material(s["back"], op))
    kw = {} if case.get("prop") != "eig" else {"propagator": elli.PropagatorEig()}
    return st_.evaluate(np.array(case["lbda"], float), case["theta"] if theta is None else theta, solver=elli.Solver4x4, **kw)


def spread(m):
    if m["m"] == "mix":
        return max(spread(m["host"]), spread(m["guest"]))
    if m["m"] != "aniso":
        return 0.0
    v = [gen.c(x) for x in m["n"]]
    return max(abs(a - b) for a in v for b in v)


def leaves(m):
    return leaves(m["host"]) + leaves(m["guest"]) if m["m"] == "mix" else [m]


def domain(case, limit=4):
    s = case["s"]
    flat = dict(s, layers=[{"mat": m, "d": x["d"]} for x in s["layers"] for m in leaves(x["mat"])])
    return gen.attenuation(flat, case["lbda"], case["theta"]) < limit and gen.min_kz(flat, case["theta"]) > 1e-3


def well_conditioned(case):
    s = case["s"]
    for lb in case["lbda"]:
        n0 = np.sqrt(gen.ref_tensor(s["front"], lb)[0, 0, 0]).real
        lay = [(gen.ref_tensor(x["mat"], lb)[0], x["d"]) for x in s["layers"]]
        back = gen.ref_tensor(s["back"], lb)[0]
        _, _, cond, gap = refoptics.anisotropic(n0, lay, back, lb, case["theta"], s["back"]["m"] != "aniso")
        if gap < 1e-3 or cond > 1e7:
            return False
    return True


def anisotropic(case):
    s = case["s"]
    return spread(s["back"]) > 1e-2 or any(spread(x["mat"]) > 1e-2 and x["d"] > 1 for x in s["layers"])


iso = gen.iso(st.one_of(gen.n_transparent(), gen.n_absorbing(1.0)))
an = gen.aniso()
mixed = st.tuples(an, an, fl(0, 1)).map(lambda t: {"m": "mix", "host": t[0], "guest": t[1], "f": t[2]})
plain = st.fixed_dictionaries({"k": st.just("plain"), "mat": st.one_of(an, an, iso, mixed), "d": gen.thickness(400.0)})
twist = st.fixed_dictionaries(
    {"k": st.just("twist"), "mat": an, "d": fl(1, 600), "div": st.integers(1, 8), "angle": gen.angles(-270, 270)}
)
vary = st.fixed_dictionaries({"k": st.just("vary"), "mat": mixed, "d": fl(1, 400), "div": st.integers(1, 6)})


def cases(lay, back, theta=gen.theta(0, 85), min_layers=0, **kw):
    return st.fixed_dictionaries(
        {
            "s": st.fixed_dictionaries(
                {"front": gen.iso(gen.n_transparent(1.0, 2.0)), "layers": st.lists(lay, min_size=min_layers, max_size=3), "back": back}
            ),
            "lbda": gen.wavelengths(1, 2),
            "theta": theta,
            "prop": st.sampled_from(["expm", "expm", "eig"]),
            **kw,
        }
    )




def tags(case, t, res=None):
    t.tag(f"back={case['s']['back']['m']}", case["prop"], *[x.get("k") for x in case["s"]["layers"]])
    cross = res is None or max(abs(res.jones_matrix_r[:, 0, 1]).max(), abs(res.jones_matrix_r[:, 1, 0]).max()) > 1e-6
    t.tag("cross-polarising" if res is not None and cross else None)
    t.nontrivial(anisotropic(case) and cross)


SIGN = np.array([[1, -1], [-1, 1]])
anyl = st.one_of(plain, plain, twist, vary)


@P.sub("mirror_at_plane_of_incidence", cases(anyl, st.one_of(iso, an)), 900, 30000, 4)
def mirror(case, t):
    if not domain(case):
        t.tag("outside domain")
        return
    a, b = evaluate(case, I3), evaluate(case, C2Y, mirror=True)
    tags(case, t, a)
    close(b.jones_matrix_r, a.jones_matrix_r * SIGN, 1e-6, 1e-7, "mirrored sample: reflection Jones matrix")
    close(b.R_matrix, a.R_matrix, 1e-6, 1e-7, "mirrored sample: R")
    if case["s"]["back"]["m"] != "aniso":
        sc = max(1, abs(a.jones_matrix_t).max())
        close(b.jones_matrix_t, a.jones_matrix_t * SIGN, 1e-6, 1e-7 * sc, "mirrored sample: transmission Jones matrix")


@P.sub("half_turn_reciprocity", cases(anyl, st.one_of(iso, an)), 900, 30000, 4)
def half_turn(case, t):
    if not domain(case):
        t.tag("outside domain")
        return
    a, b = evaluate(case, I3), evaluate(case, C2Z)
    tags(case, t, a)
    close(b.jones_matrix_r, a.jones_matrix_r.transpose(0, 2, 1) * SIGN, 1e-6, 1e-7, "sample turned by 180 degrees: reflection Jones matrix")


@P.sub("opposite_side", cases(anyl, st.one_of(iso, an), gen.theta(1, 85)), 500, 20000, 2)
def opposite_side(case, t):
    """Light from the other side of the normal (negative angle) is light on the sample turned by 180 degrees."""
    if not domain(case):
        t.tag("outside domain")
        return
    a, b = evaluate(case, I3, theta=-case["theta"]), evaluate(case, C2Z)
    tags(case, t, a)
    close(a.jones_matrix_r, b.jones_matrix_r, 1e-6, 1e-7, "negative angle of incidence: reflection Jones matrix")
    close(a.R_matrix, b.R_matrix, 1e-6, 1e-7, "negative angle of incidence: R")
    if case["s"]["back"]["m"] != "aniso":
        sc = max(1, abs(a.jones_matrix_t).max())
        close(a.jones_matrix_t, b.jones_matrix_t, 1e-6, 1e-7 * sc, "negative angle of incidence: transmission Jones matrix")
        close(a.T_matrix, b.T_matrix, 1e-6, 1e-7 * sc**2, "negative angle of incidence: T")


hyper = st.fixed_dictionaries({"k": st.just("plain"), "mat": st.one_of(gen.hyperbolic(), gen.hyperbolic(), an), "d": gen.thickness(200.0)})


@P.sub("hyperbolic_media", cases(hyper, st.one_of(iso, gen.hyperbolic()), gen.either_side(gen.theta(0, 85)), min_layers=1), 500, 20000, 2)
def hyperbolic_media(case, t):
    """Mirror law and reciprocity for indefinite tensors."""
    if not domain(case) or not well_conditioned(case):
        t.tag("outside domain")
        return
    a, b, c = evaluate(case, I3), evaluate(case, C2Y, mirror=True), evaluate(case, C2Z)
    tags(case, t, a)
    close(b.jones_matrix_r, a.jones_matrix_r * SIGN, 1e-6, 1e-6, "mirrored sample: reflection Jones matrix")
    close(c.jones_matrix_r, a.jones_matrix_r.transpose(0, 2, 1) * SIGN, 1e-6, 1e-6, "sample turned by 180 degrees: reflection Jones matrix")
    if case["s"]["back"]["m"] != "aniso":
        sc = max(1, abs(a.jones_matrix_t).max())
        close(b.jones_matrix_t, a.jones_matrix_t * SIGN, 1e-6, 1e-6 * sc, "mirrored sample: transmission Jones matrix")


@P.sub(
    "upside_down_reciprocity",
    cases(st.one_of(plain, plain, twist), gen.iso(gen.n_transparent(1.0, 2.5)), min_layers=1),
    700,
    20000,
    2,
)
def upside_down(case, t):
    """Reversed beam through the turned-over sample: transposed power transmittance."""
    s = case["s"]
    n1, n2 = s["front"]["n"][0], s["back"]["n"][0]
    sin2 = n1 * np.sin(np.deg2rad(case["theta"])) / n2
    if not domain(case) or sin2 > 0.98:
        t.tag("outside domain or total reflection")
        return
    a = evaluate(case, I3)
    tags(case, t)
    # a twist of +phi over the depth becomes: start orientation at the far side, same handedness
    rev = []
    for x in reversed(s["layers"]):
        if x["k"] == "twist":
            m = material(x["mat"], C2Y @ rz(x["angle"]))
            rev.append(elli.TwistedLayer(m, x["d"], x["div"], x["angle"]))
        else:
            rev.append(elli.Layer(material(x["mat"], C2Y), x["d"]))
    b = elli.Structure(gen.material(s["back"]), rev, gen.material(s["front"])).evaluate(
        np.array(case["lbda"], float), np.rad2deg(np.arcsin(sin2)), solver=elli.Solver4x4
    )
    close(b.T_matrix, a.T_matrix.transpose(0, 2, 1), 1e-6, 1e-7, "sample upside down, reversed beam: T")
    # transmission Jones matrix up to the ratio of the two kz
    f = n2 * np.sqrt(1 - sin2**2) / (n1 * np.cos(np.deg2rad(case["theta"])))
    sc = max(1, abs(b.jones_matrix_t).max())
    close(b.jones_matrix_t, a.jones_matrix_t.transpose(0, 2, 1) * SIGN * f, 1e-6, 1e-7 * sc, "sample upside down, reversed beam: Jones matrix")


@P.sub("rotation_at_normal_incidence", cases(anyl, st.one_of(iso, an), st.just(0.0), phi=gen.angles()), 900, 30000, 4)
def normal(case, t):
    if not domain(case):
        t.tag("outside domain")
        return
    a, b = evaluate(case, I3), evaluate(case, rz(case["phi"]))
    tags(case, t)
    r = rz(case["phi"])[:2, :2]
    d = np.diag([-1.0, 1.0])  # the p direction of the reflected beam is reversed
    close(b.jones_matrix_r, d @ r @ d @ a.jones_matrix_r @ r.T, 1e-6, 1e-7, "rotated at normal incidence: reflection")
    if case["s"]["back"]["m"] != "aniso":
        sc = max(1, abs(a.jones_matrix_t).max())
        close(b.jones_matrix_t, r @ a.jones_matrix_t @ r.T, 1e-6, 1e-7 * sc, "rotated at normal incidence: transmission")
        # unpolarised totals do not depend on the azimuth
        close(b.R_matrix.sum(axis=(1, 2)), a.R_matrix.sum(axis=(1, 2)), 1e-6, 1e-7, "rotated at normal incidence: total R")


aligned_rot = st.sampled_from([None, ["euler", 90.0, 0.0, 0.0], ["euler", 0.0, 90.0, 0.0], ["euler", 90.0, 90.0, 90.0], ["euler", 0.0, 0.0, 180.0]])
aligned = st.tuples(gen.aniso(rot=False), aligned_rot).map(lambda t: dict(t[0], rot=t[1]))


@P.sub(
    "aligned_crystals",
    cases(st.fixed_dictionaries({"k": st.just("plain"), "mat": st.one_of(aligned, iso), "d": gen.thickness(400.0)}), st.one_of(iso, aligned)),
    700,
    20000,
    2,
)
def aligned_crystals(case, t):
    if not domain(case):
        t.tag("outside domain")
        return
    a = evaluate(case, I3)
    tags(case, t)
    for q in ("jones_matrix_r", "jones_matrix_t"):
        if q == "jones_matrix_t" and case["s"]["back"]["m"] == "aniso":
            continue
        j = getattr(a, q)
        sc = max(1, abs(j).max())
        close(j[:, [0, 1], [1, 0]], np.zeros((len(j), 2)), 0, 1e-8 * sc, f"principal axes along x, y, z: cross terms of {q}")


uni = st.tuples(gen.aniso(rot=False), st.one_of(st.none(), gen.rotation())).map(
    lambda t: dict(t[0], n=[t[0]["n"][0], t[0]["n"][0], t[0]["n"][2]], rot=t[1])
)


@P.sub(
    "uniaxial_about_own_axis",
    cases(st.fixed_dictionaries({"k": st.just("plain"), "mat": uni, "d": gen.thickness(400.0)}), st.one_of(iso, uni), phi=gen.angles()),
    500,
    15000,
    2,
)
def own_axis(case, t):
    if not domain(case):
        t.tag("outside domain")
        return
    a = evaluate(case, I3)
    tags(case, t)
    s = case["s"]

    def turn(spec):
        mat = gen.material(dict(spec, rot=None))
        if spec["m"] == "aniso":
            r0 = gen.rot_matrix(spec["rot"]) if spec["rot"] else I3
            mat.set_rotation(r0 @ rz(case["phi"]))
        return mat

    b = elli.Structure(
        gen.material(s["front"]), [elli.Layer(turn(x["mat"]), x["d"]) for x in s["layers"]], turn(s["back"])
    ).evaluate(np.array(case["lbda"], float), case["theta"], solver=elli.Solver4x4)
    close(b.jones_matrix_r, a.jones_matrix_r, 1e-6, 1e-7, "uniaxial crystal turned about its own axis: reflection")
    if s["back"]["m"] != "aniso":
        sc = max(1, abs(a.jones_matrix_t).max())
        close(b.jones_matrix_t, a.jones_matrix_t, 1e-6, 1e-7 * sc, "uniaxial crystal turned about its own axis: transmission")


@P.sub("isotropic_limit", cases(st.fixed_dictionaries({"k": st.just("plain"), "mat": st.tuples(gen.n_any(1.0), gen.rotation()).map(lambda t: {"m": "aniso", "n": [t[0]] * 3, "rot": t[1]}), "d": gen.thickness(400.0)}), iso), 300, 8000)
def isotropic_limit(case, t):
    """A tensor material with three equal indices is the isotropic material, however turned."""
    if not domain(case):
        t.tag("outside domain")
        return
    s = case["s"]
    t.nontrivial(any(x["d"] > 1 for x in s["layers"]))
    a = evaluate(case, I3)
    flat = dict(s, layers=[{"mat": {"m": "n", "n": x["mat"]["n"][0]}, "d": x["d"]} for x in s["layers"]])
    b = gen.structure(flat).evaluate(np.array(case["lbda"], float), case["theta"], solver=elli.Solver2x2)
    close(a.jones_matrix_r, b.jones_matrix_r, 1e-6, 1e-7, "equal indices: reflection")
    sc = max(1, abs(b.jones_matrix_t).max())
    close(a.jones_matrix_t, b.jones_matrix_t, 1e-6, 1e-7 * sc, "equal indices: transmission")
