"""C21 - material tensors: axes, rotations, setters, rotation helpers."""
from vlib.core import Property, close, require
from vlib import gen, rich
from vlib.gen import angles, elli, fl, mix, st
import numpy as np

P = Property(
    "C21",
    rule="a case is non-trivial if the material has at least two different axes and a rotation (tensors), the rotation "
    "angle is not a multiple of 360 degrees (helpers), or at least one setter is called (histories)",
    assumptions=[
        "rotation axes are unit vectors for rotation_v_theta, arbitrary vectors for rotation_v",
        "wavelengths lie inside tabulated ranges",
    ],
)

mats = rich.single(rot=True)


@P.sub("tensor", st.fixed_dictionaries({"mat": mats, "lbda": rich.wavelengths(), "scalar": st.booleans()}), 1600, 30000, 4)
def tensor(case, t):
    spec, lb = case["mat"], case["lbda"]
    if rich.singular(spec, lb):
        t.tag("singular")
        return
    t.tag(spec["m"], "rotated" if spec.get("rot") else "plain", "scalar" if case["scalar"] else "array")
    m = rich.build(spec)
    q = lb[0] if case["scalar"] else np.array(lb)
    got = m.get_tensor(q)
    exp = rich.ref_tensor(spec, q)
    n = 1 if case["scalar"] else len(lb)
    require(np.shape(got) == (n, 3, 3), f"tensor has shape {np.shape(got)}")
    sc = np.max(abs(exp)) + 1e-300
    close(got, exp, 1e-7, 1e-9 * sc, "tensor against R diag R^T")
    close(got, np.swapaxes(got, 1, 2), 0, 1e-11 * sc, "symmetry")
    plain = rich.ref_tensor({k: v for k, v in spec.items() if k != "rot"}, q)
    d = np.array([np.diag(x) for x in plain])
    t.nontrivial(spec["m"] != "d" and bool(spec.get("rot")) and np.ptp(abs(d), axis=1).max() > 1e-6)
    close(np.trace(got, axis1=1, axis2=2), d.sum(axis=1), 1e-7, 1e-9 * sc, "trace")
    tr2 = np.trace(got @ got, axis1=1, axis2=2)
    close(tr2, (d**2).sum(axis=1), 1e-7, 1e-9 * sc**2, "trace of the square")
    close(np.linalg.det(got), d.prod(axis=1), 1e-6, 1e-9 * sc**3, "determinant")
    if spec["m"] == "d":
        close(got, d[:, :1, None] * np.eye(3), 1e-7, 1e-9 * sc, "isotropic tensor is a multiple of the unit tensor")
        nn = m.get_refractive_index(q)
        close(np.diagonal(nn, axis1=1, axis2=2) ** 2, d, 1e-7, 1e-9 * sc, "refractive index squared")
        require(np.all(nn[:, 0, 0].real >= 0), "refractive index with a negative real part")


# ------------------------------------------------------------------ setter histories
ops = st.lists(
    st.one_of(
        gen.rotation().map(lambda r: ["rot", r]),
        st.tuples(rich.dispersion, rich.dispersion, rich.dispersion).map(lambda d: ["disp", list(d)]),
        st.just(["read"]),
    ),
    min_size=1,
    max_size=8,
)


@P.sub("history", st.fixed_dictionaries({"mat": mats, "ops": ops, "lbda": rich.wavelengths(1, 2)}), 700, 15000, 4)
def history(case, t):
    spec, lb = dict(case["mat"]), np.array(case["lbda"])
    if rich.singular([spec, case["ops"]], lb):
        return
    m = rich.build(spec)
    other = rich.build(spec)
    before = other.get_tensor(lb)
    t.nontrivial(any(o[0] != "read" for o in case["ops"]))
    for i, o in enumerate(case["ops"]):
        t.tag(o[0])
        if o[0] == "rot":
            m.set_rotation(gen.elli_rotation(o[1]))
            spec["rot"] = o[1]
        elif o[0] == "disp":
            k = {"d": 1, "uni": 2, "bi": 3}[spec["m"]]
            spec["d"] = o[1][0] if k == 1 else o[1][:k]
            m.set_dispersion(*[rich.build_disp(d) for d in o[1][:k]])
        exp = rich.ref_tensor(spec, lb)
        sc = np.max(abs(exp)) + 1e-300
        close(m.get_tensor(lb), exp, 1e-7, 1e-9 * sc, f"tensor after step {i} ({o[0]})")
    close(other.get_tensor(lb), before, 0, 0, "another material of the same kind changed")


@P.sub("shared_dispersion", st.fixed_dictionaries({"d": st.lists(rich.dispersion, min_size=2, max_size=2), "rots": st.lists(gen.rotation(), min_size=2, max_size=2), "lbda": rich.wavelengths(1, 3)}), 400, 8000, 2)
def shared(case, t):
    """Two materials made from the same dispersion objects do not influence each other."""
    lb = np.array(case["lbda"])
    if rich.singular(case["d"], lb):
        return
    d = [rich.build_disp(x) for x in case["d"]]
    u = elli.UniaxialMaterial(*d)
    b = elli.BiaxialMaterial(d[1], d[0], d[1])
    i = elli.IsotropicMaterial(d[0])
    u.set_rotation(gen.elli_rotation(case["rots"][0]))
    b.set_rotation(gen.elli_rotation(case["rots"][1]))
    t.nontrivial()
    for m, s in ((u, {"m": "uni", "d": case["d"], "rot": case["rots"][0]}), (b, {"m": "bi", "d": [case["d"][1], case["d"][0], case["d"][1]], "rot": case["rots"][1]}), (i, {"m": "d", "d": case["d"][0]})):
        exp = rich.ref_tensor(s, lb)
        close(m.get_tensor(lb), exp, 1e-7, 1e-9 * np.max(abs(exp)), f"{s['m']} material")
        close(m.get_tensor(lb), m.get_tensor(lb), 0, 0, "second read")


# ------------------------------------------------------------------ rotation helpers
def proper(r, what):
    close(r @ r.T, np.eye(3), 0, 1e-12, f"{what}: orthogonal")
    close(np.linalg.det(r), 1.0, 0, 1e-12, f"{what}: determinant")


@P.sub("euler", st.tuples(angles(), angles(), angles()).map(list), 1500, 30000, 2)
def euler(case, t):
    p, n, r = case
    m = elli.rotation_euler(p, n, r)
    t.nontrivial(any(a % 360 for a in case))
    proper(m, "rotation_euler")
    close(m, gen.rot_matrix(["euler", *case]), 0, 1e-12, "rotation_euler against Rz(p) Rx(n) Rz(r)")
    close(elli.rotation_euler(-r, -n, -p), m.T, 0, 1e-12, "inverse Euler angles")
    z, x = [0, 0, 1], [1, 0, 0]
    # intrinsic z, x', z'': the second rotation is about the x axis turned by the first one, and so on
    r1 = elli.rotation_v_theta(z, p)
    r2 = elli.rotation_v_theta(r1 @ np.array(x, float), n) @ r1
    r3 = elli.rotation_v_theta(r2 @ np.array(z, float), r) @ r2
    close(m, r3, 0, 1e-11, "rotation_euler as successive rotations about z, x', z'")
    close(elli.rotation_euler(p + 360, n - 360, r + 720), m, 0, 1e-11, "full turns")


unit = st.tuples(fl(-1, 1), fl(-1, 1), fl(-1, 1)).filter(lambda v: sum(x * x for x in v) > 0.05)
unit = mix([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.0, -1.0, 0.0]], unit.map(list))


@P.sub("axis_angle", st.fixed_dictionaries({"v": unit, "a": angles(), "b": angles(), "w": st.tuples(fl(-5, 5), fl(-5, 5), fl(-5, 5)).map(list), "c": st.sampled_from(["list", "array", "tuple"])}), 1500, 30000, 2)
def axis_angle(case, t):
    v = np.array(case["v"])
    v = v / np.linalg.norm(v)
    cont = {"list": lambda x: [float(y) for y in x], "array": np.array, "tuple": lambda x: tuple(float(y) for y in x)}[case["c"]]
    a, b = case["a"], case["b"]
    t.tag(case["c"])
    t.nontrivial(a % 360 != 0)
    m = elli.rotation_v_theta(cont(v), a)
    proper(m, "rotation_v_theta")
    close(m, gen.rot_matrix(["vt", *v, a]), 0, 1e-12, "rotation_v_theta against Rodrigues' formula")
    close(elli.rotation_v(cont(v * np.deg2rad(a))), m, 0, 1e-11, "rotation_v of the rotation vector")
    close(elli.rotation_v_theta(cont(v), -a), m.T, 0, 1e-12, "inverse (v, -theta)")
    close(elli.rotation_v(cont(-v * np.deg2rad(a))), m.T, 0, 1e-11, "inverse -v")
    close(elli.rotation_v_theta(cont(-v), a), m.T, 0, 1e-12, "opposite axis")
    close(m @ elli.rotation_v_theta(cont(v), b), elli.rotation_v_theta(cont(v), a + b), 0, 1e-11, "angles about one axis add")
    close(m @ v, v, 0, 1e-12, "the axis is unchanged")
    w = np.array(case["w"])
    rw = elli.rotation_v(cont(w))
    proper(rw, "rotation_v")
    close(rw, gen.rot_matrix(["v", *w]), 0, 1e-10, "rotation_v against Rodrigues' formula")
    close(elli.rotation_v(cont(-w)), rw.T, 0, 1e-10, "inverse -v")
    # right-handed: a vector perpendicular to the axis turns towards axis x vector
    u = np.cross(v, [1, 0, 0] if abs(v[0]) < 0.9 else [0, 1, 0])
    u = u / np.linalg.norm(u)
    turned = m @ u
    close(turned @ u, np.cos(np.deg2rad(a)), 0, 1e-11, "turned by the angle")
    close(turned @ np.cross(v, u), np.sin(np.deg2rad(a)), 0, 1e-11, "turned right-handedly")


@P.sub("composition", st.fixed_dictionaries({"mat": rich.single(rot=False), "r": gen.rotation(), "s": gen.rotation(), "lbda": rich.wavelengths(1, 2)}), 500, 10000, 2)
def composition(case, t):
    """Rotating by R then undoing it is no rotation; eigenvectors are turned by R."""
    lb = np.array(case["lbda"])
    if rich.singular(case["mat"], lb):
        return
    m = rich.build(case["mat"])
    plain = m.get_tensor(lb)
    r, s = gen.elli_rotation(case["r"]), gen.elli_rotation(case["s"])
    sc = np.max(abs(plain))
    t.tag(case["mat"]["m"])
    t.nontrivial(case["mat"]["m"] != "d")
    m.set_rotation(r)
    e = m.get_tensor(lb)
    for k in range(3):
        close(e @ r[:, k], plain[:, k, k, None] * r[:, k], 1e-9, 1e-10 * sc, f"axis {k} of the material turned by R")
    m.set_rotation(s @ r)
    close(m.get_tensor(lb), s @ e @ s.T, 1e-9, 1e-10 * sc, "rotation by S R")
    m.set_rotation(r.T @ r)
    close(m.get_tensor(lb), plain, 1e-9, 1e-10 * sc, "rotation undone")
