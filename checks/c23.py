"""C23 - expansion of layer stacks into permittivity profiles."""
from vlib.core import Property, close, require
from vlib import gen, rich
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C23",
    rule="a case is non-trivial if the structure has a repeated block with more than one repetition or extra layers, a graded "
    "layer of at least two slices, or at least three layers of different thickness",
    assumptions=[
        "the numbers of extra layers before and after a repeated block do not exceed the number of its layers",
        "the fraction modulation returns values between 0 and 1 for relative depths between 0 and 1",
    ],
)


def same_profile(got, exp, what):
    require(len(got) == len(exp), f"{what}: {len(got)} entries, expected {len(exp)}")
    for i, ((d, e), (dr, er)) in enumerate(zip(got, exp)):
        if np.isinf(dr):
            require(np.isinf(d) and d > 0, f"{what}: entry {i} has thickness {d}, not infinity")
        else:
            close(d, dr, 1e-12, 1e-12, f"{what}: thickness of entry {i}")
        require(np.shape(e) == np.shape(er), f"{what}: tensor {i} has shape {np.shape(e)}")
        close(e, er, 1e-6, 1e-8 * max(np.max(abs(er)), 1e-300), f"{what}: tensor of entry {i}")


def interesting(la):
    if la["l"] == "rep":
        return la["rep"] > 1 or la["before"] + la["after"] > 0 or any(interesting(x) for x in la["of"])
    return la["l"] in ("twist", "vary") and la["div"] > 1


def total(la):
    if la["l"] != "rep":
        return la["d"]
    n = [total(x) for x in la["of"]]
    return sum(n) * la["rep"] + sum(n[len(n) - la["before"] :]) + sum(n[: la["after"]])


@P.sub("structure", st.fixed_dictionaries({"s": rich.shared(rich.structure(4, 2)), "lbda": rich.wavelengths(1, 3), "scalar": st.booleans()}), 1600, 30000, 8)
def structure(case, t):
    spec, lb = case["s"], case["lbda"]
    if rich.singular(spec, lb) or sum(rich.count(x) for x in spec["layers"]) > 200:
        return
    q = lb[0] if case["scalar"] else np.array(lb)
    s = rich.build_structure(spec)
    for la in spec["layers"]:
        t.tag(la["l"])
    t.tag(f"{len(spec['layers'])} layers", "scalar" if case["scalar"] else "array")
    t.nontrivial(any(interesting(x) for x in spec["layers"]) or len({x.get("d") for x in spec["layers"]}) > 2)
    exp = [(np.inf, rich.ref_tensor(spec["front"], q))]
    for la in spec["layers"]:
        exp += rich.ref_profile(la, q)
    exp.append((np.inf, rich.ref_tensor(spec["back"], q)))
    if not all(np.all(np.isfinite(e)) for _, e in exp):
        return
    got = s.get_permittivity_profile(q)
    same_profile(got, exp, "profile")
    require(len(got) == 2 + sum(rich.count(x) for x in spec["layers"]), "number of slices")
    close(sum(d for d, _ in got[1:-1]), sum(total(x) for x in spec["layers"]), 1e-9, 1e-9, "total thickness")
    # each layer by itself
    for la, obj in zip(spec["layers"], s.layers):
        same_profile(obj.get_permittivity_profile(q), rich.ref_profile(la, q), f"profile of a {la['l']} layer")
    same_profile(s.get_permittivity_profile(q), exp, "profile on the second read")


# ------------------------------------------------------------- depth order and numbers
tags = st.lists(fl(1.0, 4.0, 3), min_size=1, max_size=5)


@P.sub(
    "repetition",
    st.fixed_dictionaries({"d": st.lists(fl(0.0, 100.0, 3), min_size=1, max_size=6, unique=True), "rep": st.integers(1, 12), "before": st.integers(0, 6), "after": st.integers(0, 6), "how": st.sampled_from(["init", "set"]), "outer": st.integers(1, 3)}),
    1500,
    30000,
    2,
)
def repetition(case, t):
    """Distinct thicknesses identify the layers: the expansion is last `before`, rep times all, first `after`."""
    d = case["d"]
    b, a = min(case["before"], len(d)), min(case["after"], len(d))
    mat = elli.ConstantRefractiveIndex(n=1.5).get_mat()
    layers = [elli.Layer(mat, x) for x in d]
    if case["how"] == "init":
        r = elli.RepeatedLayers(layers, case["rep"], b, a)
    else:
        r = elli.RepeatedLayers(layers[:1], 2, 0, 1)
        r.get_permittivity_profile(500)
        r.set_layers(layers)
        r.set_repetitions(case["rep"], b, a)
    t.tag(case["how"], f"before {b}", f"after {a}")
    t.nontrivial(case["rep"] > 1 or a + b > 0)
    exp = (d[-b:] if b else []) + d * case["rep"] + d[:a]
    got = [x for x, _ in r.get_permittivity_profile(500)]
    require(got == exp, f"repeated block expands to {got}, expected {exp}")
    outer = elli.RepeatedLayers([r], case["outer"])
    got = [x for x, _ in outer.get_permittivity_profile(500)]
    require(got == exp * case["outer"], f"nested repeated block expands to {got}")
    s = elli.Structure(mat, [r, elli.Layer(mat, 777.0), r], mat)
    got = [x for x, _ in s.get_permittivity_profile(np.array([400.0, 500.0]))]
    require(got == [np.inf, *exp, 777.0, *exp, np.inf], f"structure expands to {got}")
    require([x.thickness for x in r.layers] == d, "the layer list of the block changed")
    if case["how"] == "init":
        r2 = elli.RepeatedLayers(layers, case["rep"])
        require([x for x, _ in r2.get_permittivity_profile(500)] == d * case["rep"], "block without extras")


# -------------------------------------------------------------------- graded layers
@P.sub(
    "slices",
    st.fixed_dictionaries(
        {"kind": st.sampled_from(["twist", "vary"]), "d": mix([0.0, 1.0, 100.0], fl(0, 1e5, 4)), "div": st.integers(1, 60), "angle": gen.angles(-2000, 2000), "prof": st.sampled_from(sorted(rich.PROFILES)),
         "iso": rich.iso(), "single": rich.single(), "mix": rich.mixture(), "lbda": rich.wavelengths(1, 2), "how": st.sampled_from(["init", "set"])}
    ),
    1200,
    25000,
    4,
)
def slices(case, t):
    lb = np.array(case["lbda"])
    k = case["kind"]
    spec = {"l": k, "d": case["d"], "div": case["div"]}
    spec["mat"] = case["single"] if k == "twist" else case["mix"]
    spec.update({"angle": case["angle"]} if k == "twist" else {"prof": case["prof"]})
    if rich.singular(spec, lb):
        return
    n, d = case["div"], case["d"]
    t.tag(k, case["how"], case["prof"] if k == "vary" else None, "zero" if d == 0 else None)
    t.nontrivial(n > 1)
    seen = []
    mat = rich.build(spec["mat"])
    f = (lambda x: x) if spec.get("prof", "default") == "default" else rich.PROFILES[spec["prof"]]

    def watched(x):
        seen.append(float(x))
        return f(x)

    init = case["how"] == "init"
    if k == "twist":
        la = elli.TwistedLayer(mat, d, n, case["angle"]) if init else elli.TwistedLayer(rich.build(case["iso"]), 5.0, 3, 10.0)
        if not init:
            la.get_permittivity_profile(lb)
            la.set_angle(case["angle"])
    else:
        other = rich.build(dict(case["mix"], f=0.5))
        la = elli.VaryingMixtureLayer(mat, d, n, watched) if init else elli.VaryingMixtureLayer(other, 5.0, 3)
        if not init:
            la.get_permittivity_profile(lb)
            la.set_fraction_modulation(watched)
    if not init:
        la.set_divisions(n)
        la.set_thickness(d)
        la.set_material(mat)
    got = la.get_permittivity_profile(lb)
    if d > 0:
        exp = rich.ref_profile(spec, lb)
        if not all(np.all(np.isfinite(e)) for _, e in exp):
            return
        require(len(got) == n, f"{len(got)} slices, expected {n}")
        for i, ((x, e), (_, er)) in enumerate(zip(got, exp)):
            close(x, d / n, 1e-9, 1e-12, f"thickness of slice {i}")
            close(e, er, 1e-6, 1e-8 * np.max(abs(er)), f"tensor of slice {i}")
        if k == "vary":
            close(sorted(seen), [(i + 0.5) / n for i in range(n)], 1e-9, 1e-12, "relative depths given to the modulation")
    else:
        require(all(x == 0 for x, _ in got) and len(got) == n, "slices of a layer without thickness")
        require(all(np.all(np.isfinite(e)) for _, e in got), "tensor of a layer without thickness")
    z = la.get_slices()
    close(z, np.linspace(0, d, n + 1), 1e-12, 1e-12, "slice positions")
    close(sum(x for x, _ in got), d, 1e-9, 1e-12, "sum of the slices")
    if k == "twist" and d > 0:
        # same eigenvalues everywhere; z axis kept: twisting is about the normal
        e0 = rich.ref_tensor(spec["mat"], lb)
        for x, e in got:
            close(e[:, 2, 2], e0[:, 2, 2], 1e-7, 1e-9 * np.max(abs(e0)), "zz element of a twisted slice")
            close(np.trace(e, axis1=1, axis2=2), np.trace(e0, axis1=1, axis2=2), 1e-7, 1e-9 * np.max(abs(e0)), "trace of a twisted slice")


@P.sub("point", st.fixed_dictionaries({"single": rich.single(), "mix": rich.mixture(), "d": fl(1, 1000), "z": fl(0.0, 1.0), "angle": gen.angles(-2000, 2000), "prof": st.sampled_from(sorted(rich.PROFILES)), "lbda": rich.wavelengths(1, 2)}), 700, 15000, 2)
def point(case, t):
    """get_tensor at any depth, including the two faces."""
    lb = np.array(case["lbda"])
    if rich.singular([case["single"], case["mix"]], lb):
        return
    z = case["z"] * case["d"]
    t.nontrivial(0 < case["z"] < 1)
    m = rich.build(case["single"])
    tw = elli.TwistedLayer(m, case["d"], 5, case["angle"])
    r = gen.rot_matrix(["vt", 0, 0, 1, case["angle"] * case["z"]])
    e0 = rich.ref_tensor(case["single"], lb)
    close(tw.get_tensor(z, lb), r @ e0 @ r.T, 1e-6, 1e-8 * np.max(abs(e0)), "twisted tensor")
    f = rich.PROFILES[case["prof"]]
    mm = rich.build(case["mix"])
    va = elli.VaryingMixtureLayer(mm, case["d"], 5, *([] if f is None else [f]))
    if abs(case["z"] - 0.4321987) > 1e-6:
        ref = rich.ref_tensor(case["mix"], lb, case["z"] if f is None else f(case["z"]))
        if np.all(np.isfinite(ref)):
            close(va.get_tensor(z, lb), ref, 1e-6, 1e-8 * np.max(abs(ref)), "tensor of the graded mixture")
    require(mm.fraction == case["mix"]["f"], "the mixture's own fraction changed")
    if np.all(np.isfinite(rich.ref_tensor(case["mix"], lb))):
        close(mm.get_tensor(lb), rich.ref_tensor(case["mix"], lb), 1e-6, 1e-8, "the mixture itself")


@P.sub(
    "long_profiles",
    st.fixed_dictionaries(
        {"d": st.lists(fl(0.0, 100.0, 3), min_size=1, max_size=3, unique=True), "rep": gen.big(13, 400), "before": st.integers(0, 3), "after": st.integers(0, 3), "div": gen.big(61, 600), "depth": fl(1, 1e4, 2),
         "angle": gen.angles(-20000, 20000), "single": rich.single(), "mix": rich.mixture(), "prof": st.sampled_from(sorted(rich.PROFILES)), "seed": st.integers(0, 10**6), "lbda": rich.wavelengths(1, 2), "plain": st.integers(0, 300)}
    ),
    80,
    2500,
    2,
)
def long_profiles(case, t):
    """Hundreds of repetitions, slices and layers."""
    lb = np.array(case["lbda"])
    d, n, div = case["d"], case["rep"], case["div"]
    b, a = min(case["before"], len(d)), min(case["after"], len(d))
    tw = {"l": "twist", "d": case["depth"], "div": div, "angle": case["angle"], "mat": case["single"]}
    va = {"l": "vary", "d": case["depth"], "div": div, "prof": case["prof"], "mat": case["mix"]}
    if rich.singular([case["single"], case["mix"]], lb):
        t.tag("singular")
        return
    mat = elli.ConstantRefractiveIndex(n=1.5).get_mat()
    layers = [elli.Layer(mat, x) for x in d]
    block = (d[-b:] if b else []) + d * n + d[:a]
    many = [round(0.25 * i, 3) for i in range(case["plain"])]
    f = rich.PROFILES[case["prof"]]
    twist = elli.TwistedLayer(rich.build(case["single"]), case["depth"], div, case["angle"])
    vary = elli.VaryingMixtureLayer(rich.build(case["mix"]), case["depth"], div, *([] if f is None else [f]))
    s = elli.Structure(mat, [elli.RepeatedLayers(layers, n, b, a), twist, *[elli.Layer(mat, x) for x in many], vary], mat)
    got = s.get_permittivity_profile(lb)
    exp = [np.inf, *block, *[case["depth"] / div] * div, *many, *[case["depth"] / div] * div, np.inf]
    require(len(got) == len(exp), f"profile of {len(got)} entries, expected {len(exp)}")
    close([x for x, _ in got[1:-1]], exp[1:-1], 1e-9, 1e-12, "thicknesses of a long profile")
    t.tag(f"entries<{1 << (len(exp) - 1).bit_length()}")
    t.nontrivial()
    at = 1 + len(block)
    rt, rv = rich.ref_profile(tw, lb), rich.ref_profile(va, lb)
    if not all(np.all(np.isfinite(e)) for _, e in rt + rv):
        return
    for i in gen.picks(div, case["seed"], 12):
        close(got[at + i][1], rt[i][1], 1e-6, 1e-8 * np.max(abs(rt[i][1])), f"tensor of twisted slice {i} of {div}")
        k = at + div + len(many) + i
        close(got[k][1], rv[i][1], 1e-6, 1e-8 * np.max(abs(rv[i][1])), f"tensor of mixed slice {i} of {div}")
    for k in gen.picks(len(block), case["seed"]):
        close(got[1 + k][1], np.broadcast_to(2.25 * np.eye(3), (len(lb), 3, 3)), 1e-12, 1e-12, "tensor of a repeated layer")
