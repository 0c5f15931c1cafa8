"""Dispersive, tabulated, anisotropic and mixed materials and layer trees (JSON-able).

Material: {"m": "d", "d": dispersion}                            isotropic
          {"m": "uni", "d": [o, e], "rot": rot|null}
          {"m": "bi", "d": [x, y, z], "rot": rot|null}
          {"m": "mix", "kind": "vca"|..., "host": mat, "guest": mat, "f": fraction}
Dispersions additionally: {"k": "table", "lbda": [..], "v": [[re, im]..], "rep": "n"|"eps"}
Layers: {"l": "layer", "mat", "d"} | {"l": "twist", "mat", "d", "div", "angle"}
        | {"l": "vary", "mat": mix, "d", "div", "prof"} | {"l": "rep", "of", "rep", "before", "after"}
"""

from . import boot  # isort: skip

import json

import numpy as np
from hypothesis import strategies as st

from . import disp, gen
from .gen import elli, fl, mix

LO, HI = 240.0, 1800.0
MIX = {
    "vca": elli.VCAMaterial,
    "looyenga": elli.LooyengaEMA,
    "mg": elli.MaxwellGarnettEMA,
    "bruggeman": elli.BruggemanEMA,
}


def table(lo=LO, hi=HI):
    inner = st.lists(fl(lo + 10, hi - 10, 2), min_size=0, max_size=4, unique=True)
    return st.tuples(
        inner,
        st.lists(st.tuples(fl(1.1, 4.0), fl(0.0, 2.0)).map(list), min_size=6, max_size=6),
        st.sampled_from(["n", "eps"]),
    ).map(
        lambda t: {
            "k": "table",
            "lbda": sorted([lo, hi, *t[0]]),
            "v": t[1][: len(t[0]) + 2],
            "rep": t[2],
        }
    )


# Well-behaved passive models over the whole range
_SMOOTH = [
    disp.model(["Cauchy"]).map(lambda s: dict(s, s=[max(1.2, s["s"][0]), abs(s["s"][1]), abs(s["s"][2]), *s["s"][3:]])),
    disp.model(["ConstantRefractiveIndex"]),
    disp.model(["TaucLorentz"], min_rep=1, max_rep=2),
    disp.model(["Gaussian"], max_rep=2).map(lambda s: {"k": "sum", "of": [{"k": "EpsilonInf", "s": [2.5], "r": []}, dict(s, r=[[abs(r[0]), *r[1:]] for r in s["r"]])]}),
    disp.model(["LorentzEnergy"], min_rep=1, max_rep=2).map(lambda s: dict(s, r=[[abs(r[0]), r[1], max(r[2], 0.1)] for r in s["r"]])),
    disp.model(["LorentzLambda"], min_rep=1, max_rep=2).map(lambda s: dict(s, r=[[abs(r[0]), r[1], max(r[2], 20)] for r in s["r"]])),
    table(),
]

FORMULA = "a + sum[b * x ** 2 / (x ** 2 + w ** 2)]"
# nm in the unit of the formula's axis, typical scale of that axis
AXIS = {None: lambda L: L, "nm": lambda L: L, "um": lambda L: L / 1e3, "eV": lambda L: disp.HC_NM / L, "cm": lambda L: L * 1e-7}
SCALE = {None: 500.0, "nm": 500.0, "um": 0.5, "eV": 2.5, "cm": 5e-5}


def formula():
    """A formula with repeated parameters, in several units of its axis."""
    term = st.tuples(fl(0.0, 3.0), fl(0.1, 4.0))
    return st.tuples(st.sampled_from(["n", "eps"]), st.sampled_from(list(AXIS)), fl(1.3, 4.0), st.lists(term, min_size=1, max_size=3)).map(
        lambda t: {"k": "formula", "rep": t[0], "unit": t[1], "s": [t[2]], "r": [[b, float(f"{c * SCALE[t[1]]:.4g}")] for b, c in t[3]]}
    )


def conv():
    """A permittivity model converted to an index model."""
    eps = st.one_of(
        disp.model(["TaucLorentz"], min_rep=1, max_rep=2),
        disp.model(["LorentzEnergy"], min_rep=1, max_rep=2).map(lambda s: dict(s, r=[[abs(r[0]), r[1], max(r[2], 0.1)] for r in s["r"]])),
        table().filter(lambda s: s["rep"] == "eps"),
        formula().filter(lambda s: s["rep"] == "eps"),
    )
    return eps.map(lambda s: {"k": "conv", "of": s})


_SMOOTH += [formula(), conv()]
dispersion = st.one_of(*_SMOOTH)


def build_disp(spec):
    if spec["k"] == "table":
        v = [complex(*x) for x in spec["v"]]
        if spec["rep"] == "n":
            return elli.Table(spec["lbda"], v)
        return elli.TableEpsilon(spec["lbda"], v)
    if spec["k"] == "sum":
        out = build_disp(spec["of"][0])
        for x in spec["of"][1:]:
            out = out + build_disp(x)
        return out
    if spec["k"] == "conv":
        return build_disp(spec["of"]).as_index()
    if spec["k"] == "formula":
        cls = elli.FormulaIndex if spec["rep"] == "n" else elli.Formula
        rep = {"b": [r[0] for r in spec["r"]], "w": [r[1] for r in spec["r"]]}
        return cls(f"{spec['rep']} = {FORMULA}", "x", {"a": spec["s"][0]}, rep, *([spec["unit"]] if spec["unit"] else []))
    return disp.build(spec)


def single(rot=True):
    r = st.one_of(st.none(), gen.rotation()) if rot else st.none()
    return st.one_of(
        dispersion.map(lambda d: {"m": "d", "d": d}),
        dispersion.map(lambda d: {"m": "d", "d": d}),
        st.tuples(dispersion, dispersion, r).map(lambda t: {"m": "uni", "d": [t[0], t[1]], "rot": t[2]}),
        st.tuples(dispersion, dispersion, dispersion, r).map(lambda t: {"m": "bi", "d": list(t[:3]), "rot": t[3]}),
    )


def iso():
    return dispersion.map(lambda d: {"m": "d", "d": d})


fraction = mix([0.0, 1.0, 0.5], fl(0.0, 1.0))


def mixture(kinds=tuple(MIX), constituents=None):
    c = constituents if constituents is not None else iso()
    return st.tuples(st.sampled_from(kinds), c, c, fraction).map(
        lambda t: {"m": "mix", "kind": t[0], "host": t[1], "guest": t[2], "f": t[3]}
    )


def material(rot=True):
    return st.one_of(
        single(rot),
        single(rot),
        mixture(),
        mixture(["vca"], single(rot)),
        mixture(constituents=mixture()),
    )


def iso_material():
    return st.one_of(iso(), iso(), mixture())


MEMO = None  # of the structure being built, if it shares objects


def build(spec, reg=None):
    """reg: optional list collecting (spec path, object) of every created object."""
    if MEMO is not None:
        key = "m" + json.dumps(spec, sort_keys=True)
        if key not in MEMO:
            MEMO[key] = _build(spec, reg)
        return MEMO[key]
    return _build(spec, reg)


def _build(spec, reg):
    m = spec["m"]
    if m == "d":
        ds = [build_disp(spec["d"])]
        out = ds[0].get_mat()
    elif m == "uni":
        ds = [build_disp(d) for d in spec["d"]]
        out = elli.UniaxialMaterial(*ds)
    elif m == "bi":
        ds = [build_disp(d) for d in spec["d"]]
        out = elli.BiaxialMaterial(*ds)
    else:
        ds = []
        out = MIX[spec["kind"]](build(spec["host"], reg), build(spec["guest"], reg), spec["f"])
    if spec.get("rot"):
        out.set_rotation(gen.elli_rotation(spec["rot"]))
    if reg is not None:
        reg.extend(ds)
        reg.append(out)
    return out


PROFILES = {
    "default": None,
    "linear": lambda x: x,
    "reverse": lambda x: 1 - x,
    "square": lambda x: x * x,
    "const": lambda x: 0.3,
    "step": lambda x: 1.0 if x > 0.4321987 else 0.0,
    "sin": lambda x: float(np.sin(np.pi * x) ** 2),
}


def leaf(mat=None, dmax=300.0):
    return st.tuples(mat if mat is not None else material(), gen.thickness(dmax)).map(
        lambda t: {"l": "layer", "mat": t[0], "d": t[1]}
    )


def graded(dmax=300.0):
    return st.one_of(
        st.tuples(single(), fl(1, dmax), st.integers(1, 6), gen.angles(-1000, 1000)).map(
            lambda t: {"l": "twist", "mat": t[0], "d": t[1], "div": t[2], "angle": t[3]}
        ),
        st.tuples(
            st.one_of(mixture(), mixture(["vca"], single())), fl(1, dmax), st.integers(1, 6), st.sampled_from(list(PROFILES))
        ).map(lambda t: {"l": "vary", "mat": t[0], "d": t[1], "div": t[2], "prof": t[3]}),
    )


def layer(depth=2, dmax=200.0, mat=None, with_graded=True):
    base = [leaf(mat, dmax), leaf(mat, dmax)] + ([graded(dmax)] if with_graded else [])
    if depth == 0:
        return st.one_of(*base)
    plain = st.fixed_dictionaries(
        {
            "l": st.just("rep"),
            "of": st.lists(leaf(mat, dmax), min_size=1, max_size=3),
            "rep": st.integers(1, 3),
            "before": st.integers(0, 3),
            "after": st.integers(0, 3),
        }
    ).map(lambda n: dict(n, before=min(n["before"], len(n["of"])), after=min(n["after"], len(n["of"]))))
    nested = st.fixed_dictionaries(
        {
            "l": st.just("rep"),
            "of": st.lists(layer(depth - 1, dmax, mat, with_graded), min_size=1, max_size=2),
            "rep": st.integers(1, 3),
            "before": st.integers(0, 2),
            "after": st.integers(0, 2),
        }
    ).map(lambda n: dict(n, before=min(n["before"], len(n["of"])), after=min(n["after"], len(n["of"]))))
    return st.one_of(*base, plain, nested)


def build_layer(spec, reg=None):
    if MEMO is not None and "layers" in MEMO:
        key = "l" + json.dumps(spec, sort_keys=True)
        if key not in MEMO:
            MEMO[key] = _build_layer(spec, reg)
        return MEMO[key]
    return _build_layer(spec, reg)


def _build_layer(spec, reg):
    k = spec["l"]
    if k == "layer":
        out = elli.Layer(build(spec["mat"], reg), spec["d"])
    elif k == "twist":
        out = elli.TwistedLayer(build(spec["mat"], reg), spec["d"], spec["div"], spec["angle"])
    elif k == "vary":
        f = PROFILES[spec["prof"]]
        args = (build(spec["mat"], reg), spec["d"], spec["div"])
        out = elli.VaryingMixtureLayer(*args) if f is None else elli.VaryingMixtureLayer(*args, f)
    else:
        of = [build_layer(x, reg) for x in spec["of"]]
        out = elli.RepeatedLayers(of, spec["rep"], spec["before"], spec["after"])
    if reg is not None:
        reg.append(out)
    return out


def count(spec):
    k = spec["l"]
    if k == "layer":
        return 1
    if k in ("twist", "vary"):
        return spec["div"]
    n = [count(x) for x in spec["of"]]
    return sum(n) * spec["rep"] + sum(n[len(n) - spec["before"] :]) + sum(n[: spec["after"]])


front = st.one_of(
    fl(1.0, 1.8).map(lambda n: {"m": "d", "d": {"k": "ConstantRefractiveIndex", "s": [n], "r": []}}),
    st.tuples(fl(1.2, 1.6), fl(0, 50)).map(
        lambda t: {"m": "d", "d": {"k": "Cauchy", "s": [t[0], t[1], 0, 0, 0, 0], "r": []}}
    ),
)


def structure(max_layers=3, depth=1, back=None, mat=None, with_graded=True, dmax=200.0):
    return st.fixed_dictionaries(
        {
            "front": front,
            "layers": st.lists(layer(depth, dmax, mat, with_graded), max_size=max_layers),
            "back": back if back is not None else material(),
        }
    )


def build_structure(spec, reg=None):
    """With spec["share"], equal materials are one object (2: equal layers are one object, too)."""
    global MEMO
    MEMO = {0: None, 1: {}, 2: {"layers": True}}[spec.get("share", 0)]
    try:
        s = elli.Structure(
            build(spec["front"], reg), [build_layer(x, reg) for x in spec["layers"]], build(spec["back"], reg)
        )
    finally:
        MEMO = None
    if reg is not None:
        reg.append(s)
    return s


def shared(base, same_back=True):
    """Structures that use some of their materials and layers more than once, as one object."""

    def make(s, picks):
        seen, seen_layers, it = [], [], iter(picks * 20)

        def walk(la):
            p = next(it)
            if seen_layers and p % 5 == 0:
                return seen_layers[(p // 5) % len(seen_layers)]
            if la["l"] == "rep":
                out = dict(la, of=[walk(x) for x in la["of"]])
            else:
                out = dict(la)
                fit = [m for m in seen if (la["l"] == "layer" or (m["m"] == "mix") == (la["l"] == "vary"))]
                if fit and p % 5 in (1, 2, 3):
                    out["mat"] = fit[(p // 5) % len(fit)]
                seen.append(out["mat"])
            if out["l"] != "rep":
                seen_layers.append(out)
            return out

        layers = [walk(x) for x in s["layers"]]
        out = dict(s, layers=layers, share=1 + picks[0] % 2)
        if same_back and seen and picks[-1] % 4 == 0:
            out["back"] = seen[picks[-1] % len(seen)]
        return out

    return st.one_of(base, st.builds(make, base, st.lists(st.integers(0, 29), min_size=4, max_size=8)))


@st.composite
def coinciding(draw, max_layers=4, dmax=250.0, isotropic=False):
    """Different media that are equal (or isotropic) at one wavelength of a spectrum only.

    {"s": structure, "lbda": [...]}: anything decided from the tensor at a single wavelength goes wrong elsewhere."""
    l0 = draw(st.sampled_from([400.0, 500.0, 632.8, 800.0]))
    c1 = {"k": "Cauchy", "s": [draw(st.sampled_from([1.5, 1.7, 2.0])), draw(fl(20, 150)), draw(mix([0.0], fl(0, 30))), 0, 0, 0], "r": []}
    n0, n1, n2 = c1["s"][:3]
    same = {"k": "ConstantRefractiveIndex", "s": [n0 + 1e2 * n1 / l0**2 + 1e7 * n2 / l0**4], "r": []}
    knots = sorted({LO, l0, HI})
    tab = {"k": "table", "lbda": knots, "v": [[same["s"][0] if x == l0 else draw(fl(1.3, 2.5)), 0.0] for x in knots], "rep": "n"}
    disps = [c1, same, tab]
    pool = [{"m": "d", "d": d} for d in disps]
    if not isotropic:
        rot = draw(st.one_of(st.none(), gen.rotation()))
        pool += [{"m": "uni", "d": [c1, same], "rot": rot}, {"m": "bi", "d": draw(st.permutations(disps)), "rot": rot}, {"m": "uni", "d": [tab, c1], "rot": rot}]
    pick = st.sampled_from(pool)
    layers = draw(st.lists(st.tuples(pick, gen.thickness(dmax)).map(lambda t: {"l": "layer", "mat": t[0], "d": t[1]}), min_size=1, max_size=max_layers))
    fr = draw(st.sampled_from([{"m": "d", "d": {"k": "ConstantRefractiveIndex", "s": [1.0], "r": []}}, *pool[:2]]))
    back = draw(st.one_of(pick, iso()))
    rest = draw(st.lists(fl(LO + 10, HI - 10, 3), min_size=1, max_size=3))
    lb = [l0, *rest]
    if draw(st.integers(0, 2)) == 0:
        lb = list(draw(st.permutations(lb)))
    return {"s": {"front": fr, "layers": layers, "back": back}, "lbda": lb}


def is_iso(spec):
    """All-isotropic structures can be given to the 2x2 solver."""

    def m(x):
        return x["m"] == "d" or (x["m"] == "mix" and m(x["host"]) and m(x["guest"]))

    def la(x):
        if x["l"] == "rep":
            return all(la(y) for y in x["of"])
        return m(x["mat"])

    return m(spec["front"]) and m(spec["back"]) and all(la(x) for x in spec["layers"])


def wavelengths(min_size=1, max_size=4):
    return gen.wavelengths(min_size, max_size, LO + 5, HI - 5)


# ---------------------------------------------------------- independent tensors
def ref_disp(spec, lbda):
    """Complex permittivity of a dispersion spec."""
    L = np.atleast_1d(np.asarray(lbda, float))
    if spec["k"] == "table":
        v = np.array([complex(*x) for x in spec["v"]])
        y = np.interp(L, spec["lbda"], v.real) + 1j * np.interp(L, spec["lbda"], v.imag)
        return y**2 if spec["rep"] == "n" else y
    if spec["k"] == "conv":
        return ref_disp(spec["of"], L)
    if spec["k"] == "formula":
        x = AXIS[spec["unit"]](L)
        y = spec["s"][0] + sum((b * x**2 / (x**2 + c**2) for b, c in spec["r"]), 0j * x)
        return y**2 if spec["rep"] == "n" else y
    v = disp.reference(spec, L)
    return v**2 if disp.repr_of(spec) == "n" else v


def ref_mixture(kind, h, g, f):
    """Documented mixing formulas applied element by element."""
    if kind == "vca":
        return (1 - f) * h + f * g
    if kind == "looyenga":
        return ((1 - f) * h ** (1 / 3) + f * g ** (1 / 3)) ** 3
    out = np.zeros_like(h)
    nz = (h != 0) | (g != 0)
    a, b = h[nz], g[nz]
    if kind == "mg":
        out[nz] = a * (2 * f * (b - a) + b + 2 * a) / (2 * a + b - f * (b - a))
        return out
    # Bruggeman with guest fraction f: f (g-e)/(g+2e) + (1-f)(h-e)/(h+2e) = 0
    def roots(a, b):
        bb = (3 * f - 1) * b + (2 - 3 * f) * a
        d = np.sqrt(bb**2 + 8 * a * b)
        return (bb + d) / 4, (bb - d) / 4, d

    # the physical root: positive imaginary part, for transparent media the positive root,
    # for lossless metals the limit of vanishing absorption
    e1, e2, d = roots(a, b)
    pick = np.where(
        np.abs(e1.imag - e2.imag) > 1e-12 * np.abs(d), e1.imag > e2.imag, e1.real > e2.real
    )
    lossless = (a.imag == 0) & (b.imag == 0) & ((a.real < 0) | (b.real < 0))
    if np.any(lossless):
        x1, x2, _ = roots(a + 1e-6j * np.abs(a), b + 1e-6j * np.abs(b))
        x = np.where(x1.imag > x2.imag, x1, x2)
        pick = np.where(lossless, np.abs(e1 - x) <= np.abs(e2 - x), pick)
    out[nz] = np.where(pick, e1, e2)
    return out


def ref_tensor(spec, lbda, fraction_=None):
    L = np.atleast_1d(np.asarray(lbda, float))
    m = spec["m"]
    if m == "mix":
        f = spec["f"] if fraction_ is None else fraction_
        return ref_mixture(spec["kind"], ref_tensor(spec["host"], L), ref_tensor(spec["guest"], L), f)
    ds = {"d": lambda: [spec["d"]] * 3, "uni": lambda: [spec["d"][0], spec["d"][0], spec["d"][1]], "bi": lambda: spec["d"]}[m]()
    e = np.zeros((len(L), 3, 3), complex)
    for i, d in enumerate(ds):
        e[:, i, i] = ref_disp(d, L)
    if spec.get("rot"):
        r = gen.rot_matrix(spec["rot"])
        e = r @ e @ r.T
    return e


def ref_profile(spec, lbda):
    """[(thickness, tensor)] of one layer spec."""
    k = spec["l"]
    if k == "layer":
        return [(spec["d"], ref_tensor(spec["mat"], lbda))]
    if k == "rep":
        one = [ref_profile(y, lbda) for y in spec["of"]]
        order = list(range(len(one)))
        order = order[len(one) - spec["before"] :] + order * spec["rep"] + order[: spec["after"]]
        return [x for i in order for x in one[i]]
    out = []
    n = spec["div"]
    for i in range(n):
        x = (i + 0.5) / n
        if k == "twist":
            a = np.deg2rad(spec["angle"] * x)
            r = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
            e = r @ ref_tensor(spec["mat"], lbda) @ r.T
        else:
            f = PROFILES[spec["prof"]]
            e = ref_tensor(spec["mat"], lbda, x if f is None else f(x))
        out.append((spec["d"] / n, e))
    return out


def singular(spec, lbda):
    """A dispersion inside sits (nearly) on a singularity at one of the wavelengths."""
    if isinstance(spec, dict):
        if spec.get("k") == "formula":
            return False
        if "k" in spec and "r" in spec:
            return not disp.regular(spec, lbda)
        return any(singular(v, lbda) for v in spec.values())
    if isinstance(spec, list):
        return any(singular(v, lbda) for v in spec)
    return False


def attenuation(spec, lbda):
    """Upper estimate of sum(Im n * d) * 2 pi / lambda over a structure spec."""
    tot = np.zeros(len(np.atleast_1d(lbda)))
    for la in spec["layers"]:
        for d, e in ref_profile(la, lbda):
            w = np.linalg.eigvals(e)
            tot = tot + np.sqrt(w.astype(complex)).imag.__abs__().max(axis=1) * d * 2 * np.pi / np.atleast_1d(lbda)
    return float(np.max(tot))


def evaluable(spec, lbda, theta, solver="4x4"):
    """Structure in the numerically safe domain of the solvers."""
    if singular(spec, lbda):
        return False
    if attenuation(spec, lbda) > (4 if solver == "4x4" else 30):
        return False
    lb = np.atleast_1d(lbda)
    n0 = np.sqrt(ref_tensor(spec["front"], lb)[:, 0, 0]).real
    kx = n0 * np.sin(np.deg2rad(theta))
    mats = [x for la in spec["layers"] for _, x in ref_profile(la, lb)] + [ref_tensor(spec["back"], lb)]
    for e in mats:
        w = np.linalg.eigvals(e)
        if np.min(abs(w)) < 1e-2:
            return False
        if np.min(abs(np.sqrt(w - kx[:, None] ** 2 + 0j))) < 2e-2:
            return False
    return True
