"""Shared Hypothesis strategies yielding JSON-able specs, and their realisation.

Material specs
  {"m": "n", "n": [re, im]}                       constant isotropic index
  {"m": "cauchy", "c": [n0, n1, n2]}              dispersive isotropic
  {"m": "tl", ...}                                absorbing dispersive (Tauc-Lorentz)
  {"m": "aniso", "n": [[re, im]]*3, "rot": rot}   constant biaxial / uniaxial tensor
rot: null | ["euler", p, n, r] | ["v", x, y, z] | ["vt", x, y, z, angle]
"""

from . import boot, refoptics  # isort: skip

import json

import numpy as np
from hypothesis import strategies as st

elli = boot.load_elli()


def fl(lo, hi, digits=6):
    """Floats in [lo, hi], rounded so that cases stay readable."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(
        lambda x: min(max(round(x, digits), lo), hi)
    )


def mix(special, cont, p_special=0.25):
    return st.one_of(st.sampled_from(list(special)), cont, cont, cont)


def n_real(lo=1.0, hi=4.0):
    return mix([v for v in (1.0, 1.5, 2.0, 1.33, 3.5) if lo <= v <= hi], fl(lo, hi))


def n_transparent(lo=1.0, hi=4.0):
    return n_real(lo, hi).map(lambda n: [n, 0.0])


def n_absorbing(kmax=4.0, lo=0.1, hi=5.0):
    """Absorbing media; now and then a metal without losses (purely imaginary index)."""
    lossy = st.tuples(fl(lo, hi), fl(0.001, kmax)).map(list)
    ideal = fl(0.05, max(kmax, 0.1)).map(lambda k: [0.0, k])
    return st.one_of(*[lossy] * 9, ideal)


def n_any(kmax=4.0):
    return st.one_of(n_transparent(), n_absorbing(kmax))


def iso(nstrat):
    return nstrat.map(lambda n: {"m": "n", "n": n})


def cauchy():
    return st.tuples(fl(1.2, 2.5), fl(0, 100), fl(-20, 20)).map(
        lambda c: {"m": "cauchy", "c": list(c)}
    )


def angles(lo=-360.0, hi=360.0):
    return mix([0.0, 30.0, 45.0, 90.0, 180.0, -90.0, 60.0, 0.05, -0.4], fl(lo, hi, 4))


def rotation():
    v = st.tuples(fl(-1, 1), fl(-1, 1), fl(-1, 1)).filter(
        lambda t: sum(x * x for x in t) > 0.05
    )
    return st.one_of(
        st.tuples(angles(), angles(), angles()).map(lambda t: ["euler", *t]),
        st.tuples(v, angles()).map(
            lambda t: ["vt", *[x / float(np.linalg.norm(t[0])) for x in t[0]], t[1]]
        ),
        st.tuples(v, fl(0.0, 6.0)).map(lambda t: ["v", *[x * t[1] for x in t[0]]]),
    )


def aniso(absorbing=None, kmax=0.5, rot=True):
    """Biaxial / uniaxial constant tensors, usually rotated."""
    if absorbing is True:
        comp = st.tuples(fl(1.2, 3.0), fl(0.001, kmax)).map(list)
    elif absorbing is False:
        comp = st.tuples(fl(1.2, 3.0), st.just(0.0)).map(list)
    else:
        comp = st.one_of(
            st.tuples(fl(1.2, 3.0), st.just(0.0)).map(list),
            st.tuples(fl(1.2, 3.0), fl(0.001, kmax)).map(list),
        )
    ns = st.one_of(
        st.tuples(comp, comp).map(lambda t: [t[0], t[0], t[1]]),
        st.tuples(comp, comp, comp).map(list),
        st.tuples(comp, comp, comp).map(list),
    )
    r = st.one_of(st.none(), rotation(), rotation(), rotation()) if rot else st.none()
    return st.tuples(ns, r).map(lambda t: {"m": "aniso", "n": t[0], "rot": t[1]})


def hyperbolic(lossless=True, kmax=2.0):
    """Tensors with metallic and dielectric principal values (negative and positive permittivities)."""
    metal = st.tuples(fl(0.02, 0.6), fl(0.3, kmax)).map(list)
    if lossless:
        metal = st.one_of(metal, fl(0.3, kmax).map(lambda k: [0.0, k]))
    comp = st.one_of(
        st.tuples(fl(1.2, 3.0), st.just(0.0)).map(list),
        st.tuples(fl(1.2, 3.0), fl(0.001, 0.5)).map(list),
    )
    ns = st.one_of(
        st.tuples(metal, comp).map(lambda t: [t[0], t[0], t[1]]),
        st.tuples(metal, comp).map(lambda t: [t[1], t[1], t[0]]),
        st.tuples(metal, comp, comp).map(list),
        st.tuples(comp, metal, metal).map(list),
    )
    r = st.one_of(st.none(), rotation(), rotation(), rotation())
    return st.tuples(ns, r).map(lambda t: {"m": "aniso", "n": t[0], "rot": t[1]})


# ------------------------------------------------------------------ realisation in elli
def c(v):
    return complex(v[0], v[1]) if isinstance(v, (list, tuple)) else complex(v)


def rot_matrix(rot):
    """Independent rotation matrices (Rodrigues / products of elementary rotations)."""
    if rot[0] == "euler":
        p, n, r = np.deg2rad(rot[1:4])

        def rz(a):
            return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])

        def rx(a):
            return np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])

        return rz(p) @ rx(n) @ rz(r)
    if rot[0] == "v":
        v = np.array(rot[1:4], float)
        th = np.linalg.norm(v)
        u = v / th if th > 0 else np.array([0.0, 0.0, 1.0])
    else:
        u = np.array(rot[1:4], float)
        th = np.deg2rad(rot[4])
    ux = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    return np.cos(th) * np.eye(3) + np.sin(th) * ux + (1 - np.cos(th)) * np.outer(u, u)


def elli_rotation(rot):
    if rot[0] == "euler":
        return elli.rotation_euler(*rot[1:4])
    if rot[0] == "v":
        return elli.rotation_v(rot[1:4])
    return elli.rotation_v_theta(rot[1:4], rot[4])


def material(spec):
    m = spec["m"]
    if m == "n":
        return elli.ConstantRefractiveIndex(n=c(spec["n"])).get_mat()
    if m == "cauchy":
        return elli.Cauchy(*spec["c"]).get_mat()
    if m == "tl":
        return tl_dispersion(spec).get_mat()
    if m == "aniso":
        d = [elli.ConstantRefractiveIndex(n=c(v)) for v in spec["n"]]
        if spec["n"][0] == spec["n"][1]:
            mat = elli.UniaxialMaterial(d[0], d[2])
        else:
            mat = elli.BiaxialMaterial(*d)
        if spec.get("rot"):
            mat.set_rotation(elli_rotation(spec["rot"]))
        return mat
    raise ValueError(m)


def tl_dispersion(spec):
    d = elli.TaucLorentz(Eg=spec["Eg"])
    for o in spec["osc"]:
        d.add(*o)
    return d


def ref_tensor(spec, lbda):
    """Permittivity tensor of a spec, computed without elli. Shape (len(lbda), 3, 3)."""
    lbda = np.atleast_1d(np.asarray(lbda, float))
    m = spec["m"]
    if m == "n":
        e = np.full(lbda.shape, c(spec["n"]) ** 2)
    elif m == "cauchy":
        n0, n1, n2 = spec["c"]
        e = (n0 + 1e2 * n1 / lbda**2 + 1e7 * n2 / lbda**4).astype(complex) ** 2
    elif m == "aniso":
        t = np.diag([c(v) ** 2 for v in spec["n"]])
        if spec.get("rot"):
            r = rot_matrix(spec["rot"])
            t = r @ t @ r.T
        return np.broadcast_to(t, (len(lbda), 3, 3)).copy()
    else:
        raise ValueError(m)
    return e[:, None, None] * np.eye(3)


def layer(spec):
    return elli.Layer(material(spec["mat"]), spec["d"])


def structure(spec):
    """With spec["share"], equal materials are one object (2: equal layers are one object, too)."""
    share, memo = spec.get("share", 0), {}

    def once(kind, x, make):
        if share < (1 if kind == "m" else 2):
            return make()
        key = kind + json.dumps(x, sort_keys=True)
        if key not in memo:
            memo[key] = make()
        return memo[key]

    def mat(x):
        return once("m", x, lambda: material(x))

    return elli.Structure(
        mat(spec["front"]),
        [once("l", x, lambda x=x: elli.Layer(mat(x["mat"]), x["d"])) for x in spec["layers"]],
        mat(spec["back"]),
    )


def repeat_materials(spec, picks, back):
    """Replaces some materials (and layers) by earlier ones of the same stack."""
    layers = [dict(x) for x in spec["layers"]]
    for i, x in enumerate(layers[1:], 1):
        p = picks[i % len(picks)]
        if p % 3 == 1:
            x["mat"] = layers[(p // 3) % i]["mat"]
        elif p % 3 == 2:
            layers[i] = dict(layers[(p // 3) % i])
    out = dict(spec, layers=layers, share=picks[0] % 3)
    if back and layers and picks[-1] % 4 == 0:
        out["back"] = layers[picks[-1] % len(layers)]["mat"]
    return out


# ------------------------------------------------------------------------ common ranges
def wavelengths(min_size=1, max_size=4, lo=200.0, hi=2000.0):
    return st.lists(
        mix([400.0, 500.0, 632.8, 1000.0], fl(lo, hi, 3)), min_size=min_size, max_size=max_size
    )


def theta(lo=0.0, hi=89.0):
    sp = [t for t in (0.0, 30.0, 45.0, 60.0, 70.0, 75.0) if lo <= t <= hi]
    return mix(sp, fl(lo, hi, 4))


def either_side(strategy):
    """Angles of incidence of both signs (light coming from the other side of the surface normal)."""
    return st.one_of(strategy, strategy, strategy, strategy, strategy.map(lambda t: -t if t else t))


def as_given(theta):
    """Even whole angles are given as integers."""
    return int(theta) if theta == int(theta) and int(theta) % 2 == 0 else theta


def thickness(hi=1000.0):
    return mix([x for x in (0.0, 0.3, 1.0, 10.0, 100.0) if x <= hi], fl(0.0, hi, 3))


def stack(layer_mat, front=None, back=None, max_layers=4, dmax=1000.0, min_layers=0):
    base = st.fixed_dictionaries(
        {
            "front": front if front is not None else iso(n_transparent(1.0, 2.5)),
            "layers": st.lists(
                st.fixed_dictionaries({"mat": layer_mat, "d": thickness(dmax)}),
                min_size=min_layers,
                max_size=max_layers,
            ),
            "back": back if back is not None else layer_mat,
        }
    )
    # a quarter of the stacks uses materials (or whole layers) more than once
    picks = st.lists(st.integers(0, 11), min_size=3, max_size=6)
    return st.one_of(base, base, base, st.builds(lambda s, p: repeat_materials(s, p, back is None), base, picks))


def attenuation(spec, lbda, angle):
    """Upper bound of the exponent |Im kz| d summed over layers (any polarisation)."""
    n0 = c(spec["front"]["n"]).real if spec["front"]["m"] == "n" else 2.5
    kx = n0 * np.sin(np.deg2rad(angle))
    tot = 0.0
    for la in spec["layers"]:
        mat = la["mat"]
        if mat["m"] == "n":
            ns = [c(mat["n"])]
        elif mat["m"] == "aniso":
            ns = [c(v) for v in mat["n"]]
        else:
            ns = [complex(1.2)]
        im = max(abs(np.sqrt(complex(n**2 - kx**2)).imag) for n in ns)
        if mat["m"] == "aniso" and any(abs(n.imag) > abs(n.real) for n in ns):
            # metallic directions: the exponents depend on the orientation
            e = ref_tensor(mat, min(lbda))[0]
            if abs(e[2, 2]) < 0.05 or not np.all(np.isfinite(e)):
                return np.inf
            im = max(im, np.max(np.abs(np.linalg.eigvals(refoptics._berreman(e, kx)).imag)))
        tot += im * la["d"] * 2 * np.pi / min(lbda)
    return tot


def cauchy_n(spec, lbda):
    n0, n1, n2 = spec["c"]
    lb = np.atleast_1d(np.asarray(lbda, float))
    return n0 + 1e2 * n1 / lb**2 + 1e7 * n2 / lb**4


def partial_reflection(layer_mat, max_layers=2, dmax=150.0):
    """Structures whose dispersive exit medium totally reflects only some of the wavelengths."""

    def make(t):
        c, lb, f, dn, layers, perm = t
        back = {"m": "cauchy", "c": list(c)}
        n = cauchy_n(back, lb)
        kx = n.min() + f * (n.max() - n.min())
        front = round(float(max(n.max(), kx / np.sin(np.deg2rad(85))) + dn), 6)
        theta = round(float(np.rad2deg(np.arcsin(kx / front))), 6)
        lb = [lb[i] for i in np.random.RandomState(perm).permutation(len(lb))]
        return {"s": {"front": {"m": "n", "n": [front, 0.0]}, "layers": layers, "back": back}, "lbda": lb, "theta": theta}

    return st.tuples(
        st.tuples(fl(1.2, 2.0), fl(20, 150), fl(0, 40)),
        st.lists(fl(250, 1500, 3), min_size=2, max_size=4, unique=True),
        fl(0.05, 0.95),
        fl(0.01, 1.5),
        st.lists(st.fixed_dictionaries({"mat": layer_mat, "d": thickness(dmax)}), max_size=max_layers),
        st.integers(0, 20),
    ).map(make)


def min_kz(spec, angle, lbda=()):
    """Smallest |kz/k0| over all media (closeness to an exact critical angle)."""
    n0 = c(spec["front"]["n"]).real
    kx = n0 * np.sin(np.deg2rad(angle))
    vals, iso_n = [], []
    for mat in [spec["front"], spec["back"], *[la["mat"] for la in spec["layers"]]]:
        ns = [c(mat["n"])] if mat["m"] == "n" else [c(v) for v in mat["n"]] if mat["m"] == "aniso" else []
        if mat["m"] == "cauchy" and len(lbda):
            ns = list(cauchy_n(mat, lbda))
        vals += [abs(np.sqrt(complex(n**2 - kx**2))) for n in ns]
        if mat["m"] == "n":
            iso_n += ns
    if plasmon(iso_n, kx):
        return 0.0
    return min(vals) if vals else 1.0


def plasmon(ns, kx):
    """Is an interface of two of these media on the resonance of its surface wave (p denominator vanishes)?"""
    if not any(abs(n.imag) > abs(n.real) for n in ns):
        return False
    q = [np.sqrt(complex(n**2 - kx**2)) / n**2 if abs(n) > 1e-12 else 1.0 for n in ns]
    q = [(-x if np.sqrt(complex(n**2 - kx**2)).imag < 0 else x) for x, n in zip(q, ns)]
    return any(abs(a + b) < 1e-4 * (abs(a) + abs(b)) for i, a in enumerate(q) for b in q[:i])


# sizes around which work could be split, buffered or abbreviated
_EDGES = [31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 499, 500, 501, 511, 512, 513, 999, 1000, 1001, 1002, 1023, 1024, 1025, 2000, 2047, 2048, 2049]


def big(lo=20, hi=2100):
    """A large number of things."""
    return st.one_of(st.sampled_from([n for n in _EDGES if lo <= n <= hi]), st.integers(lo, hi))


def spread(n, seed, lo, hi, order="random"):
    """n different wavelengths, reproducible from the seed."""
    r = np.random.RandomState(seed)
    x = lo + (hi - lo) * (np.arange(n) + r.uniform(0.1, 0.9, n)) / n
    x = np.round(x, 4)
    if order == "random":
        r.shuffle(x)
    return x[::-1].copy() if order == "down" else x


def picks(n, seed, m=8):
    """Positions to look at: both ends and some in between."""
    r = np.random.RandomState(seed + 1)
    return sorted({0, 1, n - 2, n - 1, n // 2, *r.randint(0, n, m)} & set(range(n)))


def many_jones(max_size=2100):
    """Compact spec of a long list of Jones matrices: some drawn ones among seeded ones."""
    return st.fixed_dictionaries({"n": big(20, max_size), "seed": st.integers(0, 10**6), "scale": fl(0.1, 1.5, 2)})


def jones_list(spec):
    """The [[re, im]] * 4 rows of a spec (lists are returned as they are)."""
    if not isinstance(spec, dict):
        return spec
    r = np.random.RandomState(spec["seed"])
    a = r.uniform(-1, 1, (spec["n"], 4, 2)) * spec["scale"]
    # some real, some vanishing cross-polarised, some exact quarter turns
    kind = r.randint(0, 8, (spec["n"], 4))
    a[kind == 0, 1] = 0
    a[kind == 1, 0] = 0
    a[:, 1:3][kind[:, 1:3] == 2] = 0
    small = np.hypot(a[:, 3, 0], a[:, 3, 1]) < 0.06
    a[small, 3] = [0.5, -0.25]
    return a.tolist()
