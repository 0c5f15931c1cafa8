"""C17 - the views of a dispersion agree."""
from vlib.core import Property, close, require
from vlib import disp, rich
from vlib.gen import elli, fl, mix, st
import numpy as np
import pandas as pd

P = Property(
    "C17",
    rule="a case is non-trivial if the permittivity is complex or wavelength dependent",
    assumptions=[
        "data frames are requested for a list or array of wavelengths",
        "the complex index is the root n + ik of the permittivity with non-negative n (principal root)",
    ],
)


def formula():
    return st.tuples(st.sampled_from(["n", "eps"]), fl(1, 3), fl(-100, 100), fl(0, 2)).map(
        lambda t: {"k": "simple formula", "rep": t[0], "c": list(t[1:])}
    )


def pseudo():
    return st.tuples(fl(40, 80), st.lists(st.tuples(fl(5, 60), fl(0, 180)).map(list), min_size=5, max_size=8)).map(
        lambda t: {"k": "pseudo", "angle": t[0], "pd": t[1]}
    )


base = st.one_of(
    disp.model([k for k in disp.TEMPLATES if k != "Tanguy"], max_rep=2),
    disp.model([k for k in disp.TEMPLATES if k != "Tanguy"], max_rep=2),
    rich.dispersion,
    rich.table(),
    formula(),
    pseudo(),
)
any_disp = st.one_of(base, base, st.tuples(base, st.integers(-2, 3)).map(lambda t: {"k": "plus", "of": t[0], "c": t[1]}))


def build(s):
    if s["k"] == "simple formula":
        a, b, k = s["c"]
        cls, left = (elli.FormulaIndex, "n") if s["rep"] == "n" else (elli.Formula, "eps")
        return cls(f"{left} = a + b / x + 1j * k", "x", {"a": a, "b": b, "k": k}, {}, "nm")
    if s["k"] == "pseudo":
        pd_ = np.array(s["pd"])
        return elli.PseudoDielectricFunction(s["angle"], np.linspace(rich.LO, rich.HI, len(pd_)), pd_[:, 0], pd_[:, 1])
    if s["k"] == "plus":
        return s["c"] + build(s["of"]) if s["of"]["k"] != "pseudo" else build(s["of"])
    return rich.build_disp(s)


def index_based(s):
    if s["k"] == "plus":
        return index_based(s["of"])
    if "rep" in s:
        return s["rep"] == "n"
    if s["k"] == "conv":
        return True
    if s["k"] == "pseudo":
        return False
    return disp.repr_of(s) == "n"


def rng_of(s):
    """Own wavelength range, if the model has one."""
    if s["k"] == "table":
        return s["lbda"]
    if s["k"] == "conv":
        return rng_of(s["of"])
    if s["k"] == "pseudo":
        return np.linspace(rich.LO, rich.HI, len(s["pd"]))
    return np.linspace(200, 1000, 801)


lam = st.lists(mix([300.0, 500.0, 1000.0], fl(rich.LO + 1, rich.HI - 1, 2)), min_size=1, max_size=5)
CONT = {"array": np.array, "list": list, "ints": lambda L: np.array(L).astype(int)}


def irregular(s, L):
    if s["k"] == "plus":
        return irregular(s["of"], L)
    return rich.singular(s, L)


def bc(x, n):
    x = np.asarray(x)
    return np.broadcast_to(x, (n,)) if x.ndim == 0 else x


def frame(df, cols, L, v, conj, what):
    require(isinstance(df, pd.DataFrame), f"{what} is {type(df)}")
    require(list(df.columns) == cols, f"{what}: columns {list(df.columns)}")
    close(np.asarray(df.index, float), np.asarray(L, float), 0, 0, f"{what}: index")
    require(df.index.name == "Wavelength", f"{what}: the index is called {df.index.name!r}")
    for c in cols:
        require(df[c].dtype.kind == "f", f"{what}: column {c} has type {df[c].dtype}")
    close(df[cols[0]].to_numpy(), v.real, 1e-12, 0, f"{what}: {cols[0]}")
    close(df[cols[1]].to_numpy(), -v.imag if conj else v.imag, 1e-12, 0, f"{what}: {cols[1]}")


@P.sub("views", st.fixed_dictionaries({"d": any_disp, "lbda": lam, "cont": st.sampled_from(sorted(CONT)), "conj": st.sampled_from([True, False, None])}), 6000, 120000, 4)
def views(case, t):
    s = case["d"]
    given = CONT[case["cont"]](case["lbda"])
    L = np.asarray(given, float)
    if irregular(s, L):
        return
    d = build(s)
    n = len(L)
    inner = s["of"] if s["k"] == "plus" else s
    t.tag(s["k"], case["cont"], "index" if index_based(s) else "permittivity", f"conjugate={case['conj']}")
    eps, nk = bc(d.get_dielectric(given), n), bc(d.get_refractive_index(given), n)
    t.nontrivial(np.any(eps.imag != 0) or len(np.unique(eps)) > 1)
    scale = 1 + np.max(abs(eps))
    require(eps.dtype == complex, f"permittivity of type {eps.dtype}")
    close(eps, nk**2 + 0j, 1e-10, 1e-12 * scale, "permittivity against the square of the index")
    if not index_based(s):
        require(np.all(nk.real >= -1e-12), f"index {nk} is not the principal root")
    conj = {} if case["conj"] is None else {"conjugate": case["conj"]}
    const = inner["k"] in ("ConstantRefractiveIndex", "EpsilonInf")
    if not const:
        frame(d.get_dielectric_df(given, **conj), ["ϵ1", "ϵ2"], L, eps, case["conj"], "permittivity frame")
        frame(d.get_refractive_index_df(given, **conj), ["n", "k"], L, nk + 0j, case["conj"], "index frame")
    # through a material
    m = d.get_mat()
    require(isinstance(m, elli.IsotropicMaterial), "get_mat does not return an isotropic material")
    close(m.get_tensor(given), eps[:, None, None] * np.eye(3), 1e-12, 1e-12 * scale, "tensor of the isotropic material")
    mi = m.get_refractive_index(given)
    close(mi[:, 0, 0] ** 2, eps, 1e-10, 1e-12 * scale, "index tensor of the isotropic material")
    off = mi.copy()
    off[:, [0, 1, 2], [0, 1, 2]] = 0
    require(not np.any(off), "index tensor of an isotropic material has off-diagonal elements")
    # as an index-based dispersion
    if not index_based(s):
        c = d.as_index()
        ce, cn = bc(c.get_dielectric(given), n), bc(c.get_refractive_index(given), n)
        close(ce, eps, 1e-10, 1e-12 * scale, "permittivity of the index-based conversion")
        close(cn**2 + 0j, eps, 1e-10, 1e-12 * scale, "index of the index-based conversion")
        close(cn.real, nk.real, 1e-9, 1e-7, "real index of the conversion")
        close(c.get_mat().get_tensor(given), m.get_tensor(given), 1e-10, 1e-12 * scale, "material of the conversion")
        if not const:
            frame(c.get_dielectric_df(given, **conj), ["ϵ1", "ϵ2"], L, ce + 0j, case["conj"], "permittivity frame of the conversion")
    t.tag("converted" if not index_based(s) else None)


@P.sub("default_range", st.fixed_dictionaries({"d": st.one_of(base, rich.table(), pseudo()), "conj": st.booleans(), "conv": st.booleans()}), 800, 15000, 2)
def default_range(case, t):
    s = case["d"]
    L = np.asarray(rng_of(s), float)
    if irregular(s, L):
        t.tag("singular")
        return
    d = build(s)
    if case["conv"] and not index_based(s):
        d = d.as_index()
        t.tag("converted")
    n = len(L)
    t.tag(s["k"])
    t.nontrivial()
    close(np.asarray(d.default_lbda_range, float), L, 1e-12, 0, "default range")
    for name, f in (("permittivity", d.get_dielectric), ("index", d.get_refractive_index)):
        v, e = np.asarray(f()), np.asarray(f(L))
        require(np.allclose(v, e, rtol=1e-12, atol=0, equal_nan=True), f"{name} without wavelengths differs from the default range")
        close(bc(v, n), bc(f(None), n), 0, 0, f"{name} with None")
    if s["k"] not in ("ConstantRefractiveIndex", "EpsilonInf"):
        frame(d.get_dielectric_df(conjugate=case["conj"]), ["ϵ1", "ϵ2"], L, bc(d.get_dielectric(L), n), case["conj"], "default permittivity frame")
        frame(d.get_refractive_index_df(conjugate=case["conj"]), ["n", "k"], L, bc(d.get_refractive_index(L), n) + 0j, case["conj"], "default index frame")
