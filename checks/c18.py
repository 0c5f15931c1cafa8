"""C18 - tabulated dispersions."""
import os
import shutil
import tempfile

from vlib.core import Property, close, raises, require
from vlib.disp import HC_NM
from vlib import gen
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C18",
    rule="a case is non-trivial if the table has at least two nodes with different values and a wavelength between nodes is queried",
    assumptions=[
        "nodes are distinct and finite; the spline kinds (quadratic, cubic) are required to reproduce the nodes and "
        "polynomials of their degree, not a particular end condition",
    ],
)
KINDS = ["linear", "nearest", "zero", "previous", "next", "slinear", "quadratic", "cubic"]
DEG = {"quadratic": 2, "cubic": 3}

wl = mix([300.0, 400.0, 500.0, 632.8, 1000.0], fl(100, 3000, 2))
val = st.tuples(fl(-5, 8), mix([0.0], fl(0, 6))).map(list)


def table(min_size=1, max_size=7):
    return st.lists(wl, min_size=min_size, max_size=max_size, unique=True).flatmap(
        lambda L: st.fixed_dictionaries({"lbda": st.just(L), "v": st.lists(val, min_size=len(L), max_size=len(L))})
    )


CONT = {
    "list": list, "array": np.array, "tuple": tuple,
    "series": lambda x: __import__("pandas").Series(list(x)),
    "index": lambda x: __import__("pandas").Index(list(x)) if not np.iscomplexobj(np.array(x)) else np.array(x),
}
case_s = st.fixed_dictionaries(
    {
        "t": table(), "kind": st.sampled_from([None, "linear", *KINDS]), "rep": st.sampled_from(["n", "eps"]),
        "cont": st.sampled_from(sorted(CONT)), "at": st.lists(st.tuples(st.integers(0, 9), fl(0.001, 0.999)).map(list), min_size=1, max_size=4),
        "out": st.lists(mix([0.01, 0.001, 1e-5, 0.1], fl(0.01, 500, 2)), min_size=1, max_size=2), "pos": st.integers(0, 2), "factory": st.booleans(),
    }
)


def make(case, L, v):
    cls = "Table" if case["rep"] == "n" else "TableEpsilon"
    cont = CONT[case["cont"]]
    name = "n" if case["rep"] == "n" else "epsilon"
    a, kw = [cont(L), cont(v)][: case["pos"]], {}
    if case["pos"] < 1:
        kw["lbda"] = cont(L)
    if case["pos"] < 2:
        kw[name] = cont(v)
    if case["kind"] is not None:
        kw["kind"] = case["kind"]
    if case["factory"]:
        return elli.DispersionFactory.get_dispersion(cls, *a, **kw)
    return getattr(elli, cls)(*a, **kw)


def stored(d, case, L):
    """Value in the stored quantity."""
    v = d.get_refractive_index(L) if case["rep"] == "n" else d.get_dielectric(L)
    return np.asarray(v)


def between(L, v, x, kind):
    """Interpolated value at x strictly between nodes. Sorted input."""
    i = int(np.searchsorted(L, x)) - 1
    a, b = L[i], L[i + 1]
    f = (x - a) / (b - a)
    if kind in (None, "linear", "slinear"):
        return v[i] * (1 - f) + v[i + 1] * f
    if kind == "nearest":
        return None if abs(f - 0.5) < 1e-9 else (v[i] if f < 0.5 else v[i + 1])
    if kind in ("zero", "previous"):
        return v[i]
    if kind == "next":
        return v[i + 1]
    return None


@P.sub("interpolation", case_s, 6000, 120000, 4)
def interpolation(case, t):
    if "n" in case["t"]:
        r = np.random.RandomState(case["t"]["seed"])
        L = gen.spread(case["t"]["n"], case["t"]["seed"], *case["t"]["ends"], case["t"]["order"])
        v = r.uniform(-5, 8, (len(L), 2))
        v[:, 1] = abs(v[:, 1]) * r.randint(0, 2, len(L))
        case = dict(case, t={"lbda": L.tolist(), "v": v.tolist()})
        t.tag("many nodes")
    L, v = np.array(case["t"]["lbda"]), np.array([complex(*x) for x in case["t"]["v"]])
    k = case["kind"]
    need = DEG.get(k, 1) + 1
    if len(L) < need and (k in DEG or len(L) == 1 and k in (None, "linear", "slinear", "zero")):
        # a single node: still exact there if it can be constructed
        if k in DEG:
            return
    o = np.argsort(L)
    Ls, vs = L[o], v[o]
    d = make(case, list(L), list(v))
    t.tag("smallest first, unordered" if L[0] == Ls[0] and np.any(np.diff(L) < 0) else None)
    t.tag(k or "default", case["cont"], "unordered" if np.any(np.diff(L) < 0) else "ordered", case["rep"], f"nodes={min(len(L), 4)}")
    scale = 1 + np.max(abs(v))
    tol = 1e-9 * scale * (1 if k not in DEG else 100 * (1 + np.ptp(L) / (np.min(np.diff(Ls)) if len(L) > 1 else 1)) ** 2)
    # exact at the nodes, as an array in table order and one by one
    got = stored(d, case, L)
    close(got, v, 1e-12 if k not in DEG else 1e-6, 1e-12 * scale if k not in DEG else tol, "value at the nodes")
    for i in range(len(L)):
        close(stored(d, case, float(L[i])).reshape(()), v[i], 1e-12 if k not in DEG else 1e-6, 1e-12 * scale if k not in DEG else tol, f"value at node {L[i]}")
    sq = d.get_dielectric(L)
    if case["rep"] == "n":
        close(sq, v**2, 1e-9, 1e-11 * scale**2 + (tol * scale if k in DEG else 0), "permittivity at the nodes")
    # between the nodes
    if len(L) > 1:
        xs = []
        for i, f in case["at"]:
            j = i % (len(L) - 1)
            xs.append(Ls[j] + f * (Ls[j + 1] - Ls[j]))
        xs = np.array([x for x in xs if np.min(abs(x - L)) > 1e-9 * x])
        if len(xs):
            t.nontrivial(len(np.unique(v)) > 1)
            got = stored(d, case, xs)
            for x, g in zip(xs, got):
                e = between(Ls, vs, x, k)
                if e is not None:
                    close(g, e, 1e-9, 1e-10 * scale, f"{k or 'default'} interpolation at {x}")
                    if k in (None, "linear"):
                        i = int(np.searchsorted(Ls, x)) - 1
                        for part in (np.real, np.imag):
                            lo, hi = sorted([part(vs[i]), part(vs[i + 1])])
                            require(lo - 1e-9 * scale <= part(g) <= hi + 1e-9 * scale, f"interpolated value {g} not between its neighbours")
                elif k == "nearest":
                    i = int(np.searchsorted(Ls, x)) - 1
                    require(abs(g - vs[i]) < 1e-9 * scale or abs(g - vs[i + 1]) < 1e-9 * scale, f"nearest value {g} is no node value")
    # the range is guarded on both sides
    for q in case["out"]:
        for x in (Ls[0] - q, Ls[-1] + q):
            if x <= 0:
                continue
            for f in (d.get_dielectric, d.get_refractive_index, d.get_mat().get_tensor):
                raises(ValueError, lambda: f(np.array([x])), f"wavelength {x} outside the table {Ls[0]}..{Ls[-1]}")
                raises(ValueError, lambda: f(np.array([Ls[0], x])), f"wavelengths with {x} outside the table")
                raises(ValueError, lambda: f(x), f"scalar wavelength {x} outside the table")
    # default range
    close(np.asarray(d.default_lbda_range, float), L, 0, 0, "default range")
    close(stored(d, case, None), v, 1e-12 if k not in DEG else 1e-6, 1e-12 * scale if k not in DEG else tol, "values without wavelengths")


P.sub(
    "long_tables",
    st.tuples(
        case_s,
        st.fixed_dictionaries({"n": gen.big(20, 600), "seed": st.integers(0, 10**6), "order": st.sampled_from(["up", "down", "random"]), "ends": st.tuples(fl(100, 400, 1), fl(800, 3000, 1)).map(list)}),
        st.lists(st.tuples(st.integers(0, 10**4), fl(0.001, 0.999)).map(list), min_size=5, max_size=60),
        st.sampled_from([None, "linear", "linear", "nearest", "zero", "previous", "next", "slinear"]),
    ).map(lambda a: dict(a[0], t=a[1], at=a[2], kind=a[3])),
    150,
    4000,
    2,
)(interpolation)


@P.sub(
    "spline_degree",
    st.fixed_dictionaries({"c": st.lists(st.tuples(fl(-2, 2), fl(-2, 2)).map(list), min_size=4, max_size=4), "kind": st.sampled_from(["quadratic", "cubic"]), "n": st.integers(5, 9), "perm": st.integers(0, 99), "rep": st.sampled_from(["n", "eps"]), "x": st.lists(fl(0, 1), min_size=1, max_size=4)}),
    1000,
    20000,
)
def spline(case, t):
    """A spline of degree k reproduces polynomials of that degree."""
    c = [complex(*x) for x in case["c"]][: DEG[case["kind"]] + 1]
    L = np.linspace(400, 800, case["n"])
    f = lambda x: sum(ci * ((x - 400) / 400) ** i for i, ci in enumerate(c))  # noqa: E731
    p = np.random.RandomState(case["perm"]).permutation(len(L))
    cls = elli.Table if case["rep"] == "n" else elli.TableEpsilon
    d = cls(L[p], f(L[p]), kind=case["kind"])
    x = 400 + 400 * np.array(case["x"])
    t.nontrivial()
    t.tag(case["kind"])
    close(stored(d, case, x), f(x), 1e-7, 1e-8, f"{case['kind']} spline of a polynomial")


@P.sub("pseudo_table", st.fixed_dictionaries({"t": st.lists(wl, min_size=5, max_size=9, unique=True).filter(lambda L: np.min(np.diff(sorted(L))) > 2), "angle": fl(40, 80), "pd": st.lists(st.tuples(fl(5, 60), fl(0, 180)).map(list), min_size=9, max_size=9), "q": fl(0.01, 50)}), 800, 15000)
def pseudo(case, t):
    L = np.array(case["t"])
    pd_ = np.array(case["pd"])[: len(L)]
    d = elli.PseudoDielectricFunction(case["angle"], L, pd_[:, 0], pd_[:, 1])
    rho = np.tan(np.deg2rad(pd_[:, 0])) * np.exp(-1j * np.deg2rad(pd_[:, 1]))
    th = np.deg2rad(case["angle"])
    if np.min(abs(1 + rho)) < 1e-2:
        return
    e = np.sin(th) ** 2 * (1 + np.tan(th) ** 2 * ((1 - rho) / (1 + rho)) ** 2)
    t.nontrivial()
    s = (1 + np.max(abs(e))) * (1 + np.ptp(L) / np.min(np.diff(np.sort(L)))) ** 2
    close(d.get_dielectric(L), e, 1e-6, 1e-10 * s, "pseudo-dielectric function at the nodes")
    close(d.get_dielectric(), e, 1e-6, 1e-10 * s, "pseudo-dielectric function over its default range")
    for x in (L.min() - case["q"], L.max() + case["q"]):
        raises(ValueError, lambda: d.get_dielectric(np.array([x])), f"wavelength {x} outside the data")


@P.sub("bad_tables", st.fixed_dictionaries({"n": st.integers(0, 4), "m": st.integers(0, 4), "rep": st.sampled_from(["n", "eps"]), "cont": st.sampled_from(["list", "array", "tuple"]), "pos": st.integers(0, 2), "kind": st.sampled_from([None, "linear", "cubic"]), "factory": st.booleans()}), 400, 4000)
def bad(case, t):
    n, m = case["n"], case["m"]
    if n == m and n > 0:
        return
    t.nontrivial()
    t.tag("empty" if n == 0 else "mismatch")
    raises((elli.InvalidParameters, ValueError), lambda: make(case, [400.0 + i for i in range(n)], [1.5 + 0.1j * i for i in range(m)]), f"table with {n} wavelengths and {m} values")


# ------------------------------------------------------------------ SpectraRay material files
HEAD = ["SENTECH Instruments", "Version=1", "Type=Table", "Name=generated", "Comment=a b c"]
SEP = {"tab": "\t", "space": " ", "spaces": "   ", "mixed": " \t "}


@P.sub(
    "spectraray_files",
    st.fixed_dictionaries(
        {
            "t": table(2, 8), "axis": st.sampled_from(["Wavelength", "Energy"]), "sep": st.sampled_from(sorted(SEP)), "head": st.integers(1, 5),
            "between": st.integers(0, 2), "tail": st.booleans(), "lead": st.booleans(), "extra": st.booleans(), "f": st.lists(fl(0.01, 0.99), min_size=1, max_size=3), "unit2": st.sampled_from(["nm", "eV", "Dielectric function"]),
        }
    ),
    900,
    15000,
    2,
)
def spectraray(case, t):
    L, v = np.array(case["t"]["lbda"]), np.array([complex(*x) for x in case["t"]["v"]])
    sep = SEP[case["sep"]]
    x = L if case["axis"] == "Wavelength" else HC_NM / L
    lines = HEAD[: case["head"]] + [f"Units={case['axis']},{case['unit2']}"] + ["Key=value"] * case["between"] + ["Begin of array"]
    for a, b in zip(x, v):
        row = [repr(float(a)), repr(float(b.real)), repr(float(b.imag))] + (["0", "0"] if case["extra"] else [])
        lines.append((sep if case["lead"] else "") + sep.join(row))
    lines.append("End of array")
    if case["tail"]:
        lines += ["Something=else", "1 2 3"]
    dr = tempfile.mkdtemp(prefix="vf18")
    try:
        with open(os.path.join(dr, "m.mat"), "w", encoding="utf8") as f:
            f.write("\n".join(lines) + "\n")
        d = elli.TableSpectraRay(dr + os.sep).load_dispersion_table("m.mat")
    finally:
        shutil.rmtree(dr, ignore_errors=True)
    t.nontrivial(len(np.unique(v)) > 1)
    t.tag(case["axis"], case["sep"])
    require(isinstance(d, elli.TableEpsilon), f"loaded {type(d)}")
    o = np.argsort(L)
    lo, hi = np.min(L), np.max(L)
    Lq = np.clip(L, lo * (1 + 1e-12), hi * (1 - 1e-12))
    scale = 1 + np.max(abs(v))
    steep = np.max(abs(np.diff(v[o])) / np.diff(L[o]))
    close(d.get_dielectric(Lq), v, 1e-9, 1e-9 * scale + 1e-7 * steep, f"file over {case['axis']}, at the nodes")
    xs = lo + np.array(case["f"]) * (hi - lo)
    e = elli.TableEpsilon(L, v).get_dielectric(xs)
    close(d.get_dielectric(xs), e, 1e-9, 1e-9 * scale + 1e-6 * steep, f"file over {case['axis']} against the arrays")
    close(np.sort(np.asarray(d.default_lbda_range, float)), np.sort(L), 1e-9, 0, "default range")
    raises(ValueError, lambda: d.get_dielectric(np.array([hi * 1.01])), "wavelength above the file's range")
    raises(ValueError, lambda: d.get_dielectric(np.array([lo * 0.99])), "wavelength below the file's range")
