"""C27 - NeXus measurement and material files."""
import contextlib
import os
import shutil
import tempfile

from vlib.core import Property, close, raises, require
from vlib.disp import H, C, Q
from vlib.gen import elli, fl, mix, st
from checks.c26 import check_rho, check_table, delta, psi
from checks.c19 import Env, Parser, UNITS, Undefined, axis_value, ev
import h5py
import numpy as np
from elli.importer.nexus import NexusGroupNames, read_nexus_materials, read_nexus_psi_delta, read_nexus_rho

HC = H * C / Q * 1e9


@contextlib.contextmanager
def scratch(name="file.nxs"):
    d = tempfile.mkdtemp(prefix="verif_c27_")
    try:
        yield os.path.join(d, name)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def table_units_ignored():
    """None if the units attribute of tabulated wavelengths is honoured."""
    with scratch() as p:
        with h5py.File(p, "w") as f:
            g = f.create_group("entry/dispersion_x/dispersion_table_nk")
            g.attrs["NX_class"] = "NXdispersion_table"
            g["wavelength"] = np.array([0.5, 0.6])
            g["wavelength"].attrs["units"] = "micrometer"
            g["refractive_index"] = np.array([1.5 + 0j, 1.6 + 0.1j])
        m = read_nexus_materials(p)["entry"]
        try:
            ok = abs(m.get_refractive_index(500.0)[..., 0, 0] - 1.5) < 1e-9
        except Exception:  # noqa: BLE001
            ok = False
    return None if np.all(ok) else (
        "read_nexus_materials takes tabulated wavelengths stored in micrometers (units attribute, as in every shipped "
        "material file) as nanometers; the existing tests pin this"
    )


P = Property(
    "C27",
    rule="a case is non-trivial if it reads at least two angles and two wavelengths, a sum, an anisotropic material, or a "
    "function with repeated parameters",
    known={"nexus-table-units": table_units_ignored},
    assumptions=[
        "files are written with h5py in the two layouts of the shipped examples; wavelengths of measurements in angstrom",
        "table wavelengths are generated in nm (other units: known finding nexus-table-units), energies in eV",
        "delta is returned as stored; at most one table per axis, sums of either index or permittivity contributions",
    ],
)


# ----------------------------------------------------------------------- measurements
name = st.sampled_from(["entry", "experiment", "MyEntry_1"])


@P.sub(
    "measurements",
    st.fixed_dictionaries({
        "new": st.booleans(),
        "entry": name,
        "sample": st.sampled_from(["sample", "sample", "probe"]),
        "instrument": st.sampled_from(["instrument", "instrument", "SE"]),
        "aoi": st.lists(mix([50.0, 60.2, 70.0, 75.5], fl(20, 89, 3)), min_size=1, max_size=5, unique=True),
        "wl": st.lists(fl(1900, 25000, 4), min_size=1, max_size=7, unique=True),
        "v": st.lists(st.tuples(psi, delta).map(list), min_size=35, max_size=35),
        "order": st.sampled_from(["up", "down", "as drawn"]),
        "dtype": st.sampled_from(["f8", "f8", "f8", "i8"]),
        "decoy": st.booleans(),
        "explicit": st.booleans(),
    }),
    500, 8000, 4,
)
def measurements(case, t):
    wl = list(case["wl"])
    if case["dtype"] == "i8":
        wl = list(dict.fromkeys(float(round(w)) for w in wl))
    if case["order"] != "as drawn":
        wl = sorted(wl, reverse=case["order"] == "down")
    aoi = case["aoi"]
    na, nw = len(aoi), len(wl)
    v = np.array(case["v"][: na * nw]).reshape(na, nw, 2)
    data = np.moveaxis(v, 2, 1)  # aoi, observable, wavelength
    exp = {(a, w / 10): tuple(v[i, j]) for i, a in enumerate(aoi) for j, w in enumerate(wl)}
    e, s, ins = case["entry"], case["sample"], case["instrument"]
    default = (e, s, ins) == ("entry", "sample", "instrument")
    names = None if default and not case["explicit"] else NexusGroupNames(entry=e, sample=s, instrument=ins)
    wl_arr = np.array(wl, dtype=case["dtype"])
    with scratch() as p:
        with h5py.File(p, "w") as f:
            if case["decoy"]:  # another entry in the same file
                f["zz_other/data_collection/data_type"] = b"Mueller matrix"
                f["zz_other/sample/data_type"] = b"Mueller matrix"
            f[f"{e}/{ins}/angle_of_incidence"] = np.array(aoi)
            if case["new"]:
                f[f"{e}/data_collection/data_type"] = b"Psi/Delta"
                f[f"{e}/data_collection/measured_data"] = data
                f[f"{e}/data_collection/wavelength_spectrum"] = wl_arr
            else:
                f[f"{e}/{s}/data_type"] = b"psi/delta"
                f[f"{e}/{s}/measured_data"] = data[None, None]
                f[f"{e}/{ins}/spectrometer/wavelength"] = wl_arr
            f[f"{e}/{s}/sample_name"] = b"SiO2/Si"
        df = read_nexus_psi_delta(p) if names is None else read_nexus_psi_delta(p, names)
        what = f"{'NXopt' if case['new'] else 'legacy'} file"
        check_table(df, exp, what, False)
        if default:
            check_rho(read_nexus_rho(p), df, what)
    t.nontrivial(na > 1 and nw > 1)
    t.tag("new layout" if case["new"] else "legacy layout", "custom names" if not default else "", f"order {case['order']}")


@P.sub(
    "unsupported measurements",
    st.fixed_dictionaries({
        "kind": st.sampled_from(["type", "missing", "names"]),
        "type": st.sampled_from(["Mueller matrix", "Jones matrix", "PSI/DELTA", "tan(psi)/cos(delta)", "psi / delta", "", "N,C,S"]),
        "new": st.booleans(),
        "names": st.sampled_from(["entry", {"entry": "entry"}, ["entry", "sample", "instrument"], 1]),
    }),
    80, 800, 1,
)
def unsupported(case, t):
    with scratch() as p:
        with h5py.File(p, "w") as f:
            f["entry/instrument/angle_of_incidence"] = np.array([50.0, 60.0])
            g = "entry/data_collection" if case["new"] else "entry/sample"
            if case["kind"] != "missing":
                f[f"{g}/data_type"] = (case["type"] if case["kind"] == "type" else ("Psi/Delta" if case["new"] else "psi/delta")).encode()
            d = np.zeros((2, 2, 3))
            f[f"{g}/measured_data"] = d if case["new"] else d[None, None]
            f["entry/data_collection/wavelength_spectrum"] = np.array([4000.0, 5000, 6000])
            f["entry/instrument/spectrometer/wavelength"] = np.array([4000.0, 5000, 6000])
        if case["kind"] == "names":
            raises((ValueError, TypeError), lambda: read_nexus_psi_delta(p, case["names"]), f"group names {case['names']!r}")
        else:
            exc = (ValueError, NotImplementedError)
            what = f"data type {case['type']!r}" if case["kind"] == "type" else "a file without a data type"
            raises(exc, lambda: read_nexus_psi_delta(p), what)
            raises(exc, lambda: read_nexus_rho(p), what)
    t.nontrivial()
    t.tag(case["kind"])


# -------------------------------------------------------------------------- materials
LBDA = np.array([420.0, 500.0, 555.5, 632.8, 780.0])
UNIT_NAMES = ["nm", "um", "micrometer", "angstrom", "m"]
INDEX = ["table_n", "f_cauchy", "f_sellmeier_n", "f_const_n"]
EPS = ["table_eps", "f_lorentz", "f_sellmeier_eps", "f_poly"]


@st.composite
def component(draw, kind):
    out = {"kind": kind}
    if kind.startswith("table"):
        m = draw(st.integers(2, 6))
        out["lbda"] = [400.0] + draw(st.lists(fl(401, 799, 2), min_size=m - 2, max_size=m - 2, unique=True)) + [800.0]
        out["re"] = draw(st.lists(fl(0.5, 4, 3) if kind == "table_n" else mix([1.0, 0.0], fl(-30, 16, 3)), min_size=m, max_size=m))
        out["im"] = draw(st.lists(mix([0.0], draw(st.sampled_from([fl(0, 3, 3), fl(0, 3, 3), fl(-3, 3, 3)]))), min_size=m, max_size=m))
        out["energy"] = draw(st.booleans())
        out["order"] = draw(st.sampled_from(["up", "down", "as drawn"]))
        out["units"] = draw(st.booleans())
        return out
    out["unit"] = draw(st.sampled_from(UNIT_NAMES))
    out["ident"] = draw(st.sampled_from(["lambda", "x", "wavelength", "E"]))
    k = draw(st.integers(1, 3))
    out["a"] = [draw(fl(0.5, 2.5, 3)) for _ in range(3)]
    out["A"] = [draw(fl(-1, 2, 3)) for _ in range(k)]
    out["B"] = [draw(fl(0.05, 0.35, 3)) for _ in range(k)]
    if draw(st.booleans()):  # equal values in different terms
        out[draw(st.sampled_from("AB"))] = [draw(fl(0.05, 0.35, 3))] * k
    out["rep"] = draw(st.integers(0, 1))
    return out


def formula_of(c):
    """Text, single and repeated parameters; lengths of the parameters are in the file's unit."""
    x = c["ident"]
    s = {"nm": 1e3, "um": 1.0, "micrometer": 1.0, "angstrom": 1e4, "m": 1e-6}[c["unit"]]  # um -> unit
    a, A, B = c["a"], c["A"], c["B"]
    k = c["kind"]
    if k == "f_cauchy":
        return f"n = n0 + n1 / {x}**2 + n2 / {x}**4 + 1j * k0", {"n0": a[0], "n1": a[1] * 0.01 * s**2, "n2": a[2] * 1e-4 * s**4, "k0": A[0]}, {}
    if k == "f_const_n":
        return f"n = n0 + 0 * {x}", {"n0": a[0]}, {}
    if k == "f_sellmeier_n":
        return f"n = sqrt(eps_inf + sum[A * {x}**2 / ({x}**2 - B**2)])", {"eps_inf": a[0] + 4}, {"A": A, "B": [b * s for b in B]}
    if k == "f_sellmeier_eps":
        return f"eps = eps_inf + sum[A * {x}**2 / ({x}**2 - B**2)]", {"eps_inf": a[0]}, {"A": A, "B": [b * s for b in B]}
    if k == "f_poly":
        return f"eps = sum[f * ({x} / l0)**e]", {"l0": 0.5 * s}, {"f": A, "e": [2.0, -2.0, -4.0][: len(A)]}
    return f"eps = e_inf + f * {x}**2 / ({x}**2 - l0**2 + 1j * g * {x})", {"e_inf": a[0], "f": a[1], "l0": 0.3 * s, "g": 0.1 * a[2] * s}, {}


def ordered_table(c):
    idx = np.arange(len(c["lbda"]))
    if c["order"] != "as drawn":
        idx = np.argsort(c["lbda"])
        if c["order"] == "down":
            idx = idx[::-1]
    z = np.array(c["re"]) + 1j * np.array(c["im"])
    return np.array(c["lbda"])[idx], z[idx]


def write_component(g, c, pos):
    if c["kind"].startswith("table"):
        h = g.create_group(f"{pos}_dispersion_{c['kind']}")
        h.attrs["NX_class"] = "NXdispersion_table"
        l, z = ordered_table(c)
        if c["energy"]:
            h["energy"] = HC / l
            h["energy"].attrs["units"] = "eV"
        else:
            h["wavelength"] = l
            if c["units"]:
                h["wavelength"].attrs["units"] = "nm"
        h["refractive_index" if c["kind"] == "table_n" else "dielectric_function"] = z
        h["model_name"] = b"Table"
        return
    h = g.create_group(f"{pos}_{c['kind'][2:]}")
    h.attrs["NX_class"] = "NXdispersion_function"
    text, single, rep = formula_of(c)
    h["formula"] = text.encode()
    h["representation"] = text.split("=")[0].strip().encode()
    h["wavelength_identifier"] = c["ident"].encode()
    h["wavelength_unit"] = 1
    h["wavelength_unit"].attrs["units"] = c["unit"]
    h["convention"] = b"n + ik"
    for i, (n, v) in enumerate(single.items()):
        q = h.create_group(n if i % 2 else f"param_{i}")
        q.attrs["NX_class"] = "NXdispersion_single_parameter"
        q["name"] = n.encode()
        q["value"] = v
    for i, (n, v) in enumerate(rep.items()):
        q = h.create_group(n if c["rep"] else f"rparam_{i}")
        q.attrs["NX_class"] = "NXdispersion_repeated_parameter"
        q["name"] = n.encode()
        q["values"] = np.array(v, float)


def component_values(c):
    if c["kind"].startswith("table"):
        l, z = ordered_table(c)
        o = np.argsort(l)
        return np.interp(LBDA, l[o], z[o].real) + 1j * np.interp(LBDA, l[o], z[o].imag)
    text, single, rep = formula_of(c)
    _, tree = Parser(text).assignment()
    return np.array([complex(ev(tree, Env(c["ident"], axis_value(x, c["unit"]), single, rep))) for x in LBDA])


def axis_eps(comps):
    z = sum(component_values(c) for c in comps)
    return z**2 if comps[0]["kind"] in INDEX else z


@st.composite
def axis(draw):
    kinds = draw(st.sampled_from([INDEX, EPS]))
    ks = draw(st.lists(st.sampled_from(kinds), min_size=1, max_size=3))
    out, tables = [], 0
    for k in ks:
        if k.startswith("table"):
            tables += 1
            if tables > 1:
                continue
        out.append(draw(component(k)))
    return out


@st.composite
def material_file(draw):
    entries = {}
    for n in draw(st.lists(st.sampled_from(["entry", "film", "substrate", "a1"]), min_size=1, max_size=2, unique=True)):
        axes = draw(st.sampled_from(["x", "xz", "xyz", "x"]))
        entries[n] = {a: draw(axis()) for a in axes}
    return {"entries": entries, "extra": draw(st.booleans())}


def write_materials(p, case):
    with h5py.File(p, "w") as f:
        for n, axes in case["entries"].items():
            for a, comps in axes.items():
                g = f.create_group(f"{n}/dispersion_{a}")
                g.attrs["NX_class"] = "NXdispersion"
                for i, c in enumerate(comps):
                    write_component(g, c, "abc"[i])
                if case["extra"]:
                    g["model_name"] = b"from somewhere"
                    h = g.create_group("plot")
                    h.attrs["NX_class"] = "NXdata"
                    h["refractive_index"] = np.ones(3)
                    h["wavelength"] = np.arange(1, 4.0)
                    g.create_group("reference")["text"] = b"A. Author"
            if case["extra"]:
                f[f"{n}/definition"] = b"NXdispersive_material"
                f[f"{n}/sample/chemical_formula"] = b"O2Si"


@P.sub("materials", material_file(), 700, 12000, 6)
def materials(case, t):
    with scratch() as p:
        write_materials(p, case)
        got = read_nexus_materials(p)
    require(set(got) == set(case["entries"]), f"entries {sorted(got)} of a file with {sorted(case['entries'])}")
    for n, axes in case["entries"].items():
        try:
            e = {a: axis_eps(comps) for a, comps in axes.items()}
        except Undefined:
            t.tag("undefined")
            return
        if any(np.max(abs(v)) > 1e8 for v in e.values()):
            return
        m = got[n]
        cls = {1: elli.IsotropicMaterial, 2: elli.UniaxialMaterial, 3: elli.BiaxialMaterial}[len(axes)]
        require(type(m) is cls, f"{n}: a file with axes {''.join(axes)} gives {type(m).__name__}")
        full = np.zeros((len(LBDA), 3, 3), complex)
        full[:, 0, 0] = e["x"]
        full[:, 1, 1] = e.get("y", e["x"])
        full[:, 2, 2] = e.get("z", e["x"])
        close(m.get_tensor(LBDA), full, 1e-7, 1e-9, f"{n}: permittivity from the file")
    comps = [c for axes in case["entries"].values() for a in axes.values() for c in a]
    t.nontrivial(any(len(a) > 1 for axes in case["entries"].values() for a in axes.values()) or any(len(axes) > 1 for axes in case["entries"].values()) or any(len(c.get("A", [])) > 1 for c in comps))
    t.tag(*{c["kind"] for c in comps}, *{c["unit"] for c in comps if "unit" in c}, *("energy table" for c in comps if c.get("energy")))


@P.sub(
    "invalid materials",
    st.tuples(
        st.sampled_from(["no dispersion_x", "no wavelength", "no values", "bad representation", "energy function", "mixed sum"]),
        component("table_n"), component("f_cauchy"), component("f_lorentz"), st.booleans(),
    ).map(list),
    120, 1500, 1,
)
def invalid(case, t):
    kind, tab, fn, fe, flip = case
    with scratch() as p:
        with h5py.File(p, "w") as f:
            g = f.create_group("entry/dispersion_z" if kind == "no dispersion_x" else "entry/dispersion_x")
            if kind == "mixed sum":
                write_component(g, tab if flip else fn, "a")
                write_component(g, fe, "b")
            elif kind in ("bad representation", "energy function"):
                write_component(g, fn, "a")
                h = g[next(iter(g))]
                if kind == "bad representation":
                    del h["representation"]
                    h["representation"] = b"sigma" if flip else b"N"
                else:
                    del h["wavelength_identifier"], h["wavelength_unit"]
                    h["energy_identifier"] = b"E"
                    h["energy_unit"] = 1
                    h["energy_unit"].attrs["units"] = "eV"
            else:
                write_component(g, tab, "a")
                h = g[next(iter(g))]
                if kind == "no wavelength":
                    del h["energy" if tab["energy"] else "wavelength"]
                if kind == "no values":
                    del h["refractive_index"]
        raises((ValueError, NotImplementedError, TypeError), lambda: read_nexus_materials(p), kind)
    t.nontrivial()
    t.tag(kind)
