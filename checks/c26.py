"""C26 - text measurement files."""
from vlib.core import Property, Violation, close, require
from vlib import gen
from vlib.gen import elli, fl, mix, st
import contextlib
import io
import logging
import os
import shutil
import tempfile
import numpy as np
import pandas as pd

P = Property(
    "C26",
    rule="a case is non-trivial if the file has at least two angles or at least two wavelengths and a written delta outside "
    "-180..180 or a format variant other than the plain one",
    assumptions=[
        "files are written in the layouts of the shipped examples: SpectraRay tables with one Psi/Delta column pair per angle, "
        "WVASE and CompleteEASE tables preceded by comment lines and a unit line, Accurion EP4 tables of one region of interest",
        "delta is mapped to -180..180 by the SpectraRay and Accurion importers and kept as written by the Woollam ones",
        "angles of a file are distinct, as are the wavelengths of one angle; comments are ASCII, UTF-8 or UTF-16 with byte order mark",
    ],
)
HC = 1239.841984332003
logging.getLogger("elli").setLevel(logging.CRITICAL)
logging.getLogger("elli.importer.woollam").setLevel(logging.CRITICAL)


@contextlib.contextmanager
def written(text, encoding="utf-8", name="measurement.txt", eol="\n"):
    d = tempfile.mkdtemp(prefix="verif_c26_")
    try:
        p = os.path.join(d, name)
        with open(p, "wb") as f:
            f.write(text.replace("\n", eol).encode(encoding))
        yield p
    finally:
        shutil.rmtree(d, ignore_errors=True)


def num(x, dec=5, comma=False):
    s = f"{x:.{dec}f}"
    return s.replace(".", ",") if comma else s


def wrap(d):
    return np.mod(np.asarray(d) + 180, 360) - 180


psi = mix([0.0, 45.0, 90.0], fl(0, 90, 5))
delta = mix([0.0, 180.0, -180.0, 359.99999, 270.0, -90.0, -0.5], fl(-180, 360, 5))
wls = st.lists(fl(190, 2500, 5), min_size=1, max_size=6, unique=True)
aois = st.lists(mix([50.0, 60.2, 70.0, 75.5], fl(20, 89, 3)), min_size=1, max_size=4, unique=True)
values = st.lists(st.tuples(psi, delta).map(list), min_size=24, max_size=24)
COMMENTS = ["SiO2 on Si", "", "Glas substrate with tape, AR high", "Probe Nr. 7 \u00b0 \u00b5m \u00c4\u00d6\u00fc", "2nm oxide"]


def check_table(df, exp, what, wrapped):
    """exp: {(aoi, wavelength): (psi, delta)}"""
    require(isinstance(df, pd.DataFrame), f"{what}: {type(df)}")
    require(list(df.index.names) == ["Angle of Incidence", "Wavelength"], f"{what}: index levels {list(df.index.names)}")
    require(set(df.columns) == {"Ψ", "Δ"} and df.shape[1] == 2, f"{what}: columns {list(df.columns)}")
    require(len(df) == len(exp), f"{what}: {len(df)} rows, {len(exp)} measured points")
    a = np.array(df.index.get_level_values("Angle of Incidence"), float)
    w = np.array(df.index.get_level_values("Wavelength"), float)
    require(df["Ψ"].dtype.kind == "f" and df["Δ"].dtype.kind == "f", f"{what}: dtypes {df.dtypes.to_dict()}")
    keys = sorted(exp)
    order = np.lexsort((w, a))
    close(a[order], [k[0] for k in keys], 1e-12, 0, f"{what}: angles")
    close(w[order], [k[1] for k in keys], 1e-9, 0, f"{what}: wavelengths in nm")
    p, d = df["Ψ"].to_numpy()[order], df["Δ"].to_numpy()[order]
    ep, ed = np.array([exp[k] for k in keys]).T
    close(p, ep, 0, 1e-9, f"{what}: psi")
    if wrapped:
        require(np.all(d >= -180 - 1e-9) and np.all(d <= 180 + 1e-9), f"{what}: delta outside -180..180: {d}")
        close(wrap(d - ed), np.zeros(len(d)), 0, 1e-7, f"{what}: delta")
    else:
        close(d, ed, 0, 1e-9, f"{what}: delta")


def check_rho(rho, df, what):
    e = np.tan(np.deg2rad(df["Ψ"].to_numpy())) * np.exp(-1j * np.deg2rad(df["Δ"].to_numpy()))
    require(list(rho.index) == list(df.index), f"{what}: index of rho")
    big = abs(e) < 1e6
    close(np.asarray(rho)[big], e[big], 1e-9, 1e-12, f"{what}: rho")


def interesting(case, exp, variant):
    return len(exp) > 1 and (variant or any(abs(d) > 180 for _, d in exp.values()))


many = st.fixed_dictionaries({"n": gen.big(20, 700), "angles": st.integers(1, 12), "seed": st.integers(0, 10**6), "order": st.sampled_from(["up", "down", "random"])})


def grown(case):
    """Replaces the compact description of a long measurement by its wavelengths, angles and values."""
    w = case["wl"]
    if not isinstance(w, dict):
        return case
    r = np.random.RandomState(w["seed"])
    n = w["n"] // (1 + (w["angles"] > 4))
    aoi = np.round(np.linspace(20.5, 88.5, w["angles"]) + r.uniform(0, 2, w["angles"]) - 1 * (w["angles"] > 30), 3)
    v = np.round(np.stack([r.uniform(0, 90, n * len(aoi)), r.uniform(-180, 360, n * len(aoi))], -1), 5)
    return dict(case, wl=gen.spread(n, w["seed"], 190, 2500, w["order"]).tolist(), aoi=r.permutation(aoi).tolist(), v=v.tolist())


# ----------------------------------------------------------------------------- SpectraRay
SEP = {"space": (" ", None), "tab": ("\t", "\t"), "semicolon": (";", ";"), "two spaces": ("  ", r"\s+"), "comma": (",", ",")}
ENC = ["utf-8", "utf-8-sig", "utf-16", "ascii"]


def sep_args(case):
    ch, arg = SEP[case["sep"]]
    kw = {}
    if arg is not None:
        kw["sep"] = arg
    if case["comma"]:
        kw["decimal"] = ","
    return ch, kw


spectra_variant = {
    "sep": st.sampled_from(["space", "space", *SEP]),
    "comma": st.booleans(),
    "trail": st.booleans(),
    "enc": st.sampled_from(ENC),
    "eol": st.sampled_from(["\n", "\r\n"]),
    "lasteol": st.booleans(),
}


@P.sub("spectraray", st.fixed_dictionaries({"aoi": aois, "wl": wls, "v": values, "order": st.sampled_from(["sorted", "as drawn"]), **spectra_variant}), 900, 15000, 4)
def spectraray(case, t):
    case = grown(case)
    if case["comma"] and case["sep"] == "comma":
        return
    ch, kw = sep_args(case)
    aoi = sorted(case["aoi"]) if case["order"] == "sorted" else case["aoi"]
    wl = sorted(case["wl"]) if case["order"] == "sorted" else case["wl"]
    comma = case["comma"]
    head = [";" if ch != ";" else "#", "WAVELENGTH"]
    for a in aoi:
        head += [num(a, 5, comma)] * 2
    end = ch if case["trail"] else ""
    exp, rows = {}, [ch.join(head)]
    for i, w in enumerate(wl):
        row = [num(w, 5, comma)]
        for j, a in enumerate(aoi):
            p, d = case["v"][(i * len(aoi) + j) % len(case["v"])]
            exp[(a, w)] = (p, d)
            row += [num(p, 5, comma), num(d, 5, comma)]
        rows.append(ch.join(row) + end)
    text = "\n".join(rows) + ("\n" if case["lasteol"] else "")
    t.tag(case["sep"], case["enc"], "decimal comma" if comma else None, f"{min(len(aoi), 5)} angles", "long" if len(exp) > 24 else None, case["order"])
    t.nontrivial(interesting(case, exp, comma or case["sep"] != "space" or case["enc"] != "utf-8"))
    with written(text, case["enc"], eol=case["eol"]) as f:
        df = elli.read_spectraray_psi_delta(f, **kw)
        check_table(df, exp, "SpectraRay file", True)
        check_rho(elli.read_spectraray_rho(f, **kw), df, "SpectraRay file")


P.sub("spectraray_long", st.fixed_dictionaries({"aoi": st.just(None), "wl": many, "v": st.just(None), "order": st.sampled_from(["sorted", "as drawn"]), **spectra_variant}), 60, 1200, 2)(spectraray)


MM = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]
mval = mix([1.0, 0.0, -1.0], fl(-1, 1, 5))


@P.sub("spectraray_mueller", st.fixed_dictionaries({"aoi": fl(20, 89, 3), "wl": wls, "m": st.lists(mval, min_size=96, max_size=96), **spectra_variant}), 600, 10000, 2)
def spectraray_mueller(case, t):
    if case["comma"] and case["sep"] == "comma":
        return
    ch, kw = sep_args(case)
    comma = case["comma"]
    rows = [ch.join([";" if ch != ";" else "#", "WAVELENGTH"] + [num(case["aoi"], 5, comma)] * 16)]
    end = ch if case["trail"] else ""
    m = np.array(case["m"]).reshape(6, 16)[: len(case["wl"])]
    for w, r in zip(case["wl"], m):
        rows.append(ch.join([num(w, 5, comma)] + [num(x, 5, comma) for x in r]) + end)
    t.tag(case["sep"], case["enc"], "decimal comma" if comma else None)
    t.nontrivial(len(case["wl"]) > 1)
    with written("\n".join(rows) + "\n", case["enc"], eol=case["eol"]) as f:
        df = elli.read_spectraray_mmatrix(f, **kw)
    require(df.index.name == "Wavelength" and list(df.columns) == MM, f"columns {list(df.columns)}, index {df.index.name}")
    close(np.array(df.index, float), case["wl"], 1e-12, 0, "wavelengths")
    close(df.to_numpy(float), m, 0, 1e-12, "Mueller matrix elements")


# -------------------------------------------------------------------------------- Woollam
UNITS = {
    "nm": lambda w: w,
    "Angstroms": lambda w: w / 10,
    "angstrom": lambda w: w / 10,
    "um": lambda w: w * 1000,
    "eV": lambda w: HC / w,
}
ADEQUATE = {"nm": (190, 2500), "Angstroms": (1900, 25000), "angstrom": (1900, 25000), "um": (0.2, 25), "eV": (0.5, 6.5)}
wcase = {
    "kind": st.sampled_from(["wvase", "complete_ease"]),
    "unit": st.sampled_from(list(UNITS)),
    "aoi": aois,
    "u": st.lists(st.integers(0, 1000), min_size=1, max_size=6, unique=True),
    "v": values,
    "err": st.lists(fl(0.0, 5, 6), min_size=6, max_size=6),
    "dec": st.integers(2, 7),
    "comments": st.lists(st.sampled_from(COMMENTS), min_size=1, max_size=3),
    "dpol": st.sampled_from([False, False, "end", "end", "mixed"]),
    "filler": st.sampled_from([0, 0, 0, 60, 300]),
    "enc": st.sampled_from(ENC),
    "eol": st.sampled_from(["\n", "\r\n"]),
    "lasteol": st.booleans(),
    "outer": st.sampled_from(["angle", "wavelength"]),
    "negative_first": st.booleans(),
}


def axis(case):
    lo, hi = ADEQUATE[case["unit"]]
    # distinct to within the written decimals
    return [round(lo + (hi - lo) * k / 1000, 3) for k in case["u"]]


def woollam_text(case):
    dec = max(case["dec"], 3)
    wl = axis(case)
    pts = [(a, w) for a in case["aoi"] for w in wl] if case["outer"] == "angle" else [(a, w) for w in wl for a in case["aoi"]]
    # (long headers: the first special character may come late)
    exp, rows = {}, ["Measurement log entry without any remark"] * case.get("filler", 0) + list(case["comments"])
    depol = []
    rows.append("VASEmethod[EllipsometerType=5, Isotropic, ZoneAve=1, Revs=50]")
    if case["kind"] == "wvase":
        rows.append("Original[glas_e1.dat]")
    rows.append(case["unit"])
    for i, (a, w) in enumerate(pts):
        p, d = case["v"][i % len(case["v"])]
        if i == 0 and case["negative_first"]:
            d = -abs(d)
        p, d = float(num(p, dec)), float(num(d, dec))
        exp[(float(num(a, dec)), UNITS[case["unit"]](float(num(w, dec))))] = (p, d)
        e = case["err"]
        row = [num(w, dec), num(a, dec), num(p, dec), num(d, dec), num(e[i % 6], dec), num(e[(i + 1) % 6], dec)]
        rows.append("\t".join((["E"] if case["kind"] == "complete_ease" else []) + row))
        depol.append("\t".join(["dpolE" if case["kind"] == "wvase" or i % 2 else "dPolE", num(w, 6), num(a, 6), num(-0.3 + 0.1 * i, 6), "0.978814"]))
        if case["dpol"] == "mixed":
            rows.append(depol[-1])
    if case["dpol"] in ("end", True):
        rows += depol
        if case["kind"] == "complete_ease":
            rows.insert(len(rows) - len(pts), "\t".join(["uR", num(wl[0], 6), num(pts[0][0], 6), "inf", "1.000000"]))
    return "\n".join(rows) + ("\n" if case["lasteol"] else ""), exp


@P.sub("woollam", st.fixed_dictionaries(wcase), 1200, 20000, 4)
def woollam(case, t):
    if case["enc"] == "ascii" and any(not c.isascii() for c in case["comments"]):
        return
    text, exp = woollam_text(case)
    t.tag(case["kind"], case["unit"], case["enc"], f"depolarisation rows: {case['dpol']}", "long header" if case["filler"] else None, f"{len(case['aoi'])} angles")
    t.nontrivial(interesting(case, exp, case["unit"] != "nm" or case["dpol"] or any(d < 0 for _, d in exp.values())))
    with written(text, case["enc"], eol=case["eol"], name="m.dat") as f:
        df = elli.read_woollam_psi_delta(f)
        check_table(df, exp, f"{case['kind']} file", False)
        check_rho(elli.read_woollam_rho(f), df, f"{case['kind']} file")


# ------------------------------------------------------------------------------- Accurion
@P.sub(
    "accurion",
    st.fixed_dictionaries(
        {"aoi": aois, "wl": wls, "v": values, "cols": st.permutations(["#ROIidx", "AOI", "Lambda", "Bandwidth", "ExposureTime", "ROI_x", "ROI_y", "Delta", "Psi"]),
         "micro": st.booleans(), "enc": st.sampled_from(["latin-1", "utf-8", "utf-8-sig"]), "eol": st.sampled_from(["\n", "\r\n"]), "shuffle": st.booleans(), "plain": st.booleans()}
    ),
    700,
    12000,
    3,
)
def accurion(case, t):
    case = grown(case)
    cols = ["#ROIidx", "AOI", "Lambda", "Bandwidth", "ExposureTime", "ROI_x", "ROI_y", "Delta", "Psi"] if case["plain"] else case["cols"]
    if case["enc"] == "latin-1" and not case["micro"]:
        return
    units = {"#ROIidx": "#-", "AOI": "deg", "Lambda": "nm", "Bandwidth": "nm", "ExposureTime": "us", "ROI_x": "\u00b5m" if case["micro"] else "um", "ROI_y": "\u00b5m" if case["micro"] else "um", "Delta": "deg", "Psi": "deg"}
    rows = ["\t".join(cols), "\t".join(units[c] for c in cols)]
    exp, data = {}, []
    for i, a in enumerate(case["aoi"]):
        for j, w in enumerate(case["wl"]):
            p, d = case["v"][(i * len(case["wl"]) + j) % len(case["v"])]
            exp[(a, w)] = (p, d)
            rec = {"#ROIidx": "0", "AOI": num(a, 3), "Lambda": num(w, 5), "Bandwidth": "6.1", "ExposureTime": "115908", "ROI_x": "417.6", "ROI_y": "409.8", "Delta": num(d, 6), "Psi": num(p, 6)}
            data.append("\t".join(rec[c] for c in cols))
    if case["shuffle"]:
        data = data[::-1]
    t.tag(case["enc"], "columns permuted" if cols[0] != "#ROIidx" else None, "reversed" if case["shuffle"] else None)
    t.nontrivial(interesting(case, exp, True))
    with written("\n".join(rows + data) + "\n", case["enc"], eol=case["eol"], name="x.ds.dat") as f:
        df = elli.read_accurion_psi_delta(f)
    check_table(df, exp, "Accurion file", True)


P.sub(
    "accurion_long",
    st.fixed_dictionaries(
        {"aoi": st.just(None), "wl": many, "v": st.just(None), "cols": st.permutations(["#ROIidx", "AOI", "Lambda", "Bandwidth", "ExposureTime", "ROI_x", "ROI_y", "Delta", "Psi"]),
         "micro": st.booleans(), "enc": st.sampled_from(["latin-1", "utf-8", "utf-8-sig"]), "eol": st.sampled_from(["\n", "\r\n"]), "shuffle": st.booleans(), "plain": st.booleans()}
    ),
    60,
    1200,
    2,
)(accurion)


def woollam_long(case, t):
    """Many angles and wavelengths, in either order, with and without depolarisation rows."""
    g = grown({"wl": case["wl"]})
    r = np.random.RandomState(case["wl"]["seed"])
    u = np.sort(r.choice(1001, min(len(g["wl"]), 900), replace=False))
    woollam(dict(case, u=(u if case["wl"]["order"] == "up" else u[::-1] if case["wl"]["order"] == "down" else r.permutation(u)).tolist(), aoi=g["aoi"], v=g["v"]), t)


P.sub("woollam_long", st.fixed_dictionaries({**{k: v for k, v in wcase.items() if k not in ("u", "aoi", "v")}, "wl": many}), 60, 1200, 2)(woollam_long)


# ------------------------------------------------------------------------ unsupported files
def must_fail(fn, f, what):
    try:
        r = fn(f)
    except Exception as e:  # noqa: BLE001
        if isinstance(e, (MemoryError, RecursionError)):
            raise Violation(f"{what}: {e!r}") from e
        return e
    raise Violation(f"{what} was read as a table of shape {np.shape(r)}: {str(r)[:200]}")


junk_lines = st.lists(st.text(alphabet="abcXYZ ,;:%()-#", max_size=30), min_size=0, max_size=8)


@P.sub(
    "unsupported",
    st.fixed_dictionaries({"what": st.sampled_from(["trig", "text", "empty", "other instrument", "no psi", "no delta", "spectra as woollam"]), "text": junk_lines, "kind": st.sampled_from(["psi_delta", "rho"]), "unit": st.sampled_from(["nm", "Angstroms"]), **{k: wcase[k] for k in ("aoi", "v")}, "wl": wls}),
    500,
    8000,
    2,
)
def unsupported(case, t):
    w = case["what"]
    t.tag(w)
    t.nontrivial(w != "empty")
    woo = elli.read_woollam_psi_delta if case["kind"] == "psi_delta" else elli.read_woollam_rho
    if w == "trig":
        lines = [*(["SiO2 on Si"] + case["text"]), f"{case['unit']}  TRIG"] + [f"{x:.0f} {a:.0f}  .245    .123" for a in case["aoi"] for x in case["wl"]]
        with written("\n".join(lines), name="trig.dat") as f:
            e = must_fail(woo, f, "WVASE Tan(Psi)/Cos(Delta) file")
            require(isinstance(e, NotImplementedError), f"Tan(Psi)/Cos(Delta) file raised {e!r}")
    elif w in ("text", "empty"):
        with written("" if w == "empty" else "\n".join(["some text"] + case["text"]) + "\n") as f:
            e = must_fail(woo, f, "text without data")
            if w == "text":
                require(isinstance(e, ValueError), f"text without data raised {e!r}")
            must_fail(elli.read_spectraray_psi_delta, f, "text without data (SpectraRay)")
            must_fail(elli.read_accurion_psi_delta, f, "text without data (Accurion)")
    elif w == "other instrument":
        c = {"kind": "wvase", "unit": case["unit"], "aoi": case["aoi"], "u": [0, 100, 200], "v": case["v"], "err": [0.1] * 6, "dec": 6, "comments": ["SiO2 on Si"], "dpol": False, "lasteol": True, "outer": "angle", "negative_first": False}
        for k in ("wvase", "complete_ease"):
            with written(woollam_text(dict(c, kind=k))[0], name="m.dat") as f:
                for fn in (elli.read_spectraray_psi_delta, elli.read_spectraray_mmatrix, elli.read_accurion_psi_delta):
                    must_fail(fn, f, f"{k} file given to {fn.__name__}")
    elif w in ("no psi", "no delta"):
        missing = "Psi" if w == "no psi" else "Delta"
        cols = [c for c in ["#ROIidx", "AOI", "Lambda", "Delta", "Psi"] if c != missing]
        rows = ["\t".join(cols), "\t".join(["#-", "deg", "nm", "deg"])]
        for a in case["aoi"]:
            for x in case["wl"]:
                rows.append("\t".join(["0", num(a, 3), num(x, 5), num(case["v"][0][0])]))
        with written("\n".join(rows) + "\n") as f:
            must_fail(elli.read_accurion_psi_delta, f, f"Accurion file without {missing}")
    else:
        rows = ["; WAVELENGTH " + " ".join([num(case["aoi"][0])] * 2)] + [f"{num(x)} {num(case['v'][0][0])} {num(case['v'][0][1])}" for x in case["wl"]]
        with written("\n".join(rows) + "\n") as f:
            must_fail(woo, f, "SpectraRay file given to the Woollam importer")
            must_fail(elli.read_accurion_psi_delta, f, "SpectraRay file given to the Accurion importer")


# --------------------------------------------------------------------------- scale_to_nm
@P.sub("scale_to_nm", st.fixed_dictionaries({"unit": st.sampled_from([*UNITS, "parsec furlong", "kg", "seconds", "m", "pm"]), "aoi": aois, "u": st.lists(fl(0.5, 5000, 4), min_size=1, max_size=6, unique=True), "str": st.booleans()}), 600, 10000, 2)
def scale(case, t):
    idx = pd.MultiIndex.from_product([case["aoi"], case["u"]], names=["Angle of Incidence", "Wavelength"])
    n = len(idx)
    df = pd.DataFrame({"Ψ": np.arange(n, dtype=float), "Δ": np.arange(n)[::-1].astype(float)}, index=idx)
    t.tag(case["unit"])
    t.nontrivial(n > 1)
    out = elli.scale_to_nm(case["unit"], df)
    ref = {**UNITS, "m": lambda w: w * 1e9, "pm": lambda w: w / 1e3}.get(case["unit"], lambda w: w)
    close(np.array(out.index.get_level_values(1), float), [ref(w) for _, w in idx], 1e-9, 0, f"wavelengths given in {case['unit']}")
    close(np.array(out.index.get_level_values(0), float), [a for a, _ in idx], 0, 0, "angles")
    require(np.array_equal(out["Ψ"], np.arange(n)) and np.array_equal(out["Δ"], np.arange(n)[::-1]), "values changed")


@P.sub("large", st.fixed_dictionaries({"kind": st.sampled_from(["wvase", "complete_ease"]), "n": st.integers(4000, 9000), "unit": st.sampled_from(["nm", "Angstroms"])}), 6, 60, 3)
def large(case, t):
    """Files which are read in several chunks."""
    n = case["n"]
    wl = np.round(np.linspace(200, 2000, n), 4)
    rows = ["big", "VASEmethod[]", case["unit"]]
    exp = {}
    pre = ["E"] if case["kind"] == "complete_ease" else []
    for a in (60.0, 70.0):
        for i, w in enumerate(wl):
            p, d = (i % 90) + 0.25, (i % 350) + 0.5
            rows.append("\t".join([*pre, num(w, 6), num(a, 6), num(p, 6), num(d, 6), "0.100000", "0.200000"]))
            exp[(a, float(w) / (1 if case["unit"] == "nm" else 10))] = (p, d)
    for i, w in enumerate(wl):
        rows.append("\t".join(["dpolE", num(w, 6), "60.000000", "-0.300000", "0.978814"]))
    t.nontrivial()
    t.tag(case["kind"])
    with written("\n".join(rows), name="m.dat") as f:
        check_table(elli.read_woollam_psi_delta(f), exp, f"large {case['kind']} file", False)
