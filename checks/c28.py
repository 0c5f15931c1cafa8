"""C28 - refractiveindex.info database."""
import contextlib
import importlib
import pathlib
import shutil
import sys
import tempfile

from vlib.core import Property, close, raises, require
from vlib.gen import elli, fl, mix, st
import elli.database
import numpy as np
import pandas as pd
import yaml
from rapidfuzz import fuzz

P = Property(
    "C28",
    rule="a case is non-trivial if the catalogue has at least two entries and dividers, an entry without author, or a "
    "query that matches some but not all entries; for entries, if it holds a formula with at least two terms or several parts",
    assumptions=[
        "catalogues and entries in the YAML layout of refractiveindex.info, written to a scratch directory in place of the "
        "database submodule (not available here)",
        "file texts are ASCII or UTF-8",
        "wavelengths are inside the tabulated ranges and away from poles of the formulas",
        "the range of an entry with several ranges is the first one; approximate search only has to find exact matches and "
        "to omit entries without similarity",
    ],
)


@contextlib.contextmanager
def database(catalog, files):
    """A scratch directory in place of the database submodule, found as the package data of elli.database."""
    top = pathlib.Path(tempfile.mkdtemp(prefix="verif_c28_"))
    d = top / "refractiveindexinfo-database" / "database"
    try:
        d.mkdir(parents=True)
        (d / "catalog-nk.yml").write_text(catalog, encoding="utf8")
        for name, text in files.items():
            p = d / "data" / name
            p.parent.mkdir(parents=True, exist_ok=True)
            p.write_text(text, encoding="utf8")
        elli.database.__path__.insert(0, str(top))
        forget()
        yield elli.db.RII()
    finally:
        elli.database.__path__[:] = [x for x in elli.database.__path__ if x != str(top)]
        forget()
        shutil.rmtree(top, ignore_errors=True)


def forget():
    importlib.invalidate_caches()
    for name in [x for x in sys.modules if x.startswith("elli.database.refractiveindexinfo-database")]:
        del sys.modules[name]
    for name in list(vars(elli.database)):
        if name.startswith("refractiveindexinfo-database"):
            delattr(elli.database, name)


# --------------------------------------------------------------------------- catalogue
AUTHORS = ["Johnson and Christy", "Aspnes and Studna", "Malitson", "Ciesielski et al.", "Palik", "Zemax 2 team", "Müller"]
COMM = ["Thin film", "300 K", "n(o)", "Crystalline; doped", "20 °C", "fit 3.5"]
DIV = ["Ag - Silver", "Experimental data", "Models", "Glasses: crown"]
BOOKS = ["Ag", "SiO2", "Au", "BK7", "TiO2", "GaAs"]
LONG = ["Ag (Silver)", "SiO2 (Silica)", "Au (Gold)", "BK7 glass", "Titania", "Gallium arsenide"]
PAGES = ["Johnson", "Aspnes", "Malitson-o", "Malitson-e", "Palik", "N-BK7", "Rakic-LD", "film1"]


@st.composite
def page_name(draw):
    if draw(st.integers(0, 4)) == 0:
        return {"text": draw(st.sampled_from(["Sellmeier fit", "Unknown author: n 0.2 to 1", "1984", "Glass data (catalogue)"]))}
    a, y = draw(st.sampled_from(AUTHORS)), draw(st.integers(1880, 2023))
    ysuf = draw(st.sampled_from(["", "", "", "a", " (rev)"]))
    c1 = draw(st.sampled_from([None, None, *COMM]))
    c2 = draw(st.sampled_from([None, None, *COMM]))
    sep = draw(st.sampled_from(["–", "-"]))
    num = lambda x: draw(st.sampled_from([f"{x:g}", f"{x:.3f}"]))  # noqa: E731
    lo = draw(fl(0.01, 5, 3))
    hi = lo + draw(fl(0.1, 20, 3))
    typ = draw(st.sampled_from(["n,k", "n", "k"]))
    slo, shi = num(lo), num(hi)
    text = f"{a} {y}{ysuf}: " + (f"{c1}; " if c1 else "") + f"{typ} {slo}{sep}{shi} µm"
    if draw(st.integers(0, 3)) == 0:
        text += f", k {num(lo + 0.5)}{sep}{num(hi + 7)} µm"
    if c2:
        text += f"; {c2}"
    return {"text": text, "author": a, "year": y, "comment": " ".join(x for x in (c1, c2) if x), "lo": float(slo) * 1000, "hi": float(shi) * 1000}


@st.composite
def catalogue(draw):
    pairs = draw(st.lists(st.tuples(st.integers(0, 5), st.integers(0, 7)), min_size=1, max_size=7, unique=True))
    shelves = []
    for sname in ["main", "glass"][: draw(st.integers(1, 2))]:
        shelves.append({"SHELF": sname, "name": sname.upper() + " shelf", "content": []})
    for b, p in pairs:
        sh = draw(st.sampled_from(shelves))
        book = next((x for x in sh["content"] if x.get("BOOK") == BOOKS[b]), None)
        if book is None:
            if draw(st.integers(0, 2)) == 0:
                sh["content"].append({"DIVIDER": draw(st.sampled_from(DIV))})
            book = {"BOOK": BOOKS[b], "name": LONG[b], "content": []}
            sh["content"].append(book)
        if draw(st.integers(0, 2)) == 0:
            book["content"].append({"DIVIDER": draw(st.sampled_from(DIV))})
        book["content"].append({"PAGE": PAGES[p], "name": draw(page_name()), "data": f"{sh['SHELF']}/{BOOKS[b]}/{PAGES[p]}.yml"})
    out = shelves
    if draw(st.booleans()):
        out = [{"DIVIDER": "top"}, *shelves]
    return out


def rows(cat):
    """Expected catalogue rows in file order."""
    out = []
    for sh in cat:
        if "DIVIDER" in sh:
            continue
        bdiv = None
        for b in sh["content"]:
            if "DIVIDER" in b:
                bdiv = b["DIVIDER"]
                continue
            pdiv = None
            for p in b["content"]:
                if "DIVIDER" in p:
                    pdiv = p["DIVIDER"]
                    continue
                i = p["name"]
                known = "author" in i
                out.append({
                    "shelf": sh["SHELF"], "shelf_longname": sh["name"], "book_divider": bdiv, "book": b["BOOK"], "book_longname": b["name"],
                    "page": p["PAGE"], "page_type": pdiv, "author": i.get("author"), "year": i.get("year"),
                    "comment": i["comment"] if known else i["text"], "lower_range": i.get("lo"), "upper_range": i.get("hi"),
                })
    return out


def catalog_yaml(cat):
    def conv(x):
        if isinstance(x, list):
            return [conv(v) for v in x]
        if isinstance(x, dict):
            return {k: (v["text"] if k == "name" and isinstance(v, dict) else conv(v)) for k, v in x.items()}
        return x
    return yaml.safe_dump(conv(cat), allow_unicode=True, sort_keys=False)


def same(a, b):
    return (b is None and pd.isna(a)) or (b is not None and not pd.isna(a) and a == b)


TEXTCOLS = ["shelf", "shelf_longname", "book_divider", "book", "book_longname", "page", "page_type", "author", "comment"]
FUZZY = ["book_divider", "book", "book_longname", "page", "author", "comment"]
query = st.sampled_from([*BOOKS, *LONG, *PAGES, *AUTHORS, *COMM, *DIV, "main", "Silver", "Jonson", "zzz", ""])


@P.sub(
    "catalogue and search",
    st.fixed_dictionaries({
        "cat": catalogue(),
        "queries": st.lists(
            st.tuples(
                st.one_of(query, st.lists(query, min_size=1, max_size=3)),
                st.one_of(st.just("all"), st.sampled_from(TEXTCOLS), st.lists(st.sampled_from(TEXTCOLS), min_size=1, max_size=3, unique=True)),
                st.one_of(st.none(), fl(10, 8000, 1), st.integers(10, 8000), st.lists(fl(10, 8000, 1), max_size=3)),
                st.booleans(),
            ).map(list),
            min_size=1, max_size=6,
        ),
        "edge": st.booleans(),
    }),
    500, 6000, 6,
)
def search(case, t):
    exp = rows(case["cat"])
    if case["edge"]:  # a bound of a range is inside
        for q in case["queries"]:
            r = next((r for r in exp if r["lower_range"] is not None), None)
            if r is not None and isinstance(q[2], float):
                q[2] = r["lower_range"] if q[2] < 4000 else r["upper_range"]
    partial = False
    with database(catalog_yaml(case["cat"]), {}) as db:
        c = db.catalog
        require(len(c) == len(exp), f"{len(c)} catalogue rows, {len(exp)} entries")
        for i, r in enumerate(exp):
            for k, v in r.items():
                got = c.iloc[i][k]
                if k.endswith("range") and v is not None:
                    require(not pd.isna(got), f"row {i}: {k} is missing, expected {v}")
                    close(got, v, 1e-12, 0, f"row {i}: {k} in nm")
                else:
                    require(same(got, v), f"row {i}: {k} is {got!r}, expected {v!r}")
        before = c.copy(deep=True)
        for q, col, wf, fz in case["queries"]:
            qs = [q] if isinstance(q, str) else q
            wanted_cols = TEXTCOLS if col == "all" and not fz else FUZZY if col == "all" else [col] if isinstance(col, str) else col
            if fz:
                wanted_cols = [k for k in wanted_cols if k in FUZZY]
                if col != "all":
                    if not wanted_cols:
                        continue
                    col = wanted_cols if len(wanted_cols) > 1 else wanted_cols[0]
            res = db.search(q, col, wf, fz)
            got = list(zip(res["book"], res["page"]))
            require(len(set(got)) == len(got), f"search {q!r} lists an entry twice")
            wls = [] if wf is None else [wf] if isinstance(wf, (int, float)) else wf
            inrange = [r for r in exp if not wls or (r["lower_range"] is not None and all(r["lower_range"] * (1 - 1e-12) <= w <= r["upper_range"] * (1 + 1e-12) for w in wls))]
            must = [(r["book"], r["page"]) for r in inrange if any(r[k] is not None and r[k] == x for k in wanted_cols for x in qs)]
            what = f"search({q!r}, {col!r}, {wf!r}, fuzzy={fz})"
            edge = any(abs(w - r[b]) < 1e-9 * w for w in wls for r in exp for b in ("lower_range", "upper_range") if r[b] is not None)
            if fz:
                may = [(r["book"], r["page"]) for r in inrange if any(r[k] is not None and (fuzz.WRatio(x, r[k]) >= 60) for k in wanted_cols for x in qs)]
                if "" in qs:
                    must = []
                if not edge:
                    require(set(must) <= set(got), f"{what}: {sorted(set(must) - set(got))} not found")
                require(set(got) <= set(may), f"{what}: {sorted(set(got) - set(may))} found without similarity or outside the range")
            else:
                if edge:
                    require(set(got) <= set(must), f"{what}: {got}, expected {must}")
                    # scaling the range to nm may round: accept either side only within rounding
                    strict = [r for r in must if r not in got]
                    for b, p_ in strict:
                        r = next(r for r in exp if (r["book"], r["page"]) == (b, p_))
                        row = c[(c["book"] == b) & (c["page"] == p_)].iloc[0]
                        require(any(w < row["lower_range"] or w > row["upper_range"] for w in wls), f"{what}: {b} {p_} with range {r['lower_range']}-{r['upper_range']} not found")
                else:
                    require(got == must, f"{what}: {got}, expected {must}")
            partial |= 0 < len(got) < len(exp)
            t.tag("fuzzy" if fz else "exact", "wavelength filter" if wls else "")
        pd.testing.assert_frame_equal(c, before)
        raises(ValueError, lambda: db.search("Ag", wavelength_filter="500"), "a string as wavelength filter")
        raises(ValueError, lambda: db.get_dispersion("no such book", exp[0]["page"]), "unknown book")
        raises(ValueError, lambda: db.get_mat(exp[0]["book"], "no such page"), "unknown page")
    t.nontrivial(partial or (len(exp) > 1 and any(r["author"] is None or r["book_divider"] for r in exp)))


# ------------------------------------------------------------------------------ entries
LB = np.array([405.0, 532.0, 632.8, 700.1, 990.0])


@st.composite
def part(draw, kind):
    if kind.startswith("tabulated"):
        m = draw(st.integers(2, 6))
        w = [0.4] + draw(st.lists(fl(0.401, 0.999, 4), min_size=m - 2, max_size=m - 2, unique=True)) + [1.0]
        if draw(st.booleans()):
            w.sort(reverse=draw(st.booleans()))
        out = {"type": kind, "w": w, "sp": draw(st.sampled_from([" ", "  ", "\t"])), "fmt": draw(st.sampled_from(["f", "g", "e"]))}
        if "n" in kind.split()[1]:
            out["n"] = draw(st.lists(fl(0.1, 4, 4), min_size=m, max_size=m))
        if "k" in kind.split()[1]:
            out["k"] = draw(st.lists(mix([0.0], fl(0, 5, 4)), min_size=m, max_size=m))
        return out
    f = int(kind[-1])
    c = [draw(mix([0.0, 1.0], fl(0, 3, 4)))]
    if f in (1, 2):
        for _ in range(draw(st.integers(0, 4))):
            c += [draw(fl(-1, 2, 4)), draw(st.one_of(fl(0.01, 0.3, 4), fl(2, 20, 3), fl(-2, -0.1, 3)))]
    elif f in (3, 5):
        for _ in range(draw(st.integers(0, 4))):
            c += [draw(fl(-0.5, 0.5, 4)), draw(st.one_of(st.sampled_from([2, -2, -4, 4, -6, 1, 0]), fl(-3, 3, 2)))]
    else:
        n4 = draw(st.integers(0, 2))
        for _ in range(n4):
            c += [draw(fl(0, 2, 4)), draw(st.sampled_from([0, 2, 1, 1.5])), draw(fl(0.01, 0.35, 4)), draw(st.sampled_from([1, 2, 1.5]))]
        if n4 == 2:
            for _ in range(draw(st.integers(0, 3))):
                c += [draw(fl(-0.5, 0.5, 4)), draw(st.sampled_from([2, -2, -4, 4, 1, 0.5]))]
    if len(c) > 4 and draw(st.integers(0, 3)) == 0:  # equal coefficients in different terms
        step = 4 if f == 4 and len(c) <= 9 else 2
        i, j = draw(st.integers(0, step - 1)), draw(st.integers(1, max((len(c) - 1) // step - 1, 1)))
        if 1 + i + step * j < len(c) and not (f == 4 and len(c) > 9):
            c[1 + i + step * j] = c[1 + i]
            if draw(st.booleans()):
                c[1 + step * j : 1 + step * (j + 1)] = c[1 : 1 + step]
    return {"type": kind, "c": c, "ws": draw(st.sampled_from([" ", " ", " ", "  "]))}


KINDS = ["tabulated nk", "tabulated n", "formula 1", "formula 2", "formula 3", "formula 4", "formula 5"]


@st.composite
def entry(draw):
    k = draw(st.sampled_from(KINDS))
    parts = [draw(part(k))]
    if k != "tabulated nk" and draw(st.booleans()):
        parts.insert(draw(st.integers(0, 1)), draw(part("tabulated k")))
    if draw(st.integers(0, 7)) == 0:
        parts.insert(draw(st.integers(0, len(parts))), draw(part(draw(st.sampled_from(KINDS[2:])))))
    return {
        "parts": parts,
        "ref": draw(st.sampled_from(["P. B. Johnson, R. W. Christy. Optical constants, Phys. Rev. B 6, 4370 (1972)", "M. Müller, Größe der Überschichten – Straße, Zürich (1999), München"])),
        "com": draw(st.sampled_from(["Room temperature", "Fused silica, 20 °C – “measured”", "see below"])),
        "scalar": draw(st.booleans()),
    }


def entry_yaml(e):
    lines = [f'REFERENCES: "{e["ref"]}"', f'COMMENTS: "{e["com"]}"', "DATA:"]
    for p in e["parts"]:
        lines.append(f"  - type: {p['type']}")
        if "w" in p:
            lines.append("    data: |")
            f = {"f": "{:.6f}", "g": "{!r}", "e": "{:.6E}"}[p["fmt"]]
            for i, w in enumerate(p["w"]):
                lines.append("        " + p["sp"].join(f.format(v) for v in [w] + [p[k][i] for k in "nk" if k in p]))
        else:
            lines.append("    wavelength_range: 0.3 1.2")
            lines.append("    coefficients: " + p["ws"].join(repr(v) for v in p["c"]))
    lines.append("SPECS:\n    n_is_absolute: true")
    return "\n".join(lines) + "\n"


def part_index(p, lb):
    """Index contribution and a flag whether values are well conditioned."""
    x = lb / 1000
    if "w" in p:
        o = np.argsort(p["w"])
        w = np.array(p["w"])[o]
        z = np.zeros(len(x), complex)
        if "n" in p:
            z += np.interp(x, w, np.array(p["n"])[o])
        if "k" in p:
            z += 1j * np.interp(x, w, np.array(p["k"])[o])
        return z, True
    c, f = p["c"], int(p["type"][-1])
    rest = list(zip(c[1::2], c[2::2]))
    ok = True
    if f in (1, 2):
        e = 1 + c[0] + 0 * x
        for a, b in rest:
            b = b * b if f == 1 else b
            ok &= bool(np.all(abs(x**2 - b) > 1e-3))
            e = e + a * x**2 / (x**2 - b)
    elif f == 3:
        e = c[0] + sum((a * x**b for a, b in rest), 0 * x)
    elif f == 4:
        e = c[0] + 0 * x
        for i in (1, 5):
            if len(c) > i + 3:
                a, e1, b, e2 = c[i : i + 4]
                ok &= bool(np.all(abs(x**2 - b**e2) > 1e-3))
                e = e + a * x**e1 / (x**2 - b**e2)
        for a, b in zip(c[9::2], c[10::2]):
            e = e + a * x**b
    else:
        return c[0] + sum((a * x**b for a, b in rest), 0 * x) + 0j, True
    ok &= bool(np.all(abs(e) > 1e-3))
    return np.sqrt(e + 0j), ok


PLAIN = ["Sellmeier fit", "1984", "Glass data (catalogue)", "Baz 2001: n,k 0.3-2 µm"]


@P.sub("entries", st.fixed_dictionaries({"e": entry(), "other": entry(), "names": st.lists(st.sampled_from([None, *PLAIN]), min_size=2, max_size=2), "sub": st.sampled_from(["main/X/p.yml", "./main/X/p.yml", "main/X/../X/p.yml"])}), 700, 10000, 6)
def entries(case, t):
    e = case["e"]
    cat = [{"SHELF": "main", "name": "MAIN", "content": [{"BOOK": "X", "name": "X long", "content": [
        {"PAGE": "first", "name": {"text": "Foo 1999: n 0.4–1 µm"}, "data": case["sub"]},
        {"PAGE": "second", "name": {"text": "Bar 1998: n 0.4–1 µm"}, "data": "main/X/q.yml"},
        {"PAGE": "bad", "name": {"text": "Bar 1997: n 0.4–1 µm"}, "data": "main/X/r.yml"},
        {"PAGE": "twice", "name": {"text": "Foo 1996: n 0.4–1 µm"}, "data": "main/X/q.yml"}]},
        {"BOOK": "Y", "name": "X long", "content": [{"PAGE": "first", "name": {"text": "Foo 1999: n 0.4–1 µm"}, "data": "main/X/q.yml"}]}]},
        {"SHELF": "other", "name": "OTHER", "content": [
            {"BOOK": "Y", "name": "Y long", "content": [{"PAGE": "second", "name": {"text": "Foo 1999: n 0.4–1 µm"}, "data": case["sub"]}]},
            {"BOOK": "X", "name": "X again", "content": [{"PAGE": "twice", "name": {"text": "Foo 1996: n 0.4–1 µm"}, "data": case["sub"]}]}]}]
    for page, name in zip(cat[0]["content"][0]["content"], case["names"]):
        if name:  # listed with other texts, also ones that are not taken apart
            page["name"] = {"text": name}
    bad = entry_yaml(case["other"]).replace("type: tabulated", "type: tabular").replace("type: formula ", "type: formula 1")
    lb = float(LB[2]) if e["scalar"] else LB
    with database(catalog_yaml(cat), {"main/X/p.yml": entry_yaml(e), "main/X/q.yml": entry_yaml(case["other"]), "main/X/r.yml": bad}) as db:
        for book, page, ent in (("X", "first", e), ("X", "second", case["other"]), ("Y", "first", case["other"]), ("Y", "second", e), ("X", "first", e)):
            zs = [part_index(p, LB) for p in ent["parts"]]
            n = sum(z for z, _ in zs)
            if all(p["type"] in KINDS[2:6] for p in ent["parts"]):  # permittivities add up, otherwise indices
                n = np.sqrt(sum(z**2 for z, _ in zs))
            if not all(ok for _, ok in zs) or np.min(abs(n)) < 1e-4:
                t.tag("ill conditioned")
                continue
            d = db.get_dispersion(book, page)
            want = n[2] if e["scalar"] else n
            what = " + ".join(p["type"] for p in ent["parts"])
            shape = np.shape(want)  # constants may come as one number
            close(np.broadcast_to(d.get_refractive_index(lb), shape), want, 1e-9, 1e-10, f"index of {what}")
            close(np.broadcast_to(d.get_dielectric(lb), shape), want**2, 1e-9, 1e-9, f"permittivity of {what}")
            m = db.get_mat(book, page)
            require(isinstance(m, elli.IsotropicMaterial), f"get_mat returns {type(m).__name__}")
            close(m.get_tensor(LB), (n**2)[:, None, None] * np.eye(3), 1e-9, 1e-9, f"material of {what}")
            t.tag(*(p["type"] for p in ent["parts"]))
        require(db.get_reference("X", "first") == e["ref"], f"reference {db.get_reference('X', 'first')!r} of {e['ref']!r}")
        require(db.get_comment("X", "first") == e["com"], f"comment {db.get_comment('X', 'first')!r} of {e['com']!r}")
        require(db.get_reference("Y", "first") == case["other"]["ref"] and db.get_comment("Y", "second") == e["com"], "texts of another book's entry")
        raises(ValueError, lambda: db.get_dispersion("X", "bad"), "an unsupported entry type")
        for f in (db.get_dispersion, db.get_mat, db.get_reference, db.get_comment):
            raises(ValueError, lambda f=f: f("X", "twice"), "book and page that name two entries")
            raises(ValueError, lambda f=f: f("Y", "bad"), "a page of another book")
    t.nontrivial(len(e["parts"]) > 1 or len(e["parts"][0].get("c", [])) > 3)
