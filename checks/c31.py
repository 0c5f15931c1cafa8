"""C31 - plots and Mueller matrix tables."""
from vlib.core import Property, close, raises, require
from vlib import rich
from vlib.gen import elli, fl, mix, st
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from elli.fitting.decorator_mmatrix import mmatrix_to_dataframe
from elli.plot import draw_structure, plot_mmatrix
from elli.plot.structure import get_index_profile

P = Property(
    "C31",
    rule="a case is non-trivial if the structure has at least two slices of different index and non-zero thickness, or the "
    "plot or table has at least two wavelengths and distinct matrix elements",
    assumptions=[
        "the drawn line or cells are compared; of the axis limits only that the depth axis increases and contains the whole profile",
        "Mueller tables have the 16 columns M11 to M44 in this order; grid plots hold all 16 elements",
    ],
)

unit = st.tuples(fl(-1, 1, 3), fl(-1, 1, 3), fl(-1, 1, 3)).filter(lambda v: np.hypot(np.hypot(*v[:2]), v[2]) > 0.1)
direction = st.one_of(st.none(), st.sampled_from([[1, 0, 0], [0, 1, 0], [0, 0, 1]]), unit.map(list))


def reference(spec, lb):
    """[(thickness, tensor)] with infinite half spaces at both ends."""
    exp = [(np.inf, rich.ref_tensor(spec["front"], lb))]
    for la in spec["layers"]:
        exp += rich.ref_profile(la, lb)
    exp.append((np.inf, rich.ref_tensor(spec["back"], lb)))
    return [(d, np.asarray(e).reshape(-1, 3, 3)[0]) for d, e in exp]


@P.sub(
    "structure plots",
    st.fixed_dictionaries({
        "s": rich.shared(rich.structure(4, 2)),
        "lbda": rich.wavelengths(1, 1),
        "default": st.booleans(),
        "method": st.sampled_from(["graph", "graph", "section"]),
        "margin": st.one_of(st.none(), fl(0.01, 0.9, 2)),
        "v": direction,
    }),
    500, 8000, 8,
)
def structures(case, t):
    spec = case["s"]
    lb = 1000.0 if case["default"] else case["lbda"][0]
    if rich.singular(spec, [lb]) or sum(rich.count(x) for x in spec["layers"]) > 120:
        return
    try:
        ref = reference(spec, lb)
    except ValueError:
        return  # outside of a table
    if not all(np.all(np.isfinite(e)) for _, e in ref):
        return
    s = rich.build_structure(spec)

    def index(v):
        v = np.asarray(v, float)
        return np.array([np.sqrt(v @ e @ v + 0j) for _, e in ref])

    # index profile in any direction
    v = case["v"]
    if v is not None:
        v = list(np.array(v, float) / np.linalg.norm(v))
    got = get_index_profile(s, lb) if v is None else get_index_profile(s, lb, np.array(v))
    want = index([1, 0, 0] if v is None else v)
    require(len(got) == len(ref), f"index profile: {len(got)} entries, expected {len(ref)}")
    for i, ((d, n), (dr, _)) in enumerate(zip(got, ref)):
        if np.isinf(dr):
            require(np.isinf(d), f"index profile: entry {i} has thickness {d}")
        else:
            close(d, dr, 1e-12, 1e-12, f"index profile: thickness {i}")
        close(np.asarray(n) ** 2, want[i] ** 2, 1e-6, 1e-8, f"index profile: squared index of entry {i}")
    # drawn profile
    nx = index([1, 0, 0])
    kw = {} if case["margin"] is None else {"margin": case["margin"]}
    args = () if case["default"] else (lb,)
    ax = draw_structure(s, *args, method=case["method"], **kw) if case["method"] == "section" or kw else draw_structure(s, *args)
    try:
        d = np.array([x for x, _ in ref[1:-1]])
        edges = np.concatenate([[0.0], np.cumsum(d)])
        total = edges[-1]
        m = (0.15 if case["margin"] is None else case["margin"]) * total if total > 0 else 1e-6
        if case["method"] == "graph":
            line = ax.lines[0]
            z, n = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
            ds = line.get_drawstyle()
            require(ds in ("default", "steps-post", "steps-pre", "steps"), f"draw style {ds}")

            def drawn(x):
                if ds == "steps-post":
                    return n[np.searchsorted(z, x, side="right") - 1]
                if ds in ("steps", "steps-pre"):
                    return n[np.searchsorted(z, x, side="left")]
                return np.interp(x, z, n)
        else:
            mesh = ax.collections[0]
            z = np.asarray(mesh.get_coordinates())[0, :, 0]
            n = np.asarray(mesh.get_array()).reshape(-1)
            require(len(n) == len(z) - 1, f"{len(n)} cells between {len(z)} edges")

            def drawn(x):
                return n[np.searchsorted(z, x, side="right") - 1]
        require(np.all(np.diff(z) >= 0), "depths are not increasing")
        require(z[0] < 0 < z[-1] and z[-1] > total, f"the plot reaches from {z[0]} to {z[-1]}, the structure from 0 to {total}")
        lo, hi = ax.get_xlim()
        eps = 1e-9 * (z[-1] - z[0])
        require(lo <= z[0] + eps and hi >= z[-1] - eps, f"the depth axis shows {lo} to {hi} of {z[0]} to {z[-1]}")
        tol = 1e-6 * max(1.0, float(np.max(abs(nx))))
        close(drawn(z[0] / 2), nx[0].real, 1e-6, tol, "index drawn in front of the structure")
        close(drawn((total + z[-1]) / 2), nx[-1].real, 1e-6, tol, "index drawn behind the structure")
        for i in range(len(d)):
            if d[i] > 1e-9 * max(total, 1):
                for f in (0.03, 0.5, 0.97):
                    x = edges[i] + f * d[i]
                    close(drawn(x), nx[i + 1].real, 1e-5, tol, f"index drawn at depth {x:.3f} (slice {i} of {len(d)})")
        require(abs(-z[0] - m) < 1e-6 * m and abs(z[-1] - total - m) < 1e-6 * max(m, total), f"margins {-z[0]} and {z[-1] - total}, expected {m}")
    finally:
        plt.close("all")
    thick = [round(float(nx[i + 1].real), 6) for i in range(len(d)) if d[i] > 0]
    t.nontrivial(len(set(thick)) > 1)
    t.tag(case["method"], *(la["l"] for la in spec["layers"]), "zero total" if total == 0 else "")


# -------------------------------------------------------------------- Mueller matrices
NAMES = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]
mm = st.lists(fl(-1, 1, 4), min_size=48, max_size=48)

# as many rows as there are matrix rows or elements, and others
counts = st.sampled_from([1, 2, 3, 4, 4, 5, 8, 15, 16, 16, 17, 32]).flatmap(lambda n: st.lists(fl(200, 2000, 1), min_size=n, max_size=n, unique=True))


def table(vals, wl, shift=0.0):
    n = len(wl)
    a = np.array([np.roll(np.resize(vals, 16 * n), 7 * k)[:16] + 0.01 * k for k in range(n)]) + shift
    return pd.DataFrame(a, index=pd.Index(wl, name="Wavelength"), columns=NAMES)


@P.sub(
    "Mueller tables",
    st.fixed_dictionaries({"v": mm, "wl": counts, "id": st.sampled_from([None, "fit", "x y", ""]), "rho": st.booleans(), "s": rich.structure(2, 0)}),
    250, 3000, 4,
)
def tables(case, t):
    wl = case["wl"]
    exp = table(case["v"], wl)
    keep = exp.copy(deep=True)
    m = exp.to_numpy().reshape(-1, 4, 4)
    if case["rho"]:
        wl = [float(x) for x in wl if 400 <= x <= 900] or [500.0, 600.0]
        exp = table(case["v"], wl)
        keep = exp.copy(deep=True)
        m = exp.to_numpy().reshape(-1, 4, 4)
        if rich.evaluable(case["s"], wl, 0.9):
            m = np.asarray(rich.build_structure(case["s"]).evaluate(np.array(wl), 51.6).mueller_matrix).reshape(-1, 4, 4)
            if not np.all(np.isfinite(m)):
                return
    args = () if case["id"] is None else (case["id"],)
    got = mmatrix_to_dataframe(exp, m, *args)
    require(got.shape == (len(wl), 16), f"table of shape {got.shape}")
    require(list(got.index) == list(wl), "index of the table")
    for i in range(4):
        for j in range(4):
            c = f"M{i + 1}{j + 1}" + (f"_{case['id']}" if case["id"] is not None else "")
            require(c in got.columns, f"no column {c}")
            close(got[c].to_numpy(), m[:, i, j], 1e-12, 1e-12, f"column {c}")
    pd.testing.assert_frame_equal(exp, keep)
    t.nontrivial(len(wl) > 1)


@P.sub(
    "Mueller plots",
    st.fixed_dictionaries({
        "v": mm,
        "wl": counts,
        "frames": st.integers(1, 3),
        "bare": st.booleans(),
        "single": st.sampled_from([None, True, False, False]),
        "full": st.booleans(),
        "sharex": st.booleans(),
        "names": st.sampled_from([None, ["measured"], ["exp", "model", "other"]]),
        "colors": st.sampled_from([None, ["red", "blue", "black"]]),
        "dashes": st.sampled_from([None, ["solid"]]),
        "select": st.one_of(st.none(), st.lists(st.sampled_from(NAMES), min_size=1, max_size=6, unique=True)),
        "otherindex": st.booleans(),
    }),
    350, 5000, 8,
)
def plots(case, t):
    wl = case["wl"]
    frames = [table(case["v"], [w + (50.0 * k if case["otherindex"] else 0.0) for w in wl], 2.0 * k) for k in range(case["frames"])]
    grid = case["single"] is False
    cols = NAMES if grid or case["select"] is None else case["select"]
    if cols is not NAMES:
        frames = [f[cols] for f in frames]
    keep = [f.copy(deep=True) for f in frames]
    kw = {k: case[k] for k in ("names", "colors", "dashes", "sharex", "single") if case[k] is not None}
    kw["full_scale"] = case["full"]
    fig = plot_mmatrix(frames[0] if case["bare"] and len(frames) == 1 else frames, **kw)
    require(len(fig.data) == len(cols) * len(frames), f"{len(fig.data)} curves of {len(cols)} elements in {len(frames)} tables")
    left = []
    for c in cols:
        traces = [d for d in fig.data if d.name.split()[0] == c]
        require(len(traces) == len(frames), f"{len(traces)} curves are named {c}")
        # the frames in order
        for k, (d, f) in enumerate(zip(traces, frames)):
            close(np.asarray(d.x, float), f.index.to_numpy(), 1e-12, 0, f"wavelengths of {c} in table {k}")
            close(np.asarray(d.y, float), f[c].to_numpy(), 1e-12, 0, f"{c} of table {k}")
            nm = case["names"] or ["", "theory"]
            require(d.name.strip() == f"{c} {nm[k % len(nm)]}".strip(), f"curve {d.name!r} of {c} in table {k}")
            if case["colors"]:
                require(d.line.color in case["colors"], f"colour {d.line.color}")
            if grid:
                xa = fig.layout["xaxis" + (d.xaxis or "x")[1:]]
                ya = fig.layout["yaxis" + (d.yaxis or "y")[1:]]
                left.append((c, xa.domain, ya.domain))
                if case["full"]:
                    require(tuple(ya.range) == (-1, 1), f"range {ya.range} of {c}")
        require(len({d.line.color for d in traces}) == 1, f"curves of {c} have different colours")
    if grid:
        xs = sorted({round(x[0], 6) for _, x, _ in left})
        ys = sorted({round(y[0], 6) for _, _, y in left}, reverse=True)
        require(len(xs) == 4 and len(ys) == 4, f"grid of {len(ys)} rows and {len(xs)} columns")
        for c, x, y in left:
            pos = (ys.index(round(y[0], 6)) + 1, xs.index(round(x[0], 6)) + 1)
            require(f"M{pos[0]}{pos[1]}" == c, f"{c} is drawn in row {pos[0]}, column {pos[1]}")
    for f, g in zip(frames, keep):
        pd.testing.assert_frame_equal(f, g)
    t.nontrivial(len(wl) > 1 and len(frames) > 1)
    t.tag("grid" if grid else "single", f"{len(frames)} tables", "selection" if cols is not NAMES else "")
