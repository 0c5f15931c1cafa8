"""C30 - fitting and its undo/redo history (model-based)."""
import os
import shutil
import tempfile
from types import SimpleNamespace

from vlib.core import Property, close, raises, require
from vlib.gen import elli, fl, mix, st
from elli.fitting import ParamsHist, fit, fit_mueller_matrix
import lmfit
import numpy as np
import pandas as pd

P = Property(
    "C30",
    rule="a case is non-trivial if measured and simulated data differ (residuals), the start differs from the solution "
    "(fits), or at least one undo or redo restores a state that differs from the current one (sequences)",
    assumptions=[
        "models are a film (optionally anisotropic) on an absorbing substrate, simulated with the library itself",
        "fits start within 3 % of the solution and use least squares",
        "buttons and fields are operated through the widgets and the public callbacks of the decorator",
        "redo after an undo without history or after further edits may do nothing or return to the undone state",
    ],
)
SUB = elli.IsotropicMaterial(elli.ConstantRefractiveIndex(3.6 + 0.2j))


def make_model(kind, aoi, seen=None):
    def model(lbda, params):
        lb = np.asarray(lbda, float)
        if seen is not None:
            seen.append(lb)
        n, d = float(params["n"].value), float(params["d"].value)
        disp = elli.Cauchy(n, 1e4 * float(params["b"].value), 0, 0, 0, 0) if "b" in params else elli.ConstantRefractiveIndex(n)
        film = elli.IsotropicMaterial(disp)
        if kind == "aniso":
            film = elli.UniaxialMaterial(disp, elli.ConstantRefractiveIndex(n + 0.2))
            film.set_rotation(elli.rotation_euler(20, 35, 10))
        solver = elli.Solver4x4 if kind != "plain" else elli.Solver2x2
        return elli.Structure(elli.AIR, [elli.Layer(film, d)], SUB).evaluate(lb, aoi, solver=solver)

    return model


def make_params(cls, v, limits=True):
    p = cls()
    p.add("n", value=v["n"], **({"min": 1.0, "max": 3.5} if limits else {}))
    p.add("d", value=v["d"], **({"min": 0.0} if limits else {}))
    if "b" in v:
        p.add("b", value=v["b"])
    return p


NAMES = [f"M{i}{j}" for i in range(1, 5) for j in range(1, 5)]
values = st.fixed_dictionaries({"n": fl(1.3, 2.4, 3), "d": fl(30, 150, 2)}, optional={"b": fl(0, 1.5, 3)})
setting = {
    "kind": st.sampled_from(["plain", "plain", "4x4", "aniso"]),
    "aoi": st.sampled_from([50.0, 65.0, 70.0, 75.5]),
    "lbda": st.lists(fl(350, 900, 1), min_size=6, max_size=9, unique=True),
    "sort": st.booleans(),
    "true": values,
    "mueller": st.booleans(),
}


def setup(case, v):
    lb = sorted(case["lbda"]) if case["sort"] else case["lbda"]
    idx = pd.Index(lb, name="Wavelength")
    r = make_model(case["kind"], case["aoi"])(lb, make_params(lmfit.Parameters, v))
    if case["mueller"]:
        return idx, pd.DataFrame(np.asarray(r.mueller_matrix).reshape(-1, 16), index=idx, columns=NAMES)
    return idx, pd.DataFrame({"Ψ": r.psi, "Δ": r.delta}, index=idx)


def rho_of(df):
    return np.tan(np.deg2rad(df["Ψ"].to_numpy())) * np.exp(-1j * np.deg2rad(df["Δ"].to_numpy()))


def make(case, exp, params, model, **kw):
    if case["mueller"]:
        return fit_mueller_matrix(exp, params, **kw)(model)
    return fit(exp, params, case["aoi"], **kw)(model)


# --------------------------------------------------------------------------- residuals
@P.sub(
    "residuals and model data",
    st.fixed_dictionaries({**setting, "at": values, "noise": st.lists(fl(-3, 3, 3), min_size=18, max_size=18), "turns": st.booleans(), "same": st.booleans(), "plain": st.booleans()}),
    350, 6000, 6,
)
def residuals(case, t):
    tv = dict(case["true"])
    av = {k: case["at"].get(k, 0.5) for k in tv} if not case["same"] else tv
    idx, exp = setup(case, tv)
    n = len(idx)
    if not case["same"]:
        if case["mueller"]:
            exp = exp + 0.01 * np.resize(case["noise"], (n, 16))
        else:
            exp = exp + np.resize(case["noise"], (n, 2))
            exp["Ψ"] = exp["Ψ"].clip(0.5, 88)
    if case["turns"] and not case["mueller"]:
        exp["Δ"] = exp["Δ"] + 360.0 * np.resize([1, 0, -1], n)
    keep = exp.copy(deep=True)
    model = make_model(case["kind"], case["aoi"])
    start = make_params(lmfit.Parameters if case["plain"] else ParamsHist, tv)
    obj = make(case, exp, start, model)
    p = make_params(lmfit.Parameters, av)
    sim = model(idx, p)
    if case["mueller"]:
        res = np.asarray(obj.fit_function(p, exp.index.values, exp))
        diff = exp.to_numpy().reshape(-1) - np.asarray(sim.mueller_matrix).reshape(-1)
    else:
        rho = rho_of(exp)
        res = np.asarray(obj.fit_function(p, exp.index.to_numpy(), rho.real, rho.imag))
        diff = np.concatenate([rho.real - sim.rho.real, rho.imag - sim.rho.imag])
    require(not np.iscomplexobj(res), "the residual is complex")
    res = res.reshape(-1)
    require(res.shape == diff.shape, f"{res.size} residuals of {diff.size} data")
    scale = max(1.0, float(np.max(abs(diff))))
    close(res if np.vdot(res, diff) >= 0 else -res, diff, 1e-8, 1e-8 * scale, "minimised residual against measured minus simulated")
    if case["same"]:
        close(res, 0 * res, 0, 1e-7 * max(1.0, float(np.max(abs(getattr(sim, "rho", 1.0))))), "residual of the generating parameters")
    # model data
    for args, pp, desc in (((), start, "fit"), ((p,), p, "model")):
        s = model(idx, pp)
        if case["mueller"]:
            forms = {None: (pd.DataFrame(np.asarray(s.mueller_matrix).reshape(-1, 16), index=idx, columns=[f"{c}_{desc}" for c in NAMES]), exp)}
        else:
            forms = {
                "psi-delta": (pd.DataFrame({f"Ψ_{desc}": s.psi, f"Δ_{desc}": s.delta}, index=idx), exp),
                "rho": (pd.DataFrame({f"ρ_{desc}": s.rho}, index=idx), pd.DataFrame({"rho": rho_of(exp)}, index=idx)),
            }
        for rep, (want, meas) in forms.items():
            kw = {} if rep is None else {"repr": rep}
            got = obj.get_model_data(*args, **kw)
            require(list(got.columns) == list(want.columns), f"model data columns {list(got.columns)}, expected {list(want.columns)}")
            require(list(got.index) == list(idx), "index of the model data")
            close(got.to_numpy(), want.to_numpy(), 1e-10, 1e-10, f"model data {rep or ''} ({desc})")
            both = obj.get_model_data(*args, append_exp_data=True, **kw)
            require(both.shape == (n, meas.shape[1] + want.shape[1]), f"shape {both.shape} with experimental data")
            close(both.to_numpy()[:, : meas.shape[1]].astype(complex), meas.to_numpy(), 1e-10, 1e-10, "appended experimental data")
            close(both.to_numpy()[:, meas.shape[1]:].astype(complex), want.to_numpy(), 1e-10, 1e-10, "model data with experimental data")
    if not case["mueller"]:
        raises(ValueError, lambda: obj.get_model_data(repr="jones"), "unknown representation")
    d = tempfile.mkdtemp(prefix="verif_c30_")
    try:
        f = os.path.join(d, "out.csv")
        obj.to_csv(fname=f, params=p)
        back = pd.read_csv(f, index_col=0)
        close(back.to_numpy(), obj.get_model_data(p).to_numpy(), 1e-9, 1e-12, "csv file of the model data")
        close(back.index.to_numpy(), idx.to_numpy(), 1e-12, 0, "index of the csv file")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    pd.testing.assert_frame_equal(exp, keep)
    t.nontrivial(np.max(abs(diff)) > 1e-6)
    t.tag("Mueller" if case["mueller"] else "psi/delta", case["kind"], "own data" if case["same"] else "")


# -------------------------------------------------------------------------------- fits
@P.sub(
    "fits",
    st.fixed_dictionaries({**setting, "off": st.lists(fl(-0.03, 0.03, 4), min_size=3, max_size=3), "fixed": st.sampled_from([None, None, "n", "d"]), "plain": st.booleans(), "how": st.sampled_from(["fit", "button", "button least_squares"])}),
    250, 4000, 6,
)
def fits(case, t):
    tv = dict(case["true"])
    idx, exp = setup(case, tv)
    keep = exp.copy(deep=True)
    start = {k: tv[k] * (1 + o) for (k, o) in zip(tv, case["off"])}
    if case["fixed"]:
        start[case["fixed"]] = tv[case["fixed"]]
    model = make_model(case["kind"], case["aoi"])
    params = make_params(lmfit.Parameters if case["plain"] else ParamsHist, start)
    if case["fixed"]:
        params[case["fixed"]].vary = False
    kw = {"method": "least_squares"} if case["how"].endswith("squares") else {}
    obj = make(case, exp, params, model, **kw)

    def cost(p):
        s = model(idx, p)
        if case["mueller"]:
            return float(np.sum((np.asarray(s.mueller_matrix).reshape(-1, 16) - exp.to_numpy()) ** 2))
        return float(np.sum(abs(rho_of(exp) - s.rho) ** 2))

    c0 = cost(make_params(lmfit.Parameters, start))
    if case["how"] == "fit":
        res = obj.fit()
        for k in tv:
            require(res.params[k].value == obj.fitted_params[k].value, "the stored fit is not the returned one")
            close(obj.params[k].value, start[k], 1e-12, 0, f"fitting changed the start value of {k}")
    else:
        obj.fit_button_clicked()
        for k in tv:
            close(obj.params[k].value, obj.fitted_params[k].value, 1e-12, 1e-12, f"current value of {k} after the fit button")
    f = obj.fitted_params
    c1 = cost(f)
    require(c1 <= c0 * (1 + 1e-9) + 1e-18, f"the fit made the difference larger: {c0} -> {c1}")
    scale = 1.0 if case["mueller"] else float(np.mean(abs(rho_of(exp)) ** 2)) + 1e-3
    if case["fixed"]:
        close(f[case["fixed"]].value, tv[case["fixed"]], 1e-12, 0, "fixed parameter")
    # The solution is only required where it is well determined by the data.
    jac = []
    for k in tv:
        if k == case["fixed"]:
            continue
        h = 1e-4 * max(abs(tv[k]), 0.1)
        lo, hi = dict(tv), dict(tv)
        lo[k] -= h
        hi[k] += h
        a, b = model(idx, make_params(lmfit.Parameters, hi)), model(idx, make_params(lmfit.Parameters, lo))
        da = np.asarray(a.mueller_matrix - b.mueller_matrix).ravel() if case["mueller"] else np.concatenate([(a.rho - b.rho).real, (a.rho - b.rho).imag])
        jac.append(da / 2e-4)
    cond = np.linalg.cond(np.array(jac)) if jac else 1.0
    smooth = max(np.max(abs(j)) for j in jac) < 30 if jac else True
    if cond < 50 and smooth:
        require(c1 <= 1e-8 * scale * len(idx), f"the fit ends at a sum of squares of {c1} (started at {c0})")
        for k in tv:
            close(f[k].value, tv[k], 2e-3, 2e-3, f"fitted {k}")
        t.nontrivial(c0 > 1e-10)
    got = obj.get_model_data()
    s = model(idx, f)
    if case["mueller"]:
        close(got.to_numpy(), np.asarray(s.mueller_matrix).reshape(-1, 16), 1e-10, 1e-10, "model data of the fit")
        g = obj.plot()
        want = {c: np.asarray(s.mueller_matrix).reshape(-1, 16)[:, i] for i, c in enumerate(NAMES)}
        require(len(g.data) == 32, f"{len(g.data)} curves of measurement and fit")
        for i, c in enumerate(NAMES):
            close(g.data[2 * i].y, exp[c].to_numpy(), 1e-12, 1e-12, f"measured {c} in the plot")
            close(g.data[2 * i + 1].y, want[c], 1e-10, 1e-10, f"fitted {c} in the plot")
        g = obj.plot_residual()
        for i, c in enumerate(NAMES):
            close(abs(np.asarray(g.data[i].y)), abs(want[c] - exp[c].to_numpy()), 1e-8, 1e-10, f"residual of {c} in the plot")
    else:
        close(got.to_numpy(), np.array([s.psi, s.delta]).T, 1e-10, 1e-10, "model data of the fit")
        curves(obj.plot(), idx, {"Ψ": exp["Ψ"], "Δ": exp["Δ"], "Ψ_fit": s.psi, "Δ_fit": s.delta})
        r = rho_of(exp)
        curves(obj.plot_rho(), idx, {"ρr": r.real, "ρi": r.imag, "ρcr": s.rho.real, "ρci": s.rho.imag})
    pd.testing.assert_frame_equal(exp, keep)
    t.tag("Mueller" if case["mueller"] else "psi/delta", case["how"], "fixed parameter" if case["fixed"] else "", "plain parameters" if case["plain"] else "")


def curves(fig, idx, want):
    by = {d.name: d for d in fig.data}
    require(set(want) <= set(by), f"curves {sorted(by)}, expected {sorted(want)}")
    for k, v in want.items():
        y = np.asarray(by[k].y, float)
        x = np.asarray(by[k].x, float)[: len(y)]
        ok = ~np.isnan(y)
        close(x[ok], idx.to_numpy(), 1e-12, 0, f"wavelengths of {k}")
        close(y[ok], np.asarray(v, float), 1e-9, 1e-9, f"curve {k}")


# --------------------------------------------------------------------------- sequences
@st.composite
def operations(draw):
    op = st.one_of(
        st.tuples(st.just("edit"), st.sampled_from(["n", "d", "d"]), fl(0, 1, 4)),
        st.tuples(st.just("edit"), st.sampled_from(["n", "d", "d"]), fl(0, 1, 4)),
        st.tuples(st.just("undo"), st.just(0), st.just(0)),
        st.tuples(st.just("undo"), st.just(0), st.just(0)),
        st.tuples(st.just("redo"), st.just(0), st.just(0)),
        st.tuples(st.just("reset"), st.just(0), st.just(0)),
        st.tuples(st.just("fit"), st.just(0), st.just(0)),
        st.tuples(st.just("vary"), st.sampled_from(["n", "d"]), st.booleans()),
        st.tuples(st.just("select"), st.sampled_from(["Psi/Delta", "Rho", "Pseudo Diel.", "Residual"]), st.booleans()),
    ).map(list)
    return draw(st.lists(op, min_size=3, max_size=14))


def state(p):
    return {k: float(p[k].value) for k in p}


def same(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-9 * max(1.0, abs(b[k])) for k in b)


def pseudo(rho, aoi):
    a = np.deg2rad(aoi)
    return np.sin(a) ** 2 * (1 + np.tan(a) ** 2 * ((1 - rho) / (1 + rho)) ** 2)


@P.sub("sequences", st.fixed_dictionaries({**setting, "start": values, "ops": operations(), "plain": st.sampled_from([False, False, False, True])}), 400, 8000, 8)
def sequences(case, t):
    tv = {k: case["true"][k] for k in ("n", "d")}
    start = {k: case["start"][k] for k in ("n", "d")}
    idx, exp = setup(case, tv)
    model = make_model(case["kind"], case["aoi"])
    obj = make(case, exp, make_params(lmfit.Parameters if case["plain"] else ParamsHist, start), model)
    cur, hist, last = dict(start), [], None
    initial, fitted, sel, resid = dict(start), dict(start), "Psi/Delta", False
    moved = False
    for name, x, y in case["ops"]:
        what = f"{name}({x}, {y})"
        options = None
        if name == "edit":
            v = round(1.2 + 1.5 * y, 3) if x == "n" else round(200 * y, 2)
            if v != cur[x]:
                obj.param_widgets[x].value = v
                hist.append(dict(cur))
                cur[x] = v
                if last is not None:
                    last = {"maybe": last.get("maybe", last)}
        elif name == "vary":
            obj.set_vary_param(SimpleNamespace(owner=SimpleNamespace(description_tooltip=x), new=y))
            require(obj.params[x].vary == y, f"{what}: vary is {obj.params[x].vary}")
        elif name == "undo":
            before = dict(cur)
            obj.re_undo_button_clicked(SimpleNamespace(description="Undo"))
            if not case["plain"]:
                if hist:
                    last = cur
                    cur = hist.pop()
                    moved |= not same(before, cur)
                elif last is not None:
                    last = {"maybe": last.get("maybe", last)}
        elif name == "redo":
            before = dict(cur)
            obj.re_undo_button_clicked(SimpleNamespace(description="Redo"))
            if not case["plain"] and last is not None:
                if "maybe" in last:
                    options = [cur, last["maybe"]]
                    got = state(obj.params)
                    if not same(got, cur):
                        hist.append(cur)
                        cur = dict(last["maybe"])
                    elif obj.params.history_len == len(hist) + 1:
                        hist.append(dict(cur))
                else:
                    hist.append(cur)
                    cur = dict(last)
                moved |= not same(before, cur)
                last = None
        elif name == "reset":
            obj.reset_to_init_params()
            if not case["plain"]:
                moved |= not same(cur, initial)
                last = cur if hist else ({"maybe": last.get("maybe", last)} if last is not None else None)
                cur, hist = dict(initial), []
        elif name == "select":
            if case["mueller"]:
                obj.update_residual(SimpleNamespace(new=y))
                resid = y
            else:
                obj.selector.value = x
                sel = x
        elif name == "fit":
            if not any(obj.params[k].vary for k in ("n", "d")):
                continue
            hist.append(dict(cur))
            obj.fit_button_clicked()
            fitted = state(obj.fitted_params)
            for k in ("n", "d"):
                if not obj.params[k].vary:
                    close(fitted[k], cur[k], 1e-9, 1e-12, f"{what}: fixed {k}")
            cur = dict(fitted)
            if last is not None:
                last = {"maybe": last.get("maybe", last)}
        got = state(obj.params)
        require(same(got, cur), f"after {what}: parameters {got}, expected {cur}" + (f" (one of {options})" if options else ""))
        require(same(state(obj.fitted_params), fitted), f"after {what}: stored fit {state(obj.fitted_params)}, was {fitted}")
        require(same(state(obj.initial_params), initial), f"after {what}: initial values {state(obj.initial_params)}, were {initial}")
        for k, w in obj.param_widgets.items():
            close(float(w.value), cur[k], 1e-9, 1e-9, f"after {what}: field {k}")
        s = model(idx, obj.params)
        shown(case, obj, exp, s, sel, resid, f"after {what}", drawn=name != "vary")
        t.tag(name)
    t.nontrivial(moved)


TITLES = {"Psi/Delta": "Ψ/Δ (°)", "Rho": "ρ", "Pseudo Diel.": "ϵ", "Residual": "Residual"}
LABELS = {
    "Psi/Delta": ["Ψ", "Δ", "Ψ_calc", "Δ_calc"],
    "Rho": ["ρr", "ρi", "ρr_calc", "ρi_calc"],
    "Pseudo Diel.": ["ϵ1", "ϵ2", "ϵ1_calc", "ϵ2_calc"],
    "Residual": ["Psi Res.", "Delta Res.", "ρr Res.", "ρi Res."],
}


def shown(case, obj, exp, s, sel, resid, what, drawn):
    d = obj.fig.data
    if case["mueller"]:
        m = np.asarray(s.mueller_matrix).reshape(-1, 16)
        for i, c in enumerate(NAMES):
            close(d[2 * i].y, exp[c].to_numpy(), 1e-12, 1e-12, f"{what}: measured {c} shown")
            require(d[2 * i].name.strip() == c, f"{what}: measured {c} is called {d[2 * i].name!r}")
            want = f"{c} {'Residual' if resid else 'theory'}"
            require(d[2 * i + 1].name == want, f"{what}: {want} is called {d[2 * i + 1].name!r}")
            for x in (d[2 * i].x, d[2 * i + 1].x):
                close(np.asarray(x, float), exp.index.to_numpy(float), 1e-12, 0, f"{what}: wavelengths of {c}")
            y = np.asarray(d[2 * i + 1].y, float)
            if resid:
                close(abs(y), abs(m[:, i] - exp[c].to_numpy()), 1e-9, 1e-9, f"{what}: residual of {c} shown")
            else:
                close(y, m[:, i], 1e-9, 1e-9, f"{what}: simulated {c} shown")
        return
    r = rho_of(exp)
    if np.max(abs(r)) > 1e3 or np.min(abs(1 + r)) < 1e-4:
        return
    rows = {
        "Psi/Delta": (exp["Ψ"], exp["Δ"], s.psi, s.delta),
        "Rho": (r.real, r.imag, s.rho.real, s.rho.imag),
        "Residual": (exp["Ψ"] - s.psi, exp["Δ"] - s.delta, r.real - s.rho.real, r.imag - s.rho.imag),
    }
    pe, ps = pseudo(r, case["aoi"]), pseudo(s.rho, case["aoi"])
    rows["Pseudo Diel."] = (pe.real, pe.imag, ps.real, ps.imag)
    scale = max(float(np.max(np.abs(np.nan_to_num(np.asarray(v, float))))) for v in rows[sel])
    title = obj.fig.layout.yaxis.title.text
    require(title == TITLES[sel], f"{what}: axis of {sel} is called {title!r}")
    require(obj.fig.layout.xaxis.title.text == "Wavelength (nm)", f"{what}: horizontal axis {obj.fig.layout.xaxis.title.text!r}")
    for i in range(4):
        y = np.asarray(d[i].y, float)
        x = np.asarray(d[i].x, float)[: len(y)][~np.isnan(y)]
        close(x, exp.index.to_numpy(float), 1e-12, 0, f"{what}: wavelengths of curve {i} of {sel}")
        require(d[i].name == LABELS[sel][i], f"{what}: curve {i} of {sel} is called {d[i].name!r}")
        y = y[~np.isnan(y)]
        close(y, np.asarray(rows[sel][i], float), 1e-6, 1e-8 * max(1, scale), f"{what}: curve {i} of {sel}")
