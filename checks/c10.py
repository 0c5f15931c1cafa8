"""C10 - psi, delta and rho from the Jones matrices; delta ranges."""
from vlib.core import Property, close, require, raises
from vlib import gen
from vlib.gen import elli, fl, mix, st
import numpy as np
import pandas as pd
from elli.utils import convert_delta_range

P = Property(
    "C10",
    rule="a case is non-trivial if delta is not a multiple of 90 degrees at some wavelength or the range differs from the default",
    assumptions=["psi and delta of the Jones matrix ratio compared where r_ss (t_ss) is not vanishing"],
)

ranges = st.one_of(
    st.sampled_from([[0, 180], [-180, 180], [0, 360], [-360, 0], [-90, 270]]),
    st.integers(-360, 0).map(lambda lo: [lo, lo + 360]),
    st.integers(-360, 0).map(lambda lo: [lo, lo + 360]),
)


class Exp:
    """Just enough of an experiment for a result (as every solver hands over)."""


def result(jr, jt, vector):
    e = elli.Experiment(None, np.linspace(400, 700, len(jr)), 60.0, vector)
    return elli.Result(e, jr, jt)


cn = st.tuples(mix([0.0, 1.0, -1.0], fl(-1.5, 1.5)), mix([0.0, 0.0, 1.0], fl(-1.5, 1.5))).map(list)
nz = cn.filter(lambda c: abs(complex(*c)) > 0.05)
jmat = st.tuples(cn, st.one_of(cn, st.just([0.0, 0.0])), st.one_of(cn, st.just([0.0, 0.0])), nz).map(list)
VEC = {"default": None, "jones": [1.0, 1.0], "p45": [1, 0, 1, 0], "ell": [0.6, 0.8j], "m45": [1, 0, -1, 0]}


def arr(ms):
    return np.array([[[complex(*m[0]), complex(*m[1])], [complex(*m[2]), complex(*m[3])]] for m in ms])


def in_range(d, lo, hi, what):
    d = np.asarray(d)
    require(np.all((d >= lo - 1e-9) & (d <= hi + 1e-9)), lambda: f"{what}: {d.tolist()} outside [{lo}, {hi}]")


def turns(d, what):
    d = (np.asarray(d) + 180) % 360 - 180
    close(d, np.zeros(d.shape), 0, 1e-7, what)


def fold(d):
    return abs((np.asarray(d) + 180) % 360 - 180)


@P.sub(
    "from_jones_matrices",
    st.fixed_dictionaries({"r": st.lists(jmat, min_size=1, max_size=4), "t": jmat, "range": ranges, "range2": ranges, "vec": st.sampled_from(sorted(VEC))}),
    3000,
    100000,
    2,
)
def from_jones(case, t):
    jr = arr(gen.jones_list(case["r"]))
    t.tag("many wavelengths" if len(jr) > 19 else None)
    jt = arr([case["t"]] * len(jr))
    v = VEC[case["vec"]]
    base = result(jr, jt, v)
    lo, hi = case["range"]
    t.tag(f"range={'fold' if (lo, hi) == (0, 180) else 'whole turn'}", case["vec"])
    uv = np.asarray(base.experiment.jones_vector)
    for j, suf, msuf in ((jr, "", "_matrix"), (jt, "_t", "_matrix_t")):
        res = result(jr, jt, v)
        res2 = res.as_delta_range(lo, hi)
        require(res2 is not None, "as_delta_range returns a result")
        rho = j / j[:, 1:2, 1:2]
        close(getattr(base, "rho" + msuf), rho, 1e-9, 1e-12, "rho matrix")
        close(getattr(res2, "psi" + msuf), np.rad2deg(np.arctan(abs(rho))), 0, 1e-7, "psi matrix")
        in_range(getattr(res2, "psi" + msuf), 0, 90, "psi matrix")
        dm, bm = getattr(res2, "delta" + msuf), getattr(base, "delta" + msuf)
        in_range(dm, lo, hi, f"delta{msuf} in range {lo}..{hi}")
        in_range(bm, -180, 180, f"delta{msuf} in the default range")
        exact = -np.angle(rho, deg=True)
        good = abs(rho) > 1e-9
        if (lo, hi) == (0, 180):
            close(dm[good], fold(exact)[good], 0, 1e-7, f"folded delta{msuf}")
        else:
            turns((dm - exact)[good], f"delta{msuf} in range {lo}..{hi}")
        turns((bm - exact)[good], f"delta{msuf} in the default range")
        t.nontrivial(bool(np.any(abs((exact[good] + 45) % 90 - 45) > 1e-3)))
        # defining equation (not for the folded range, which loses the sign)
        if (lo, hi) != (0, 180):
            psi = np.deg2rad(getattr(res2, "psi" + msuf))
            small = (abs(rho) < 1e3) & good
            close((np.tan(psi) * np.exp(-1j * np.deg2rad(dm)))[small], rho[small], 1e-6, 1e-9, "tan(psi) exp(-i delta)")
        # reduced
        f = j @ uv
        if np.min(abs(f[:, 1])) > 1e-3:
            q = f[:, 0] / f[:, 1]
            close(getattr(base, "rho" + suf), q, 1e-7, 1e-9, "rho")
            close(getattr(res2, "psi" + suf), np.rad2deg(np.arctan(abs(q))), 0, 1e-6, f"psi{suf}")
            d = getattr(res2, "delta" + suf)
            in_range(d, lo, hi, f"delta{suf}")
            g = abs(q) > 1e-9
            ex = -np.angle(q, deg=True)
            if (lo, hi) == (0, 180):
                close(d[g], fold(ex)[g], 0, 1e-6, f"folded delta{suf}")
            else:
                turns((d - ex)[g], f"delta{suf}")
            # rho, psi and delta of one result belong together, in any range
            small = g & (abs(q) < 1e3)
            angles = np.tan(np.deg2rad(getattr(res2, "psi" + suf))) * np.exp(-1j * np.deg2rad(d))
            close(getattr(res2, "rho" + suf)[small], angles[small], 1e-6, 1e-9, f"rho{suf} against tan(psi) exp(-i delta) in {lo}..{hi}")
        # back to another range: nothing is lost
        lo2, hi2 = case["range2"]
        res3 = res2.as_delta_range(lo2, hi2)
        d3 = getattr(res3, "delta" + msuf)
        in_range(d3, lo2, hi2, "after changing the range twice")
        if (lo2, hi2) == (0, 180):
            close(d3[good], fold(exact)[good], 0, 1e-7, "after changing the range twice")
        else:
            turns((d3 - exact)[good], "after changing the range twice")


P.sub(
    "from_many_jones_matrices",
    st.fixed_dictionaries({"r": gen.many_jones(), "t": jmat, "range": ranges, "range2": ranges, "vec": st.sampled_from(sorted(VEC))}),
    400,
    8000,
    2,
)(from_jones)


@P.sub(
    "simulated",
    st.fixed_dictionaries(
        {
            "s": gen.stack(gen.iso(gen.n_any(1.0)), max_layers=2, dmax=300.0),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.theta(1, 85),
            "range": ranges,
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    ),
    600,
    20000,
)
def simulated(case, t):
    """The same for results of the solvers (isotropic: reduced angles equal the pp element)."""
    s = case["s"]
    if gen.attenuation(s, case["lbda"], case["theta"]) > 4 or gen.min_kz(s, case["theta"]) < 1e-3:
        t.tag("outside domain")
        return
    solver = elli.Solver2x2 if case["solver"] == "2x2" else elli.Solver4x4
    res = gen.structure(s).evaluate(np.array(case["lbda"], float), case["theta"], solver=solver)
    jr = res.jones_matrix_r
    if np.min(abs(jr[:, 1, 1])) < 1e-2 or np.min(abs(jr[:, 0, 0])) < 1e-3:
        t.tag("vanishing coefficient")
        return
    t.nontrivial()
    q = jr[:, 0, 0] / jr[:, 1, 1]
    close(res.rho, q, 1e-7, 1e-9, "rho of an isotropic sample")
    close(res.psi, np.rad2deg(np.arctan(abs(q))), 0, 1e-6, "psi of an isotropic sample")
    psi0 = np.array(res.psi)
    lo, hi = case["range"]
    d = res.as_delta_range(lo, hi)
    in_range(d.delta, lo, hi, "delta")
    close(np.asarray(d.psi), psi0, 0, 1e-12, "psi after the range change")
    ex = -np.angle(q, deg=True)
    if (lo, hi) == (0, 180):
        close(d.delta, fold(ex), 0, 1e-4, "folded delta")
        close(d.delta_matrix[:, 0, 0], fold(ex), 0, 1e-4, "folded delta matrix")
    else:
        x = (d.delta - ex + 180) % 360 - 180
        close(x, np.zeros(x.shape), 0, 1e-4, "delta in the new range")


KINDS = ["array", "scalar", "series", "frame", "2d", "column"]


@P.sub(
    "stored_values",
    st.fixed_dictionaries(
        {
            "d": st.lists(mix([0.0, 180.0, -180.0, 360.0, 90.0, -90.0, 270.0, 179.999, -1e-9], fl(-720, 720)), min_size=1, max_size=6),
            "n": st.one_of(st.none(), st.none(), st.tuples(gen.big(7, 3000), st.integers(0, 10**6)).map(list)),
            "range": ranges,
            "as": st.sampled_from(KINDS),
        }
    ),
    2000,
    50000,
)
def stored(case, t):
    lo, hi = case["range"]
    d = np.array(case["d"])
    if case["n"]:  # many values, the drawn ones among them
        r = np.random.RandomState(case["n"][1])
        d = np.append(np.round(r.uniform(-800, 800, case["n"][0]), 3), d)
        r.shuffle(d)
        t.tag("many values")
    k = case["as"]
    arg = {
        "array": lambda: d.copy(),
        "scalar": lambda: float(d[0]),
        "series": lambda: pd.Series(d, index=np.arange(len(d)) + 300.0, name="Δ"),
        "frame": lambda: pd.DataFrame({"Δ": d}, index=np.arange(len(d)) + 300.0),
        "2d": lambda: np.stack([d, d]),
        "column": lambda: pd.DataFrame({"Ψ": d, "Δ": d})["Δ"],
    }[k]()
    t.tag(k, "fold" if (lo, hi) == (0, 180) else "whole turn")
    t.nontrivial(bool(np.any(d % 90 != 0)))
    out = convert_delta_range(arg, lo, hi)
    if k in ("series", "frame", "column"):
        require(type(out) is type(arg) and list(out.index) == list(arg.index), f"{k}: type or index changed")
    v = np.asarray(out, float)
    exp = {"scalar": d[0], "2d": np.stack([d, d]), "frame": d[:, None]}.get(k, d)
    require(v.shape == np.shape(exp), f"{k}: shape {v.shape}")
    in_range(v, lo, hi, f"converted to {lo}..{hi}")
    if (lo, hi) == (0, 180):
        close(v, fold(exp), 0, 1e-7, "folded")
    else:
        turns(v - exp, "converted values")
    # stored values of the range are left alone (boundaries stand for each other)
    again = np.asarray(convert_delta_range(v, lo, hi), float)
    turns(again - v, "idempotent")
    in_range(again, lo, hi, "converted twice")
    # input untouched
    close(np.asarray(arg, float), exp, 0, 0, "input of the conversion")


bad = st.one_of(
    st.tuples(st.integers(-720, 720), st.integers(-720, 720)).filter(
        lambda r: not (r == (0, 180) or (-360 <= r[0] <= 0 and r[1] - r[0] == 360))
    ),
    st.tuples(st.one_of(st.floats(-360, 0), st.none(), st.just("0")), st.integers(0, 360)),
    st.tuples(st.integers(-360, 0), st.one_of(st.floats(0, 360), st.none(), st.just("180"))),
)


@P.sub("inadmissible_ranges", bad.map(list), 600, 5000)
def inadmissible(case, t):
    lo, hi = case
    t.nontrivial()
    t.tag("wrong type" if not (isinstance(lo, int) and isinstance(hi, int)) else "wrong range")
    res = result(arr([[[0.3, 0.1], [0, 0], [0, 0], [-0.5, 0.2]]] * 2), arr([[[0.3, 0.1], [0, 0], [0, 0], [0.5, 0.2]]] * 2), None)
    before = np.array(res.delta)
    raises((ValueError, TypeError), lambda: res.as_delta_range(lo, hi), f"as_delta_range({lo!r}, {hi!r})")
    close(res.delta, before, 0, 0, "delta after a rejected range")
    raises((ValueError, TypeError), lambda: convert_delta_range(np.array([10.0]), lo, hi), f"convert_delta_range({lo!r}, {hi!r})")
