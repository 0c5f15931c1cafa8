"""C25 - unit conversions, rho, pseudo-dielectric function, quarter-wave thickness."""
from vlib.core import Property, close, require
from vlib import gen, rich
from vlib.gen import elli, fl, mix, st
import numpy as np
import pandas as pd
from elli import utils as U

P = Property(
    "C25",
    rule="a case is non-trivial if more than one value is converted or the container is not a float (conversions), delta is not "
    "a multiple of 180 degrees (rho), the substrate absorbs or the angle is not zero (pseudo-optics)",
    assumptions=[
        "containers are numbers, numpy arrays, pandas Series and indices (plain lists are not converted)",
        "rho is a pandas Series as returned by calc_rho (a one-column frame is not supported by every output form)",
        "pseudo-optical functions at incidence angles above 2 degrees, where rho still depends on the substrate",
    ],
)

# exact SI values
C0, H, Q = 299792458.0, 6.62607015e-34, 1.602176634e-19
CONV = {
    "conversion_wavelength_energy": (lambda x: H * C0 / Q / (x * 1e-9), True),
    "conversion_frequency2energy": (lambda x: x * H / Q, False),
    "conversion_energy2frequency": (lambda x: x * Q / H, False),
    "conversion_wavelength_frequency": (lambda x: C0 / (x * 1e-9), True),
    "conversion_wavelength_wavenumber": (lambda x: 1e7 / x, True),
}
value = st.one_of(
    st.sampled_from([1.0, 633.0, 1239.84, 1e7, 1e15]),
    fl(0.1, 20.0),
    fl(100.0, 30000.0),
    st.floats(1e-6, 1e18, allow_nan=False).map(lambda x: float(f"{x:.6g}")),
)
CONT = ["float", "int", "np.float64", "0d", "array", "2d", "int array", "Series", "Index", "empty"]


def contain(kind, v):
    return {
        "float": lambda: v[0],
        "int": lambda: int(v[0]) + 1,
        "np.float64": lambda: np.float64(v[0]),
        "0d": lambda: np.array(v[0]),
        "array": lambda: np.array(v),
        "2d": lambda: np.array([v, v[::-1]]),
        "int array": lambda: np.array([min(int(x), 2**40) + 1 for x in v]),
        "Series": lambda: pd.Series(v, index=[f"r{i}" for i in range(len(v))]),
        "Index": lambda: pd.Index(v, name="Wavelength"),
        "empty": lambda: np.array([]),
    }[kind]()


@P.sub("conversions", st.fixed_dictionaries({"f": st.sampled_from(sorted(CONV)), "v": st.lists(value, min_size=1, max_size=5), "c": st.sampled_from(CONT)}), 3000, 60000, 2)
def conversions(case, t):
    name = case["f"]
    ref, own_inverse = CONV[name]
    f = getattr(U, name)
    x = contain(case["c"], case["v"])
    keep = np.array(x, copy=True)
    t.tag(name, case["c"])
    t.nontrivial(case["c"] != "float" or len(case["v"]) > 1)
    y = f(x)
    exp = ref(np.asarray(x, float))
    require(np.shape(y) == np.shape(exp), f"{name}: shape {np.shape(y)}")
    close(np.asarray(y, float), exp, 1e-8, 0, f"{name} against the SI constants")
    require(np.array_equal(np.asarray(x), keep), f"{name} changed its input")
    if case["c"] == "Series":
        require(isinstance(y, pd.Series) and list(y.index) == list(x.index), f"{name} of a Series lost its labels")
    if own_inverse:
        close(np.asarray(f(y), float), np.asarray(x, float), 1e-12, 0, f"{name} twice")
    back = {"conversion_frequency2energy": U.conversion_energy2frequency, "conversion_energy2frequency": U.conversion_frequency2energy}.get(name)
    if back:
        close(np.asarray(back(y), float), np.asarray(x, float), 1e-12, 0, f"{name} and back")
    # wavelength -> frequency -> energy, wavelength -> wavenumber
    e1 = U.conversion_frequency2energy(U.conversion_wavelength_frequency(x))
    close(np.asarray(e1, float), np.asarray(U.conversion_wavelength_energy(x), float), 1e-12, 0, "energy by way of the frequency")
    k = np.asarray(U.conversion_wavelength_wavenumber(x), float)
    close(np.asarray(U.conversion_wavelength_frequency(x), float), k * 100 * C0, 1e-12, 0, "frequency of a wavenumber")
    close(np.asarray(U.conversion_energy2frequency(U.conversion_wavelength_energy(x)), float), np.asarray(U.conversion_wavelength_frequency(x), float), 1e-12, 0, "frequency by way of the energy")


# ---------------------------------------------------------------------------------- rho
psi = mix([0.0, 45.0, 30.0], fl(0.0, 89.9, 4))
delta = mix([0.0, 90.0, 180.0, -90.0, 270.0], fl(-360, 360, 4))


@P.sub(
    "psi_delta_rho",
    st.fixed_dictionaries({"pd": st.lists(st.tuples(psi, delta).map(list), min_size=1, max_size=6), "angles": st.integers(0, 2), "extra": st.booleans(), "swap": st.booleans()}),
    1200,
    25000,
    2,
)
def psi_delta_rho(case, t):
    p, d = np.array(case["pd"]).T
    n = len(p)
    lb = np.linspace(400, 500, n)
    if case["angles"]:
        aoi = [60.0, 70.0][: case["angles"]]
        idx = pd.MultiIndex.from_product([aoi, lb], names=["Angle of Incidence", "Wavelength"])
        p, d = np.tile(p, len(aoi)), np.tile(d, len(aoi))
    else:
        idx = pd.Index(lb, name="Wavelength")
    cols = {"Ψ": p, "Δ": d}
    if case["extra"]:
        cols["Depolarization"] = np.zeros(len(p))
    df = pd.DataFrame(cols, index=idx)
    if case["swap"]:
        df = df[list(df.columns)[::-1]]
    keep = df.copy()
    t.tag(f"angles={case['angles']}", "extra column" if case["extra"] else None)
    t.nontrivial(bool(np.any(d % 180 != 0)))
    r = U.calc_rho(df)
    require(df.equals(keep), "calc_rho changed its input")
    require(list(r.index) == list(df.index), "rho has another index")
    exp = np.tan(np.deg2rad(p)) * np.exp(-1j * np.deg2rad(d))
    close(r.to_numpy(), exp, 1e-9, 1e-12, "rho of psi and delta")
    # a result with this rho shows this psi and delta
    j = np.zeros((len(p), 2, 2), complex)
    j[:, 0, 0], j[:, 1, 1] = exp, 1.0
    res = elli.Result(elli.Experiment(None, np.tile(lb, max(case["angles"], 1)), 60.0), j, j)
    close(res.psi, p, 0, 1e-7, "psi")
    ok = p > 1e-3
    close(((res.delta - d + 180) % 360 - 180)[ok], np.zeros(ok.sum()), 0, 1e-7, "delta")


# --------------------------------------------------------------------------- pseudo-optics
def out_of_frame(what, x, idx, eps):
    require(list(x.index) == list(idx), f"{what}: index")
    if what == "eps":
        require(list(x.columns) == ["ϵ1", "ϵ2"], f"columns {list(x.columns)}")
        return x["ϵ1"].to_numpy() + 1j * x["ϵ2"].to_numpy()
    if what == "n":
        require(list(x.columns) == ["n", "k"], f"columns {list(x.columns)}")
        n = x["n"].to_numpy() + 1j * x["k"].to_numpy()
        require(np.all(n.real >= 0), "negative real part of the refractive index")
        return n**2
    return x.to_numpy()


@P.sub(
    "pseudo_substrate",
    st.fixed_dictionaries({"mat": rich.iso_material(), "lbda": st.lists(fl(rich.LO + 5, rich.HI - 5, 2), min_size=1, max_size=4, unique=True), "theta": mix([60.0, 70.0, 45.0], fl(2.0, 89.0, 3)), "via": st.sampled_from(["rho", "psi/delta"]), "solver": st.booleans()}),
    1500,
    30000,
    4,
)
def pseudo_substrate(case, t):
    lb = np.array(case["lbda"])
    spec = case["mat"]
    if rich.singular(spec, lb):
        return
    eps = rich.ref_tensor(spec, lb)[:, 0, 0]
    if not np.all(np.isfinite(eps)) or np.min(abs(eps)) < 0.05 or np.max(abs(eps)) > 1e3 or np.min(abs(eps - 1)) < 0.02:
        t.tag("outside domain")
        return
    th = case["theta"]
    s = elli.Structure(elli.AIR, [], rich.build(spec))
    res = s.evaluate(lb, th, solver=elli.Solver2x2) if case["solver"] else s.evaluate(lb, th)
    idx = pd.Index(lb, name="Wavelength")
    if case["via"] == "rho":
        rho = pd.Series(res.rho, index=idx)
    else:
        rho = U.calc_rho(pd.DataFrame({"Ψ": res.psi, "Δ": res.delta}, index=idx))
    # the formula divides by 1 + rho and multiplies by sin^2 tan^2
    k = np.sin(np.deg2rad(th)) ** 2 * np.tan(np.deg2rad(th)) ** 2
    r = rho.to_numpy()
    cond = k * abs((1 - r) / (1 + r)) * 2 / abs(1 + r) ** 2
    if np.max(cond) > 1e6:
        t.tag("ill-conditioned")
        return
    t.tag(case["via"], "2x2" if case["solver"] else "4x4")
    t.nontrivial(bool(np.any(eps.imag > 1e-6)))
    for o in ("eps", "epsi", "n", None):
        x = U.calc_pseudo_diel(rho, th) if o is None else U.calc_pseudo_diel(rho, th, output=o)
        got = out_of_frame(o or "eps", x, idx, eps)
        close(got, eps, 1e-6, 1e-6 * max(np.max(abs(eps)), 1e-3 * np.max(cond)), f"pseudo-dielectric function of a bare substrate ({o})")


cn = st.tuples(fl(-2, 2), fl(-2, 2)).map(list)


@P.sub("pseudo_formula", st.fixed_dictionaries({"rho": st.lists(cn, min_size=1, max_size=4), "theta": fl(1.0, 89.0, 3)}), 1500, 30000, 2)
def pseudo_formula(case, t):
    """For any rho: the permittivity whose reflection ratio is that rho."""
    r = np.array([complex(*c) for c in case["rho"]])
    if np.min(abs(1 + r)) < 1e-3 or np.min(abs(1 - r)) < 1e-3:
        return
    th = np.deg2rad(case["theta"])
    t.nontrivial(bool(np.any(r.imag != 0)))
    idx = pd.Index(np.linspace(300, 900, len(r)), name="Wavelength")
    ser = pd.Series(r, index=idx)
    e = out_of_frame("epsi", U.calc_pseudo_diel(ser, case["theta"], "epsi"), idx, None)
    for o in ("eps", "n"):
        got = out_of_frame(o, U.calc_pseudo_diel(ser, case["theta"], o), idx, None)
        close(got, e, 1e-9, 1e-9 * (1 + np.max(abs(e))), f"output {o}")
    # Fresnel: with kz2 = sqrt(eps - sin^2) one of the two signs gives back rho
    kz2 = np.sqrt(e - np.sin(th) ** 2)
    c = np.cos(th)
    ok = []
    for kz in (kz2, -kz2):
        rs = (c - kz) / (c + kz)
        rp = (e * c - kz) / (e * c + kz)
        ok.append(np.minimum(abs(rp / rs - r), 1e9))
    # where the ratio is well defined
    good = (abs(kz2) > 1e-3) & (abs(e * c - kz2) > 1e-4) & (abs(e * c + kz2) > 1e-4) & (abs(c - kz2) > 1e-4) & (abs(c + kz2) > 1e-4)
    dev = np.minimum(*ok)[good]
    require(np.all(dev < 1e-4), f"pseudo-dielectric function {e} does not reflect with rho {r} at {case['theta']} degrees (off by {dev.max() if dev.size else 0:.2g})")
    require(np.all(ser.to_numpy() == r), "input changed")


# ---------------------------------------------------------------------------- quarter wave
@P.sub(
    "quarter_wave",
    st.fixed_dictionaries({"mat": st.one_of(rich.iso(), rich.mixture(), gen.iso(gen.n_transparent(1.1, 4.0)), gen.cauchy(), rich.single()), "lbda": fl(rich.LO + 5, rich.HI - 5, 2), "nb": fl(1.0, 4.0, 3)}),
    1500,
    30000,
    2,
)
def quarter_wave(case, t):
    spec, lb = case["mat"], case["lbda"]
    own = spec["m"] in ("n", "cauchy")
    if not own and rich.singular(spec, lb):
        return
    m = gen.material(spec) if own else rich.build(spec)
    e = (gen.ref_tensor if own else rich.ref_tensor)(spec, lb)[0]
    n = np.sqrt(complex(e[0, 0])).real
    if not np.isfinite(n) or n < 0.05:
        return
    iso = spec["m"] not in ("uni", "bi")
    t.tag(spec["m"])
    t.nontrivial(n != 1)
    d = U.get_qwp_thickness(m, lb)
    require(np.shape(d) == (), "thickness is not a number")
    if iso:
        close(4 * n * d, lb, 1e-6, 0, "four quarters of the wavelength in the material")
        k = np.sqrt(complex(e[0, 0])).imag
        if abs(k) < 1e-12:
            # textbook reflectance of a quarter-wave layer at normal incidence
            t.tag("optical")
            nb = case["nb"]
            s = elli.Structure(elli.AIR, [elli.Layer(m, d)], elli.ConstantRefractiveIndex(n=nb).get_mat())
            r = s.evaluate(lb, 0.0).R
            close(r, [((nb - n**2) / (nb + n**2)) ** 2], 1e-6, 1e-9, "reflectance of a quarter-wave layer")
            t2 = elli.Structure(elli.AIR, [elli.Layer(m, d), elli.Layer(m, d)], elli.ConstantRefractiveIndex(n=nb).get_mat()).evaluate(lb, 0.0).R
            close(t2, [((nb - 1) / (nb + 1)) ** 2], 1e-6, 1e-9, "a half-wave layer is absent")
    elif not spec.get("rot"):
        close(4 * n * d, lb, 1e-6, 0, "four quarters of the wavelength along x")
