"""C20 - Kramers-Kronig transforms and causality of the absorbing models."""
from vlib.core import Property, close, raises, require
from vlib import disp, gen
from vlib.disp import HC_NM
from vlib.gen import elli, fl, mix, st
import numpy as np
from elli.kkr import im2re, im2re_reciprocal, re2im, re2im_reciprocal
from scipy import integrate

P = Property(
    "C20",
    rule="a case is non-trivial if the input has at least two non-zero samples (transforms), or the model has an "
    "oscillator with non-zero amplitude (causality)",
    assumptions=[
        "axes are equidistant (that is what the transforms require) with at least two samples, all positive for the "
        "reciprocal ones",
        "causal models: Lorentz (energy and wavelength), Gaussian, Tauc-Lorentz, Tanguy, and a conductivity-free sum of "
        "them; Cauchy, Cauchy-Urbach, Sellmeier, Poles and Polynomial are not causal over the whole axis, Drude has a "
        "pole at zero energy, Cody-Lorentz computes its real part by a coarse numerical transform (compared at 5 % "
        "of the peak)",
    ],
)

TRAFO = {"im2re": im2re, "re2im": re2im, "im2re_reciprocal": im2re_reciprocal, "re2im_reciprocal": re2im_reciprocal}

# start, step, number of samples, decimal exponent (metres .. 1/metres), direction
axis = st.tuples(
    fl(0.05, 500, 3), fl(0.01, 20, 3), st.integers(2, 40), mix([0], st.sampled_from([-12, -9, -6, -3, 3, 6]), 0.5), st.booleans()
).map(list)
amps = st.lists(mix([0.0, 1.0], fl(-10, 10, 3)), min_size=40, max_size=40)


def grid(a):
    return (a[0] + a[1] * np.arange(a[2])) * 10.0 ** a[3]


def kernel(name, x, xi):
    if name == "im2re":
        return x / (x**2 - xi**2)
    if name == "re2im":
        return -xi / (x**2 - xi**2)
    w, wi = 1 / x, 1 / xi
    # omega = 1/x, d omega = dx / x^2
    if name == "im2re_reciprocal":
        return w / (w**2 - wi**2) / x**2
    return -wi / (w**2 - wi**2) / x**2


def direct(name, y, x):
    """Maclaurin's rule: every second sample, starting next to the point, with step 2 h."""
    h = abs(x[1] - x[0])
    out = []
    for i in range(len(x)):
        s = 0.0
        for j in range(len(x)):
            if (i - j) % 2:
                s += kernel(name, x[j], x[i]) * y[j]
        out.append(2 / np.pi * 2 * h * s)
    return np.array(out)


@P.sub("maclaurin_sum", st.fixed_dictionaries({"f": st.sampled_from(sorted(TRAFO)), "x": axis, "y": amps, "z": amps, "a": fl(-3, 3)}), 3000, 60000, 4)
def maclaurin(case, t):
    f, x = TRAFO[case["f"]], grid(case["x"])
    n = len(x)
    y, z = np.array(case["y"][:n]), np.array(case["z"][:n])
    down = case["x"][4]
    if down:
        x = x[::-1].copy()
    t.tag(case["f"], "odd" if n % 2 else "even", "descending" if down else None, f"1e{case['x'][3]}")
    t.nontrivial(np.count_nonzero(y) > 1)
    xc, yc = x.copy(), y.copy()
    got = f(y, x)
    e = direct(case["f"], y, x)
    mag = direct_abs(case["f"], y, x)
    close(got, e, 1e-7, 1e-9 * (1 + mag), f"{case['f']} against the Maclaurin sum")
    require(np.array_equal(x, xc) and np.array_equal(y, yc), "the transform changed its input")
    close(f(case["a"] * y + z, x), case["a"] * got + f(z, x), 1e-7, 1e-9 * (1 + 4 * mag + direct_abs(case["f"], z, x)), f"{case['f']}: linearity")
    close(f(np.zeros(n), x), np.zeros(n), 0, 0, f"{case['f']} of nothing")
    # the same samples in the other order
    close(f(y[::-1].copy(), x[::-1].copy())[::-1], got, 1e-9, 1e-9 * (1 + mag), f"{case['f']} on the reversed axis")
    # another unit of the axis
    if case["f"] in ("im2re", "re2im"):
        close(f(y, x * 1000), got, 1e-9, 1e-9 * (1 + mag), f"{case['f']} in another unit")
    else:
        close(f(y, x * 1e-3), got, 1e-9, 1e-9 * (1 + mag), f"{case['f']} in another unit")
    # only every second sample contributes to a point, never the point itself
    k = int(case["y"][0] * 7) % n
    d = np.zeros(n)
    d[k] = 1.0
    g = f(d, x)
    require(np.all(g[k % 2 :: 2] == 0), f"{case['f']}: sample {k} contributes to points of its own parity: {g}")


def direct_abs(name, y, x):
    h = abs(x[1] - x[0])
    k = np.abs(kernel(name, x[None, :], x[:, None] + np.where((np.arange(len(x))[None, :] - np.arange(len(x))[:, None]) % 2, 0, np.inf)))
    k = np.where(np.isfinite(k), k, 0)
    return float(np.max(4 / np.pi * h * np.sum(k * np.abs(y), axis=1)))


def maclaurin_fast(name, y, x):
    """The same sum, all points at once."""
    h = abs(x[1] - x[0])
    odd = (np.arange(len(x))[None, :] - np.arange(len(x))[:, None]) % 2 == 1
    with np.errstate(divide="ignore", invalid="ignore"):
        k = np.where(odd, kernel(name, x[None, :], x[:, None]), 0)
    return 4 / np.pi * h * (k @ y), float(np.max(4 / np.pi * h * (abs(k) @ abs(y))))


DTYPES = ["float64", "float64", "int64", "int32", "int16", "uint16", "uint32", "uint8", "float32"]


@P.sub(
    "long_and_integer_axes",
    st.fixed_dictionaries(
        {"f": st.sampled_from(sorted(TRAFO)), "n": st.one_of(st.integers(2, 40), gen.big(31, 1100)), "start": st.integers(1, 700), "step": st.integers(1, 40), "down": st.booleans(), "tx": st.sampled_from(DTYPES), "ty": st.sampled_from(DTYPES), "seed": st.integers(0, 10**6), "twice": st.booleans()}
    ),
    500,
    15000,
    2,
)
def long_integer(case, t):
    """Whole numbers on axes of whole numbers, in any number type that holds them."""
    f, r = TRAFO[case["f"]], np.random.RandomState(case["seed"])
    n, start, step = case["n"], case["start"], case["step"]
    tx = np.dtype(case["tx"])
    if tx.kind in "iu":
        room = np.iinfo(tx).max
        start = min(start, room // 3)
        step = max(1, min(step, (room - start) // n))
        n = min(n, (room - start) // step)
    if n < 2:
        return
    x = start + step * np.arange(n)
    if case["down"]:
        x = x[::-1].copy()
    y = r.randint(0, 120, n) * r.randint(0, 2, n)
    want, mag = maclaurin_fast(case["f"], y.astype(float), x.astype(float))
    t.tag(case["f"], f"axis {case['tx']}", f"values {case['ty']}", "many samples" if n > 40 else None)
    t.nontrivial(np.count_nonzero(y) > 1)
    a, b = y.astype(case["ty"]), x.astype(case["tx"])
    got = f(a, b)
    low = "float32" in (case["tx"], case["ty"])
    close(got, want, 1e-7 if not low else 1e-3, (1e-9 if not low else 1e-4) * (1 + mag), f"{case['f']} of {n} {case['ty']} values on a {case['tx']} axis")
    require(np.array_equal(a, y) and np.array_equal(b, x), "the transform changed its input")
    if case["twice"]:  # a second transform does not disturb the first result
        keep = np.array(got)
        f(a[::-1].copy(), b)
        require(np.array_equal(got, keep), "an earlier result changed")


@P.sub(
    "long_axes",
    st.fixed_dictionaries(
        {"f": st.sampled_from(sorted(TRAFO)), "n": gen.big(900, 5500), "lo": fl(0.001, 3, 4), "span": st.one_of(fl(0.5, 4, 2), fl(1, 60, 1)), "exp": st.sampled_from([0, 0, 2, -9]), "down": st.booleans(),
         "peaks": st.lists(st.tuples(fl(0, 1, 4), fl(0.002, 0.3, 4), fl(-3, 9, 3)).map(list), min_size=1, max_size=4), "noise": mix([0.0], fl(0, 1, 2), 0.7), "at": st.lists(fl(0, 1, 4), min_size=1, max_size=6), "seed": st.integers(0, 10**6)}
    ),
    240,
    4000,
    4,
)
def long_axes(case, t):
    """Measured or modelled spectra on axes of thousands of points: far away samples add up as well."""
    n = case["n"]
    x = np.linspace(case["lo"], case["lo"] + case["span"], n)
    y = case["noise"] * np.random.RandomState(case["seed"]).rand(n)
    for at, w, a in case["peaks"]:
        c = case["lo"] + at * case["span"]
        y += a * (w * case["span"]) ** 2 / ((x - c) ** 2 + (w * case["span"]) ** 2)
    x = x * 10.0 ** case["exp"]
    if case["down"]:
        x, y = x[::-1].copy(), y[::-1].copy()
    got = TRAFO[case["f"]](y, x)
    require(np.shape(got) == (n,), f"{case['f']}: shape {np.shape(got)} for {n} samples")
    t.tag(case["f"], "noisy" if case["noise"] else "smooth", f"{n // 1000}000 samples", "descending" if case["down"] else None)
    t.nontrivial(np.any(y))
    h, j = abs(x[1] - x[0]), np.arange(n)
    for i in sorted({0, n - 1, *(int(u * (n - 1)) for u in case["at"])}):
        o = (j - i) % 2 == 1
        terms = kernel(case["f"], x[o], x[i]) * y[o]
        close(got[i], 4 / np.pi * h * np.sum(terms), 1e-8, 1e-10 * 4 / np.pi * h * np.sum(abs(terms)), f"{case['f']} at sample {i} of {n}")


@P.sub("unequal_lengths", st.fixed_dictionaries({"f": st.sampled_from(sorted(TRAFO)), "n": st.integers(0, 12), "m": st.integers(2, 12)}), 300, 3000)
def unequal(case, t):
    if case["n"] == case["m"]:
        return
    t.nontrivial()
    raises(ValueError, lambda: TRAFO[case["f"]](np.ones(case["n"]), 1.0 + np.arange(case["m"])), f"{case['f']} of {case['n']} values on {case['m']} points")


# ------------------------------------------------------------- causal oscillators on fine grids
osc = st.fixed_dictionaries({"A": fl(1, 50, 2), "E": fl(1.5, 6, 3), "g": fl(0.3, 1.5, 3), "n": st.integers(2000, 3001)})


@P.sub("oscillator_energy", osc, 150, 3000, 2)
def energy(case, t):
    """Both directions on the energy axis, including their composition."""
    E = np.linspace(0.0, 60.0, case["n"])[1:]
    e = case["A"] / (case["E"] ** 2 - E**2 - 1j * case["g"] * E)
    t.nontrivial()
    pk = np.max(np.abs(e))
    sel = slice(20, len(E) * 3 // 4)
    close(im2re(e.imag, E)[sel], e.real[sel], 0, 0.02 * pk, "real part from the imaginary part")
    close(re2im(e.real, E)[sel], e.imag[sel], 0, 0.03 * pk, "imaginary part from the real part")


@P.sub("oscillator_wavelength", osc, 150, 3000, 2)
def wavelength(case, t):
    L = np.linspace(0, 4000.0, case["n"] + 1000)[1:]
    E = HC_NM / L
    e = case["A"] / (case["E"] ** 2 - E**2 - 1j * case["g"] * E)
    t.nontrivial()
    pk = np.max(np.abs(e))
    sel = slice(40, len(L) // 2)
    # (the part of the integral beyond the grid is small as the imaginary part vanishes like E)
    close(im2re_reciprocal(e.imag, L)[sel], e.real[sel], 0, 0.05 * pk, "real part from the imaginary part")
    # the real part does not vanish towards long wavelengths: take off the static value's tail by a second oscillator
    e2 = e - case["A"] / case["E"] ** 2 * (9.0**2) / (9.0**2 - E**2 - 1j * 2.0 * E)
    pk2 = np.max(np.abs(e2))
    close(re2im_reciprocal(e2.real, L)[sel], e2.imag[sel], 0, 0.05 * pk2, "imaginary part from the real part")


# ------------------------------------------------------------------- built-in models
MODELS = {
    "LorentzEnergy": st.lists(st.tuples(fl(1, 60, 2), fl(1, 8, 3), fl(0.2, 2, 3)).map(list), min_size=1, max_size=3).map(lambda r: ([], r)),
    "LorentzLambda": st.lists(st.tuples(fl(0.3, 5, 2), fl(150, 900, 2), fl(30, 200, 2)).map(list), min_size=1, max_size=3).map(lambda r: ([], r)),
    "Gaussian": st.lists(st.tuples(fl(1, 20, 2), fl(1, 8, 3), fl(0.2, 3, 3)).map(list), min_size=1, max_size=3).map(lambda r: ([], r)),
    "TaucLorentz": st.tuples(fl(0.5, 4, 2), st.lists(st.tuples(fl(5, 150, 2), fl(0.2, 4, 2), fl(0.2, 3, 2)).map(list), min_size=1, max_size=3)).map(
        lambda t: ([t[0]], [[a, round(t[0] + d, 4), min(c, 1.6 * (t[0] + d))] for a, d, c in t[1]])
    ),
}
INF = {"LorentzEnergy": 1.0, "LorentzLambda": 1.0, "Gaussian": 0.0, "TaucLorentz": 0.0}
model = st.sampled_from(sorted(MODELS)).flatmap(lambda k: MODELS[k].map(lambda sr: {"k": k, "s": list(sr[0]), "r": list(sr[1])}))


def pv(eps2, E, pts, hi):
    """(2/pi) P int_0^inf x eps2(x) / (x^2 - E^2) dx by subtraction of the singularity and adaptive quadrature."""
    e0 = eps2(E)

    def g(x):
        if abs(x - E) < 1e-7:
            x = E + 1e-6
        return (x * eps2(x) - E * e0) / (x * x - E * E)

    pts = sorted({p for p in [*pts, E] if 0 < p < hi})
    total = 0.0
    edges = [0.0, *pts, hi]
    for a, b in zip(edges, edges[1:]):
        total += integrate.quad(g, a, b, limit=200, epsabs=1e-7, epsrel=1e-7)[0]
    # the subtracted term beyond hi: P int_0^inf dx/(x^2-E^2) = 0
    total += E * e0 * (np.log((hi + E) / (hi - E)) / (2 * E)) * -1.0
    total += integrate.quad(lambda u: (eps2(1 / u) / u) / (1 / u**2 - E * E) / u**2, 1e-9, 1 / hi, limit=200, epsabs=1e-9)[0]
    return 2 / np.pi * total


@P.sub("models_are_causal", st.fixed_dictionaries({"d": model, "E": st.lists(fl(0.6, 9, 3), min_size=1, max_size=2)}), 640, 16000, 8)
def causal(case, t):
    s = case["d"]
    d = disp.build(s)
    E = np.array(case["E"])
    if not disp.regular(s, HC_NM / E, 2e-2):
        return
    k = s["k"]
    t.tag(k, f"terms={len(s['r'])}")
    t.nontrivial()

    def eps2(x):
        return float(np.asarray(d.get_dielectric(np.array([HC_NM / x]))).imag[0])

    pts = []
    for r in s["r"]:
        c, w = (HC_NM / r[1], r[2] * HC_NM / r[1] ** 2) if k == "LorentzLambda" else (r[1], r[2])
        pts += [c, c - w, c + w, c - 3 * w, c + 3 * w]
    pts += s["s"]
    for e in E:
        v = complex(np.asarray(d.get_dielectric(np.array([HC_NM / e])))[0])
        require(v.imag >= -1e-9, f"{k}: negative absorption {v}")
        scale = 1 + abs(v)
        close(v.real - INF[k], pv(eps2, float(e), pts, 200.0), 1e-3, 2e-3 * scale, f"{k}: real part at {e} eV against the Kramers-Kronig integral of the imaginary part")


@P.sub(
    "cody_lorentz",
    st.tuples(fl(1.0, 2.5, 2), fl(20, 150, 1), fl(0.1, 0.6, 2), fl(0.8, 4, 2), fl(0.4, 2, 2), fl(0.5, 3, 2), fl(0.05, 0.3, 2)).map(lambda t: {"k": "CodyLorentz", "s": [t[0], t[1], round(t[0] + t[2], 4), t[3], t[4], round(t[0] + t[2] + t[5], 4), t[6]], "r": []}),
    80, 2000, 8,
)
def cody(s, t):
    """The real part of Cody-Lorentz follows from its imaginary part (coarse numerical transform in the package)."""
    d = disp.build(s)
    E = np.linspace(1.0, 6.0, 26)
    eps = d.get_dielectric(HC_NM / E)
    t.nontrivial()
    par = s["s"]

    def eps2(x):
        return float(disp.cody_eps2(np.array([x]), *par)[0])

    pk = max(eps2(x) for x in np.linspace(0.5, 12, 200))
    for i in (2, 8, 14, 22):
        e = float(E[i])
        if min(abs(e - par[0]), abs(e - par[2])) < 0.05:
            continue
        got = eps.real[i]
        ref = pv(eps2, e, [par[0], par[2], par[5], par[5] - par[3], par[5] + par[3]], 200.0)
        close(got, ref, 0.05, 0.05 * (1 + pk), f"Cody-Lorentz {par}: real part at {e} eV")
