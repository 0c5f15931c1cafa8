"""C14 - every dispersion model against an independently written formula."""
from vlib.core import Property, close, require
from vlib import disp
from vlib.disp import elli, fl, st, TEMPLATES, build, reference, regular, repr_of
from vlib import gen
import numpy as np

P = Property(
    "C14",
    rule="a case is non-trivial if the model has a wavelength-dependent value or at least one oscillator "
    "term with non-zero amplitude, and a regular (non-singular) wavelength",
    assumptions=[
        "wavelengths at which a formula is singular (undamped resonance) are excluded; the gap of Tauc-Lorentz is compared with its neighbourhood",
        "Tauc-Lorentz: E0 > Eg and C < 2 E0, the documented range of validity",
        "the real part of Cody-Lorentz (numerical Kramers-Kronig integral) is decided by C20",
        "sign convention eps1 + i eps2 with eps2 > 0 for absorption, where a docstring has the sign of a "
        "broadening term reversed (Lorentz)",
    ],
)


def lam(lo=150.0, hi=3000.0):
    return st.lists(gen.mix([500.0, 1000.0, 632.8, 400.0, 250.0], fl(lo, hi, 4)), min_size=1, max_size=4)


def case_of(kinds, lo=150.0, hi=3000.0, max_rep=3):
    return st.fixed_dictionaries({"d": disp.model(kinds, max_rep=max_rep), "lbda": lam(lo, hi)})


def value(d, spec, lbda):
    if repr_of(spec) == "n":
        return np.broadcast_to(np.asarray(d.get_refractive_index(lbda)), np.shape(lbda))
    return np.broadcast_to(np.asarray(d.get_dielectric(lbda)), np.shape(lbda))


def formula(case, t):
    s, lb = case["d"], np.array(case["lbda"])
    if not regular(s, lb):
        t.tag("singular")
        return
    t.tag(s["k"], f"terms={len(s['r'])}" if disp.REP.get(s["k"]) else None)
    t.nontrivial((bool(s["r"]) and any(x[0] for x in s["r"])) or len(s["s"]) > 1)
    d = build(s)
    exp = reference(s, lb)
    got = value(d, s, lb)
    tol = 1e-9 if s["k"] not in ("Tanguy", "TaucLorentz", "Gaussian") else 1e-7
    scale = 1e-12 + tol * np.max(abs(exp)) * (0 if s["k"] in ("Cauchy",) else 1e-2)
    close(got, exp, tol, scale + (1e-9 if tol > 1e-8 else 0), f"{s['k']} value")
    # the other representation
    if repr_of(s) == "n":
        close(np.broadcast_to(d.get_dielectric(lb), exp.shape), exp**2, 2 * tol, 1e-12 + 2 * scale * np.max(abs(exp)), f"{s['k']} permittivity")
    # a single wavelength given as a plain number
    v = np.asarray(d.get_refractive_index(float(lb[0])) if repr_of(s) == "n" else d.get_dielectric(float(lb[0])))
    require(v.size == 1, f"{s['k']}: scalar wavelength gives shape {v.shape}")
    close(complex(v.reshape(())), complex(exp[0]), tol, scale + (1e-9 if tol > 1e-8 else 0), f"{s['k']} at a scalar wavelength")


CLOSED = [k for k in TEMPLATES if k != "CodyLorentz" and k != "Tanguy"]
P.sub("formula", case_of(CLOSED), 5000, 100000, 4)(formula)
P.sub("formula_tanguy", case_of(["Tanguy"]), 400, 6000, 4)(formula)


@P.sub("cody_lorentz_absorption", case_of(["CodyLorentz"], 150, 3000), 120, 3000, 2)
def cody(case, t):
    s, lb = case["d"], np.array(case["lbda"])
    E = disp.HC_NM / lb
    if np.min(abs(E - s["s"][2])) < 1e-3:
        t.tag("singular")
        return
    t.nontrivial()
    exp = disp.cody_eps2(E, *s["s"])
    t.tag("Urbach tail" if np.any(E < s["s"][2]) else None, "band" if np.any(E > s["s"][2]) else None)
    close(build(s).get_dielectric(lb).imag, exp, 1e-9, 1e-12, "Cody-Lorentz eps2")


@P.sub("default_parameters", st.fixed_dictionaries({"k": st.sampled_from(CLOSED), "n": st.integers(0, 2), "lbda": lam()}), 300, 5000)
def defaults(case, t):
    """The documented default parameters."""
    k = case["k"]
    sp, rp, rep = TEMPLATES[k]
    spec = {"k": k, "s": list(sp.values()), "r": [list(rp.values())] * (case["n"] if rp else 0)}
    lb = np.array(case["lbda"])
    if k == "LorentzLambda":
        pass
    if not regular(spec, lb):
        t.tag("singular")
        return
    t.tag(k)
    t.nontrivial()
    d = getattr(elli, k)()
    for _ in spec["r"]:
        d.add()
    close(value(d, spec, lb), reference(spec, lb), 1e-8, 1e-9, f"{k} with defaults")


OSC = [k for k in CLOSED if TEMPLATES[k][1]]


@P.sub(
    "terms_add_up",
    st.fixed_dictionaries({"d": disp.model(OSC, max_rep=4, min_rep=2), "perm": st.permutations(range(4)), "lbda": lam()}),
    800,
    20000,
    2,
)
def terms(case, t):
    """Contribution of each term adds, in any order."""
    s, lb = case["d"], np.array(case["lbda"])
    if not regular(s, lb):
        t.tag("singular")
        return
    n = len(s["r"])
    t.tag(s["k"], f"terms={n}")
    t.nontrivial(n >= 2)
    base = value(build(dict(s, r=[])), s, lb)
    full = value(build(s), s, lb)
    single = [value(build(dict(s, r=[x])), s, lb) - base for x in s["r"]]
    mag = 1e-10 * (1 + sum(abs(x).max() for x in single) + abs(base).max())
    close(full, base + sum(single), 1e-10, mag, f"{s['k']}: sum of the terms")
    order = [i for i in case["perm"] if i < n]
    close(value(build(dict(s, r=[s["r"][i] for i in order])), s, lb), full, 1e-10, mag, f"{s['k']}: order of the terms")


@P.sub(
    "many_terms",
    st.fixed_dictionaries({"d": disp.model(OSC, max_rep=3, min_rep=2), "n": gen.big(8, 70), "seed": st.integers(0, 10**6), "lbda": lam()}),
    150,
    4000,
)
def many_terms(case, t):
    """Dozens of terms, each of them counted."""
    r = np.random.RandomState(case["seed"])
    base = case["d"]["r"]
    rows = [[x if i == 0 else x * (1 - 1e-3 * k) for i, x in enumerate(base[r.randint(len(base))])] for k in range(case["n"])]
    rows = [[x * (1 + r.uniform()) if i == 0 else x for i, x in enumerate(row)] for row in rows]
    s, lb = dict(case["d"], r=rows), np.array(case["lbda"])
    if not regular(s, lb):
        t.tag("singular")
        return
    t.tag(s["k"], f"terms={min(case['n'] // 10 * 10, 60)}")
    t.nontrivial()
    ref = disp.reference(s, lb)
    mag = sum(abs(disp.reference(dict(s, r=[x]), lb)).max() for x in rows)
    d = build(s)
    close(value(d, s, lb), ref, 1e-9, 1e-9 * (1 + mag), f"{s['k']} with {len(rows)} terms")
    # the last one counts like the first
    for k in {0, len(rows) - 1, case["seed"] % len(rows)}:
        rest = build(dict(s, r=rows[:k] + rows[k + 1 :]))
        close(value(d, s, lb) - value(rest, s, lb), ref - disp.reference(dict(s, r=rows[:k] + rows[k + 1 :]), lb), 1e-9, 1e-9 * (1 + mag), f"{s['k']}: share of term {k}")


def passive(spec):
    """Parameter sets that are passive by construction."""
    k = spec["k"]
    if k in ("Gaussian", "LorentzEnergy", "LorentzLambda"):
        return all(r[0] >= 0 for r in spec["r"])
    if k == "CauchyUrbach":
        return spec["s"][0] + min(0, spec["s"][1] * 100) > 0
    return True


@P.sub(
    "no_gain",
    case_of(["Gaussian", "LorentzEnergy", "LorentzLambda", "TaucLorentz", "CauchyUrbach"]),
    1000,
    30000,
    2,
)
def no_gain(case, t):
    s, lb = case["d"], np.array(case["lbda"])
    s = dict(s, r=[[abs(r[0]), *r[1:]] for r in s["r"]])
    if not regular(s, lb) or not passive(s):
        t.tag("singular or active")
        return
    t.tag(s["k"])
    t.nontrivial(bool(s["r"]) or s["k"] == "CauchyUrbach")
    d = build(s)
    nk = np.broadcast_to(np.asarray(d.get_refractive_index(lb), complex), lb.shape)
    require(nk.imag.min() >= -1e-12, lambda: f"{s['k']}: negative absorption k = {nk.imag.min()}")
    if repr_of(s) == "eps":
        e = np.broadcast_to(d.get_dielectric(lb), lb.shape)
        require(e.imag.min() >= -1e-12, lambda: f"{s['k']}: negative eps2 = {e.imag.min()}")


@P.sub(
    "gap_absorbs_nothing",
    st.fixed_dictionaries({"d": disp.model(["TaucLorentz"], min_rep=1), "x": fl(0.01, 0.999), "y": fl(1.001, 5)}),
    300,
    5000,
)
def gap(case, t):
    """Tauc-Lorentz: no absorption below the gap, absorption above it."""
    s = case["d"]
    eg = s["s"][0]
    t.nontrivial()
    d = build(s)
    below = d.get_dielectric(np.array([disp.HC_NM / (eg * case["x"])]))
    above = d.get_dielectric(np.array([disp.HC_NM / (eg * case["y"])]))
    close(below.imag, [0.0], 0, 1e-12, "eps2 below the gap")
    require(above.imag[0] > 0, "no absorption above the gap")


@P.sub(
    "at_the_threshold",
    st.fixed_dictionaries(
        {
            "d": disp.model(["CodyLorentz", "TaucLorentz"], max_rep=2, min_rep=1),
            "l": fl(200, 1500, 3),
            "step": st.integers(-1, 1),
            "which": st.sampled_from(["gap", "gap", "resonance"]),
            "arr": st.booleans(),
        }
    ),
    400,
    8000,
)
def threshold(case, t):
    """Exactly at the energy where a piecewise formula changes (or the next number above or below) the absorption is continuous."""
    lb = case["l"]
    E = float(elli.utils.conversion_wavelength_energy(lb))
    x = np.nextafter(E, np.inf * case["step"]) if case["step"] else E
    s = {"k": case["d"]["k"], "s": list(case["d"]["s"]), "r": [list(r) for r in case["d"]["r"]]}
    if s["k"] == "CodyLorentz":
        s["s"][2 if case["which"] == "gap" else 5] = float(x)
        s["s"][0] = min(s["s"][0], 0.8 * s["s"][2], 0.8 * s["s"][5])
        want = disp.cody_eps2(E, *s["s"])
    else:
        if case["which"] == "gap":
            s["s"][0] = float(x)
            for r in s["r"]:  # E > Eg, C < 2 E
                r[1] = max(r[1], 1.2 * x)
            want = 0.0
        else:
            s["s"][0] = min(s["s"][0], 0.7 * E)
            s["r"][0][1] = float(x)
            s["r"][0][2] = min(s["r"][0][2], 1.5 * x)
            want = 0.0
            for A, E0, C in s["r"]:
                want += A * E0 * C * (E - s["s"][0]) ** 2 / (((E**2 - E0**2) ** 2 + C**2 * E**2) * E)
    t.tag(s["k"], case["which"], f"step={case['step']}")
    t.nontrivial()
    L = [lb * 1.1, lb, lb * 0.9] if case["arr"] else [lb]
    got = np.asarray(build(s).get_dielectric(np.array(L)))[len(L) // 2]
    close(got.imag, want, 1e-9, 1e-9, f"absorption of {s['k']} at its {case['which']}")
    near = np.asarray(build(s).get_dielectric(lb * np.array([1 - 1e-7, 1 + 1e-7]))).real
    close(got.real, near.mean(), 1e-4, 1e-4 * max(1, abs(near[0])), f"real part of {s['k']} at its {case['which']}")
