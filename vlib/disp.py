"""Generated dispersion models: JSON-able specs, construction, independent formulas.

Spec: {"k": kind, "s": [single params in declared order], "r": [[rep params]...]}
Sums: {"k": "sum", "of": [specs]}   (same representation, see REPR)
"""

from . import boot  # isort: skip

import numpy as np
from hypothesis import strategies as st

from .gen import elli, fl, mix

H, C, Q = 6.62607015e-34, 299792458.0, 1.602176634e-19
HC_NM = H * C / Q * 1e9
EPS0_CM = 8.8541878188e-12 * 1e-2  # F/cm
HBAR_EV = H / Q / 2 / np.pi

# kind: (single parameter names and defaults, repeated ones, representation)
TEMPLATES = {
    "Cauchy": (dict(n0=1.5, n1=0, n2=0, k0=0, k1=0, k2=0), {}, "n"),
    "CauchyCustomExponent": (dict(n0=1.5), dict(f=0, e=1), "n"),
    "CauchyUrbach": (dict(n0=1.5, B=0, C=0, D=0, Eg=2, Eu=0.5), {}, "n"),
    "ConstantRefractiveIndex": (dict(n=1), {}, "n"),
    "EpsilonInf": (dict(eps=1), {}, "eps"),
    "DrudeEnergy": (dict(A=0, gamma=0), {}, "eps"),
    "DrudeResistivity": (dict(rho_opt=1, tau=1), {}, "eps"),
    "Gaussian": ({}, dict(A=1, E=1, sigma=1), "eps"),
    "LorentzEnergy": ({}, dict(A=1, E=0, gamma=0), "eps"),
    "LorentzLambda": ({}, dict(A=1, lambda_r=0, gamma=0), "eps"),
    "Poles": (dict(A_ir=1, A_uv=1, E_uv=6), {}, "eps"),
    "Polynomial": (dict(e0=1), dict(f=0, e=0), "eps"),
    "Sellmeier": ({}, dict(A=0, B=0), "eps"),
    "SellmeierCustomExponent": ({}, dict(A=0, e_A=1, B=0, e_B=1), "eps"),
    "Tanguy": (dict(A=1, d=3, gamma=0.1, R=0.1, Eg=1, a=0, b=0), {}, "eps"),
    "TaucLorentz": (dict(Eg=1), dict(A=20, E=1.5, C=1), "eps"),
    "CodyLorentz": (dict(Eg=1.6, A=100, Et=1.8, gamma=2.4, Ep=0.8, E0=3.6, Eu=0.05), {}, "eps"),
}
SIMPLE = [k for k in TEMPLATES if k not in ("CodyLorentz", "Tanguy")]
INDEX = [k for k in TEMPLATES if TEMPLATES[k][2] == "n"]
EPS = [k for k in TEMPLATES if TEMPLATES[k][2] == "eps"]

cplx = st.tuples(fl(0.2, 4.0), mix([0.0], fl(0.0, 3.0))).map(list)
number = mix([0.0, 1.0, -1.0], fl(-5.0, 5.0))

SINGLE = {
    "Cauchy": st.tuples(fl(1.0, 3.0), fl(-50, 100), fl(-20, 20), fl(0, 0.5), fl(0, 50), fl(0, 20)),
    "CauchyCustomExponent": st.tuples(fl(1.0, 3.0)),
    "CauchyUrbach": st.tuples(fl(1.0, 3.0), fl(-0.05, 0.1), fl(-0.002, 0.01), fl(0, 1.0), fl(0.5, 6), fl(0.1, 2)),
    "ConstantRefractiveIndex": st.tuples(st.one_of(fl(0.1, 4), cplx)),
    "EpsilonInf": st.tuples(st.one_of(fl(-5, 10), cplx)),
    "DrudeEnergy": st.tuples(fl(-50, 50), fl(0, 3)),
    "DrudeResistivity": st.tuples(
        st.floats(-7, 0).map(lambda x: float(f"{10**x:.4g}")), st.floats(-17, -12).map(lambda x: float(f"{10**x:.4g}"))
    ),
    "Poles": st.tuples(fl(-5, 5), fl(-200, 200), fl(6.5, 20)),
    "Polynomial": st.tuples(fl(-5, 5)),
    "Tanguy": st.tuples(
        fl(0.1, 50),
        st.one_of(st.sampled_from([3, 2, 3.0, 2.0]), mix([2.98, 2.02, 1.98, 2.5, 1.5, 1.02], fl(1.004, 2.996)).filter(lambda d: abs(d - 2) > 0.003)),
        fl(0.01, 0.5),
        fl(0.01, 0.5),
        fl(0.8, 5),
        fl(0, 50),
        fl(40, 200),
    ),
    "TaucLorentz": st.tuples(fl(0.3, 4.0)),
    "CodyLorentz": st.tuples(fl(0.5, 3), fl(5, 200), fl(0.05, 1), fl(0.3, 5), fl(0.2, 3), fl(0.3, 4), fl(0.02, 0.5)).map(
        # Et and E0 above the gap
        lambda t: (t[0], t[1], round(t[0] + t[2], 6), t[3], t[4], round(t[0] + t[2] + t[5], 6), t[6])
    ),
}
expo = st.one_of(st.sampled_from([-4, -2, -1, 0, 1, 2, -2.0, 0.5]), fl(-4, 1))
REP = {
    "CauchyCustomExponent": st.tuples(fl(-3, 3), expo),
    "Gaussian": st.tuples(fl(-5, 20), fl(0.5, 8), fl(0.05, 4)),
    "LorentzEnergy": st.tuples(fl(-20, 100), fl(0, 10), fl(0.01, 3)),
    "LorentzLambda": st.tuples(fl(-3, 10), fl(0, 2500), fl(0.5, 400)),
    "Polynomial": st.tuples(fl(-3, 3), expo),
    "Sellmeier": st.tuples(fl(-2, 5), st.one_of(fl(0, 0.02), fl(-3, 0), fl(8, 200))),
    "SellmeierCustomExponent": st.one_of(
        st.tuples(fl(-2, 5), expo, fl(0.001, 0.15), st.one_of(st.just(2), fl(1, 3))),
        st.tuples(fl(-2, 5), expo, st.one_of(fl(-0.3, -0.01), fl(3, 12)), st.sampled_from([1, 2, 3, 2.0])),
    ),
    "TaucLorentz": st.tuples(fl(1, 200), fl(0.2, 6), fl(0.05, 1.9)),
}


def _fix(kind, spec):
    if kind == "TaucLorentz":  # E > Eg, C < 2 E (the formula's range)
        eg = spec["s"][0]
        spec["r"] = [[a, round(eg + de, 6), round(min(cc, 1.0) * min(1.9 * (eg + de), 10), 6)] for a, de, cc in spec["r"]]
    return spec


def _same_terms(t):
    """Sometimes two terms are equal, or equal in one parameter."""
    r, what, j = t
    if len(r) < 2 or what > 5:
        return r
    r = [list(x) for x in r]
    if what > 2:
        r[-1] = list(r[0])
    else:
        r[-1][j % len(r[0])] = r[0][j % len(r[0])]
    return r


def model(kinds, max_rep=3, min_rep=0):
    def one(kind):
        s = SINGLE.get(kind)
        r = REP.get(kind)
        return st.fixed_dictionaries(
            {
                "k": st.just(kind),
                "s": s.map(list) if s is not None else st.just([]),
                "r": st.tuples(
                    st.lists(r.map(list), min_size=max(min_rep, 0), max_size=max_rep), st.integers(0, 23), st.integers(0, 5)
                ).map(_same_terms)
                if r is not None
                else st.just([]),
            }
        ).map(lambda x: _fix(kind, x))

    return st.sampled_from(list(kinds)).flatmap(one)


def val(v):
    return complex(*v) if isinstance(v, list) else v


def build(spec):
    if spec["k"] == "sum":
        d = [build(x) for x in spec["of"]]
        out = d[0]
        for x in d[1:]:
            out = out + x
        return out
    d = getattr(elli, spec["k"])(*[val(v) for v in spec["s"]])
    for r in spec["r"]:
        d.add(*[val(v) for v in r])
    return d


def repr_of(spec):
    return repr_of(spec["of"][0]) if spec["k"] == "sum" else TEMPLATES[spec["k"]][2]


# --------------------------------------------------------------- independent formulas
_GL = np.polynomial.legendre.leggauss(400)


def _dawson(x):
    """Dawson function by its defining integral (composite Gauss-Legendre)."""
    x = np.asarray(x, float)
    g, w = _GL
    ax = np.abs(x)[..., None]
    # integrate exp(t^2 - x^2) over t in [max(0, x - 8/x..), x]; integrand decays from the end
    lo = np.where(ax > 6, ax - 40 / np.maximum(ax, 1e-9), 0 * ax)
    lo = np.maximum(lo, 0)
    t = lo + (g + 1) / 2 * (ax - lo)
    v = np.sum(np.exp(t**2 - ax**2) * w, axis=-1) * ((ax - lo) / 2)[..., 0]
    return np.sign(x) * v


def _tauc_eps2(E, Eg, A, E0, Cc):
    return np.where(E > Eg, A * E0 * Cc * (E - Eg) ** 2 / ((E**2 - E0**2) ** 2 + Cc**2 * E**2) / E, 0.0)


def tauc_eps1(E, Eg, A, E0, Cc):
    """Jellison & Modine (1996) with erratum, eps1 without eps_inf (written anew)."""
    al = np.sqrt(4 * E0**2 - Cc**2)
    ga = np.sqrt(E0**2 - Cc**2 / 2 + 0j).real if E0**2 >= Cc**2 / 2 else None
    g2 = E0**2 - Cc**2 / 2
    aln = (Eg**2 - E0**2) * E**2 + Eg**2 * Cc**2 - E0**2 * (E0**2 + 3 * Eg**2)
    aat = (E**2 - E0**2) * (E0**2 + Eg**2) + Eg**2 * Cc**2
    z4 = (E**2 - g2) ** 2 + al**2 * Cc**2 / 4
    del ga
    t1 = A * Cc * aln / (2 * np.pi * z4 * al * E0) * np.log((E0**2 + Eg**2 + al * Eg) / (E0**2 + Eg**2 - al * Eg))
    t2 = -A * aat / (np.pi * z4 * E0) * (np.pi - np.arctan((2 * Eg + al) / Cc) + np.arctan((al - 2 * Eg) / Cc))
    t3 = 2 * A * E0 * Eg * (E**2 - g2) / (np.pi * z4 * al) * (np.pi + 2 * np.arctan(2 * (g2 - Eg**2) / (al * Cc)))
    t4 = -A * E0 * Cc * (E**2 + Eg**2) / (np.pi * z4 * E) * np.log(np.abs(E - Eg) / (E + Eg))
    t5 = 2 * A * E0 * Cc * Eg / (np.pi * z4) * np.log(np.abs(E - Eg) * (E + Eg) / np.sqrt((E0**2 - Eg**2) ** 2 + Eg**2 * Cc**2))
    return t1 + t2 + t3 + t4 + t5


def cody_eps2(E, Eg, A, Et, gam, Ep, E0, Eu):
    def gl(x):
        return (x - Eg) ** 2 / ((x - Eg) ** 2 + Ep**2) * A * E0 * gam * x / ((x**2 - E0**2) ** 2 + gam**2 * x**2)

    return np.where(E > Et, gl(E), Et * gl(Et) / E * np.exp((E - Et) / Eu))


def _tanguy(E, A, d, gam, R, Eg, a, b):
    import mpmath as mp

    def xi(z):
        return mp.sqrt(R / (Eg - z))

    def g(x):
        if d == 2:
            return 2 * mp.log(x) - 2 * mp.digamma(mp.mpf(1) / 2 - x)
        if d == 3:
            return 2 * mp.log(x) - 2 * mp.digamma(1 - x) - 1 / x
        return (
            2 * mp.pi * mp.gamma((d - 1) / 2 + x) / mp.gamma((d - 1) / 2) ** 2
            / mp.gamma(1 - (d - 1) / 2 + x) / x ** (d - 2)
            * (mp.cot(mp.pi * ((d - 1) / 2 - x)) - mp.cot(mp.pi * (d - 1)))
        )

    out = []
    d = mp.mpf(d)
    for e in np.atleast_1d(E):
        z = mp.mpc(float(e), gam)
        v = A * mp.mpf(R) ** (d / 2 - 1) / z**2 * (g(xi(z)) + g(xi(-z)) - 2 * g(xi(0)))
        out.append(complex(1 + a / (b - e**2) + v))
    return np.array(out)


def reference(spec, lbda):
    """Value in the model's own representation (n or eps) as complex array of len(lbda)."""
    L = np.atleast_1d(np.asarray(lbda, float))
    E = HC_NM / L
    k = spec["k"]
    if k == "sum":
        return sum(reference(x, L) for x in spec["of"])
    s = [val(v) for v in spec["s"]]
    r = [[val(v) for v in x] for x in spec["r"]]
    zero = np.zeros(L.shape, complex)
    if k == "Cauchy":
        n0, n1, n2, k0, k1, k2 = s
        return n0 + 100 * n1 / L**2 + 1e7 * n2 / L**4 + 1j * (k0 + 100 * k1 / L**2 + 1e7 * k2 / L**4)
    if k == "CauchyCustomExponent":
        return zero + s[0] + sum((f * np.power(L, float(e)) for f, e in r), zero)
    if k == "CauchyUrbach":
        n0, B, Cc, D, Eg, Eu = s
        return n0 + B * E**2 + Cc * E**4 + 1j * D * np.exp((E - Eg) / Eu)
    if k in ("ConstantRefractiveIndex", "EpsilonInf"):
        return zero + s[0]
    if k == "DrudeEnergy":
        return s[0] / (E**2 - 1j * s[1] * E)
    if k == "DrudeResistivity":
        rho, tau = s
        return HBAR_EV**2 / (EPS0_CM * rho * (tau * E**2 - 1j * HBAR_EV * E))
    if k == "Gaussian":
        out = zero
        for A, E0, sg in r:
            f = 2 * np.sqrt(np.log(2)) / sg
            out = out + 2 * A / np.sqrt(np.pi) * (_dawson(f * (E + E0)) - _dawson(f * (E - E0)))
            out = out + 1j * A * (np.exp(-((f * (E - E0)) ** 2)) - np.exp(-((f * (E + E0)) ** 2)))
        return out
    if k == "LorentzEnergy":
        return zero + 1 + sum((A / (E0**2 - E**2 - 1j * g * E) for A, E0, g in r), zero)
    if k == "LorentzLambda":
        return zero + 1 + sum((A * L**2 / (L**2 - l0**2 - 1j * g * L) for A, l0, g in r), zero)
    if k == "Poles":
        return zero + s[0] / E**2 + s[1] / (s[2] ** 2 - E**2)
    if k == "Polynomial":
        return zero + s[0] + sum((f * np.power(L, float(e)) for f, e in r), zero)
    if k == "Sellmeier":
        m = L / 1000
        return zero + 1 + sum((A * m**2 / (m**2 - B) for A, B in r), zero)
    if k == "SellmeierCustomExponent":
        m = L / 1000
        return zero + sum((A * m**eA / (m**2 - B**eB) for A, eA, B, eB in r), zero)
    if k == "TaucLorentz":
        return zero + sum(
            (tauc_eps1(E, s[0], *x) + 1j * _tauc_eps2(E, s[0], *x) for x in r), zero
        )
    if k == "Tanguy":
        return _tanguy(E, *s)
    raise ValueError(k)


def regular(spec, lbda, width=1e-3):
    """Not (nearly) on a singularity of the formula."""
    L = np.atleast_1d(np.asarray(lbda, float))
    E = HC_NM / L
    k = spec["k"]
    if k == "sum":
        return all(regular(x, L, width) for x in spec["of"])
    if k == "DrudeEnergy":
        return True
    if k == "LorentzEnergy":
        return all(np.min(abs(x[1] ** 2 - E**2 - 1j * x[2] * E)) > width for x in spec["r"])
    if k == "LorentzLambda":
        return all(np.min(abs(x[1] ** 2 - L**2 - 1j * x[2] * L) / L**2) > width for x in spec["r"])
    if k == "Poles":
        return np.min(abs(spec["s"][2] ** 2 - E**2)) > width
    if k == "Sellmeier":
        return all(np.min(abs((L / 1e3) ** 2 - x[1])) > width for x in spec["r"])
    if k == "SellmeierCustomExponent":
        return all(np.min(abs((L / 1e3) ** 2 - x[2] ** x[3])) > width for x in spec["r"])
    if k in ("TaucLorentz", "CodyLorentz"):
        return np.min(abs(E - spec["s"][0])) > width
    if k == "Tanguy":
        return np.min(abs(spec["s"][6] - E**2)) > width
    return True
