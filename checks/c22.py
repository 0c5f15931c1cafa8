"""C22 - effective-medium mixtures."""
from vlib.core import Property, Violation, close, raises, require
from vlib import rich
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C22",
    rule="a case is non-trivial if host and guest differ and the fraction is strictly between 0 and 1",
    assumptions=[
        "the mixing formulas are applied to each tensor element by itself (documented for isotropic inclusions); for "
        "Looyenga, Maxwell Garnett and Bruggeman the constituents are diagonal in the laboratory frame",
        "Looyenga's cube root is the principal one of passive permittivities",
        "Maxwell Garnett away from its resonance (the denominator of the formula is not close to zero)",
    ],
)

MIX = rich.MIX
KINDS = sorted(MIX)

# permittivities of passive media: dielectrics, absorbers, metals
die = fl(1.0, 20.0).map(lambda x: [x, 0.0])
ab = st.tuples(fl(-30.0, 30.0), fl(1e-3, 40.0)).map(list)
metal = st.tuples(fl(-60.0, -1.0), fl(1e-4, 3.0)).map(list)
ideal = fl(-60.0, -0.05).map(lambda x: [x, 0.0])  # metals without losses
eps = st.one_of(die, ab, ab, metal, ideal)
diag = st.one_of(eps.map(lambda e: [e]), st.lists(eps, min_size=3, max_size=3))
fraction = mix([0.0, 1.0, 0.5, 1 / 3, 2 / 3, 0.25], fl(0.0, 1.0), 0.3)


def const(spec):
    """Material with constant permittivity."""
    d = [elli.TableEpsilon([1.0, 1e6], [complex(*e)] * 2) for e in spec]
    if len(d) == 1:
        return elli.IsotropicMaterial(d[0])
    return elli.BiaxialMaterial(*d)


def expand(spec):
    v = [complex(*e) for e in spec]
    return np.array(v * 3 if len(v) == 1 else v)


def ill(kind, h, g, f):
    """Close to a pole or a branch point of the formula."""
    if kind == "mg":
        return np.min(abs(2 * h + g - f * (g - h)) / (abs(h) + abs(g))) < 1e-4
    if kind == "bruggeman":
        bb = (3 * f - 1) * g + (2 - 3 * f) * h
        return np.min(abs(bb**2 + 8 * h * g) / (abs(bb) ** 2 + 8 * abs(h * g))) < 1e-4
    return False


@P.sub("formula", st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "h": diag, "g": diag, "f": fraction, "via": st.sampled_from(["init", "set", "tensor_fraction"])}), 6000, 120000, 4)
def formula(case, t):
    kind, f = case["kind"], case["f"]
    h, g = expand(case["h"]), expand(case["g"])
    if ill(kind, h, g, f):
        t.tag("ill")
        return
    t.tag(kind, case["via"], "f=0" if f == 0 else "f=1" if f == 1 else "between")
    t.nontrivial(bool(np.any(h != g)) and 0 < f < 1)
    lb = np.array([300.0, 500.0])
    hm, gm = const(case["h"]), const(case["g"])
    if case["via"] == "init":
        e = MIX[kind](hm, gm, f).get_tensor(lb)
    elif case["via"] == "set":
        m = MIX[kind](hm, gm, 0.3)
        m.get_tensor(lb)
        m.set_fraction(f)
        e = m.get_tensor(lb)
    else:
        m = MIX[kind](hm, gm, 0.3)
        keep = m.get_tensor(lb)
        e = m.get_tensor_fraction(lb, f)
        close(m.get_tensor(lb), keep, 0, 0, "get_tensor_fraction changed the mixture")
    require(np.shape(e) == (2, 3, 3), f"shape {np.shape(e)}")
    close(e[0], e[1], 1e-12, 1e-12 * np.max(abs(e)), "constant media mix to a constant")
    off = e[0] - np.diag(np.diag(e[0]))
    close(off, np.zeros((3, 3)), 0, 1e-9, f"{kind}: off-diagonal elements")
    e = np.diag(e[0])
    sc = np.maximum(abs(h), abs(g))
    close(e, rich.ref_mixture(kind, h, g, f), 1e-7, 1e-8 * sc, f"{kind} formula")
    if kind == "vca":
        close(e, h + f * (g - h), 1e-9, 1e-9 * sc, "virtual crystal")
    elif kind == "looyenga":
        close(e, (h ** (1 / 3) + f * (g ** (1 / 3) - h ** (1 / 3))) ** 3, 1e-9, 1e-9 * sc, "Looyenga")
    elif kind == "mg":
        close((e - h) * (g + 2 * h), f * (g - h) * (e + 2 * h), 1e-7, 1e-8 * (abs(e) + sc) * sc, "Clausius-Mossotti relation of Maxwell Garnett")
    else:
        close(f * (g - e) * (h + 2 * e), -(1 - f) * (h - e) * (g + 2 * e), 1e-7, 1e-8 * (abs(e) + sc) ** 2, "Bruggeman's equation")
    if f == 0:
        close(e, h, 1e-9, 1e-9 * sc, f"{kind} without guest")
    if f == 1:
        close(e, g, 1e-9, 1e-9 * sc, f"{kind} of the guest alone")
    # passive constituents give a passive mixture
    require(np.all(e.imag >= -1e-8 * (abs(e) + sc)), f"{kind}: gain from passive constituents: {e}")
    # real dielectrics stay inside the Wiener bounds
    if np.any((h.imag == 0) & (g.imag == 0) & (h.real * g.real < 0)):
        t.tag("lossless of opposite sign")
    if np.all(h.imag == 0) and np.all(g.imag == 0) and np.all(h.real > 0) and np.all(g.real > 0):
        t.tag("wiener")
        close(e.imag, np.zeros(3), 0, 1e-9 * sc, f"{kind}: loss from transparent constituents")
        lo, hi = 1 / ((1 - f) / h.real + f / g.real), (1 - f) * h.real + f * g.real
        require(np.all(e.real >= lo * (1 - 1e-9)) and np.all(e.real <= hi * (1 + 1e-9)), f"{kind}: outside the Wiener bounds: {e} not in {lo}, {hi}")


@P.sub("symmetry", st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "h": diag, "g": diag, "f": fraction}), 3000, 60000, 4)
def symmetry(case, t):
    """Exchange of the constituents, identical constituents, common factors, complex scale of the frame."""
    kind, f = case["kind"], case["f"]
    h, g = expand(case["h"]), expand(case["g"])
    lb = 500.0
    t.tag(kind)
    t.nontrivial(bool(np.any(h != g)) and 0 < f < 1)
    sc = np.maximum(abs(h), abs(g))
    hm, gm = const(case["h"]), const(case["g"])
    same = MIX[kind](hm, const(case["h"]), f).get_tensor(lb)[0]
    close(np.diag(same), h, 1e-9, 1e-9 * sc, f"{kind} of identical constituents")
    same = MIX[kind](gm, gm, f).get_tensor(lb)[0]
    close(np.diag(same), g, 1e-9, 1e-9 * sc, f"{kind} of one and the same material")
    if ill(kind, h, g, f):
        return
    e = np.diag(MIX[kind](hm, gm, f).get_tensor(lb)[0])
    if kind != "mg":
        x = np.diag(MIX[kind](gm, hm, 1 - f).get_tensor(lb)[0])
        close(x, e, 1e-7, 1e-8 * sc, f"{kind}: host and guest exchanged")
    # axes are treated alike
    if len(case["h"]) == 3 and len(case["g"]) == 3:
        x = np.diag(MIX[kind](const(case["h"][1:] + case["h"][:1]), const(case["g"][1:] + case["g"][:1]), f).get_tensor(lb)[0])
        close(np.roll(x, 1), e, 1e-7, 1e-8 * sc, f"{kind}: axes permuted")
    m = MIX[kind](const([[e[0] * 3, e[1]] for e in case["h"]]), gm, f)
    m.set_constituents(hm, gm)
    close(np.diag(m.get_tensor(lb)[0]), e, 1e-12, 1e-12 * sc, f"{kind} after set_constituents")


@P.sub("continuity", st.fixed_dictionaries({"kind": st.sampled_from(["bruggeman", "bruggeman", "looyenga", "vca", "mg"]), "h": st.one_of(die, ab, metal, ideal), "g": st.one_of(die, ab, metal, ideal), "f": fl(0.0, 0.9), "w": fl(0.001, 0.1)}), 1200, 25000, 2)
def continuity(case, t):
    """Along a path in the fraction the answer never jumps to another root."""
    kind = case["kind"]
    h, g = complex(*case["h"]), complex(*case["g"])
    fs = np.linspace(case["f"], case["f"] + case["w"], 9)
    if any(ill(kind, np.array([h]), np.array([g]), f) for f in np.linspace(fs[0], fs[-1], 65)):
        t.tag("ill")
        return
    t.tag(kind)
    t.nontrivial(h != g)
    m = MIX[kind](const([case["h"]]), const([case["g"]]), 0.0)
    e = []
    for f in fs:
        m.set_fraction(f)
        e.append(m.get_tensor(500.0)[0, 0, 0])
    e = np.array(e)
    if kind == "bruggeman":
        # the other root is -h g / (2 e); steps must not be larger than the distance of the roots
        other = -h * g / (2 * e)
        bb = (3 * fs - 1) * g + (2 - 3 * fs) * h
        close(2 * (e + other), bb, 1e-6, 1e-7 * (abs(h) + abs(g)), "sum of the two roots")
        step = abs(np.diff(e))
        gap = abs(e - other)
        df = np.diff(fs)
        deriv = 3 * abs(g - h) * (abs(e) + 1e-300) / (2 * gap)  # |de/df| = 3|g-h||e| / |4e - bb|
        bound = 4 * np.maximum(deriv[1:], deriv[:-1]) * df + 1e-9 * (abs(h) + abs(g))
        near = np.minimum(gap[1:], gap[:-1]) > 8 * np.maximum(deriv[1:], deriv[:-1]) * df
        require(np.all(step[near] <= bound[near]), f"Bruggeman jumps between roots: {e[:4]}.. steps {step.max():.3g}")


# ------------------------------------------------------------------- rich materials
@P.sub(
    "nested",
    st.fixed_dictionaries(
        {"mat": st.one_of(rich.mixture(), rich.mixture(constituents=rich.mixture()), rich.mixture(["vca"], rich.single()), rich.mixture(["vca"], rich.mixture(constituents=st.one_of(rich.iso(), rich.mixture())))),
         "lbda": rich.wavelengths(), "scalar": st.booleans(), "f2": fraction}
    ),
    900,
    20000,
    4,
)
def nested(case, t):
    spec, lb = case["mat"], case["lbda"]
    if rich.singular(spec, lb):
        return
    q = lb[0] if case["scalar"] else np.array(lb)

    def depth(s):
        return 0 if s["m"] != "mix" else 1 + max(depth(s["host"]), depth(s["guest"]))

    t.tag(spec["kind"], f"depth{depth(spec)}", "scalar" if case["scalar"] else "array")
    t.nontrivial(0 < spec["f"] < 1)
    m = rich.build(spec)
    for s in (spec, dict(spec, f=case["f2"])):
        if s is not spec:
            m.set_fraction(case["f2"])
        e, ref = m.get_tensor(q), rich.ref_tensor(s, q)
        if not np.all(np.isfinite(ref)):
            return
        n = 1 if case["scalar"] else len(lb)
        require(np.shape(e) == (n, 3, 3), f"shape {np.shape(e)}")
        close(e, ref, 1e-6, 1e-8 * np.max(abs(ref)), "mixture of dispersive materials")
    h, g = rich.build(spec["host"]), rich.build(spec["guest"])
    x = MIX[spec["kind"]](h, g, case["f2"])
    close(x.get_tensor(q), m.get_tensor(q), 1e-12, 0, "freshly built mixture")
    n0 = m.get_refractive_index(q)
    close(np.diagonal(n0, axis1=1, axis2=2) ** 2, np.diagonal(m.get_tensor(q), axis1=1, axis2=2), 1e-9, 1e-9, "refractive index squared")


ERR = ["ignore", "warn", "print"]


# h, g, f with a vanishing denominator of Maxwell Garnett: g (1 - f) = -h (2 + f)
pole = st.sampled_from([0.5, 0.25, 0.75, 0.0]).map(lambda f: [[[1.0, 0.0]], [[-(2 + f) / (1 - f), 0.0]], f])


@P.sub("settings", st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "hgf": st.one_of(st.tuples(diag, diag, fraction).map(list), pole), "err": st.lists(st.sampled_from(["ignore", "warn", "raise"]), min_size=4, max_size=4), "bad": st.booleans()}), 1500, 30000, 2)
def global_settings(case, t):
    """numpy's error handling is as before, whether the evaluation succeeds or fails."""
    keys = ["divide", "over", "under", "invalid"]
    want = dict(zip(keys, case["err"]))
    hs, gs, f = case["hgf"]
    hm, gm = const(hs), const(gs)
    if case["bad"]:
        gm = elli.IsotropicMaterial(elli.Table([400.0, 600.0], [1.5, 1.6]))  # 900 nm is outside
    t.tag(case["kind"], "failing" if case["bad"] else "fine")
    t.nontrivial(hs != gs and 0 < f < 1)
    m = MIX[case["kind"]](hm, gm, f)
    old = np.geterr()
    try:
        np.seterr(**want)
        try:
            m.get_tensor(np.array([900.0, 500.0]))
        except (ValueError, FloatingPointError):
            t.tag("raised")
        now = np.geterr()
    finally:
        np.seterr(**old)
    if now != want:
        raise Violation(f"{case['kind']} changed numpy's error settings from {want} to {now}")


# --------------------------------------------------------------------- rejections
bad_fraction = st.one_of(fl(-1e3, -1e-9, 12), fl(1.0000001, 1e3, 7), st.sampled_from([float("inf"), -float("inf"), float("nan"), -1e-300, float(np.nextafter(1.0, 2))]))
hist = st.lists(st.one_of(fraction.map(lambda f: ["ok", f]), bad_fraction.map(lambda f: ["bad", f])), min_size=1, max_size=8)


@P.sub("fraction_guard", st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "h": die, "g": die, "f": fraction, "ops": hist}), 1200, 25000, 2)
def guard(case, t):
    kind = case["kind"]
    hm, gm = const([case["h"]]), const([case["g"]])
    m = MIX[kind](hm, gm, case["f"])
    cur = case["f"]
    t.nontrivial(len({o[0] for o in case["ops"]}) == 2)
    h, g = expand([case["h"]]), expand([case["g"]])
    for what, f in case["ops"]:
        t.tag(what)
        if what == "ok":
            m.set_fraction(f)
            cur = f
        else:
            raises(ValueError, lambda: m.set_fraction(f), f"set_fraction({f})")
            raises(ValueError, lambda: MIX[kind](hm, gm, f), f"mixture with fraction {f}")
        e = np.diag(m.get_tensor(500.0)[0])
        close(e, rich.ref_mixture(kind, h, g, cur), 1e-8, 1e-9, f"{kind} after {what} fraction {f}")
        require(m.fraction == cur, f"fraction is {m.fraction}, not {cur}")
