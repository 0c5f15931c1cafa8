"""C12 - result quantities by name, index selection, derived matrices."""
from vlib.core import Property, close, require, fail
from vlib import gen
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C12",
    rule="a case is non-trivial if the four elements of the matrix (or sixteen of the Mueller matrix) are pairwise "
    "different, so that a wrong index or matrix would show",
    assumptions=["psi, delta and rho where r_ss and t_ss are not vanishing"],
)

cn = st.tuples(fl(-1.2, 1.2), fl(-1.2, 1.2)).map(list)
nz = cn.filter(lambda c: abs(complex(*c)) > 0.05)
jmat = st.tuples(cn, cn, cn, nz).map(list)
# power factors of p and s are equal except for absorbing exit media
pc = st.one_of(st.none(), st.lists(fl(0.01, 3), min_size=4, max_size=4), st.lists(st.tuples(fl(0.01, 3), fl(0.01, 3)).map(list), min_size=4, max_size=4))


def arr(ms):
    return np.array([[[complex(*m[0]), complex(*m[1])], [complex(*m[2]), complex(*m[3])]] for m in ms])


LIN = {"p": 0, "s": 1, "1": 0, "2": 1}
CIRC = {"L": 0, "R": 1, "1": 0, "2": 1}
S2 = 1 / np.sqrt(2)


def circular(j, reflected):
    """Basis change written out: L = (p + i s)/sqrt2, R = (p - i s)/sqrt2, for the reflected beam with the opposite sign."""
    inc = {0: (S2, 1j * S2), 1: (S2, -1j * S2)}
    sign = -1 if reflected else 1
    out = np.zeros_like(j)
    for i in (0, 1):
        e = inc[i]
        for k in (0, 1):
            a = inc[k]
            f = [j[:, 0, 0] * a[0] + j[:, 0, 1] * a[1], j[:, 1, 0] * a[0] + j[:, 1, 1] * a[1]]
            out[:, i, k] = sign * (np.conj(e[0]) * f[0] + np.conj(e[1]) * f[1])
    return out


def reference(jr, jt, power, jv):
    ref = {}
    ref["jones_matrix_r"], ref["jones_matrix_t"] = jr, jt
    ref["jones_matrix_rc"], ref["jones_matrix_tc"] = circular(jr, True), circular(jt, False)
    ref["R_matrix"], ref["Rc_matrix"] = abs(jr) ** 2, abs(ref["jones_matrix_rc"]) ** 2
    ref["T_matrix"] = abs(jt) ** 2 * power[:, :, None]
    ref["Tc_matrix"] = abs(circular(jt * np.sqrt(power)[:, :, None], False)) ** 2
    for x in "RT":
        ref[x] = (ref[x + "_matrix"][:, 0, 0] + ref[x + "_matrix"][:, 1, 1]) / 2
    for j, suf in ((jr, ""), (jt, "_t")):
        rho = j / j[:, 1:2, 1:2]
        ref["rho_matrix" + suf] = rho
        ref["psi_matrix" + suf] = np.rad2deg(np.arctan(abs(rho)))
        # (the phase of a vanishing coefficient is arbitrary)
        ref["delta_matrix" + suf] = np.where(abs(rho) > 1e-5, -np.rad2deg(np.angle(rho)), np.nan)
        e = j @ jv
        if np.min(abs(e[:, 1])) > 1e-3:
            q = e[:, 0] / e[:, 1]
            ref["rho" + suf] = q
            ref["psi" + suf] = np.rad2deg(np.arctan(abs(q)))
            ref["delta" + suf] = np.where(abs(q) > 1e-5, -np.rad2deg(np.angle(q)), np.nan)
    return ref


def same(got, exp, name, tol=1e-6):
    if "delta" in name or "Δ" in name:
        got = np.asarray(got)
        if got.shape != exp.shape:
            close(got, exp, 0, 0, name)
        d = ((got - exp + 180) % 360 - 180)[np.isfinite(exp)]
        close(d, np.zeros(d.shape), 0, tol, name)
    else:
        close(got, exp, 1e-8, 1e-9, name)


def names_of(ref, mm):
    """(name, expected) for every documented way of naming a quantity."""
    out = list(ref.items())
    out.append(("mueller_matrix", mm))
    short = {"r": "jones_matrix_r", "t": "jones_matrix_t", "rc": "jones_matrix_rc", "tc": "jones_matrix_tc", "Rc": "Rc_matrix", "Tc": "Tc_matrix"}
    for k, v in short.items():
        out.append((k, ref[v]))
    groups = [
        (["r", "jones_matrix_r"], "jones_matrix_r", LIN),
        (["t", "jones_matrix_t"], "jones_matrix_t", LIN),
        (["rc", "jones_matrix_rc"], "jones_matrix_rc", CIRC),
        (["tc", "jones_matrix_tc"], "jones_matrix_tc", CIRC),
        (["R", "R_matrix"], "R_matrix", LIN),
        (["T", "T_matrix"], "T_matrix", LIN),
        (["Rc", "Rc_matrix"], "Rc_matrix", CIRC),
        (["Tc", "Tc_matrix"], "Tc_matrix", CIRC),
        (["psi", "Ψ", "psi_matrix"], "psi_matrix", LIN),
        (["delta", "Δ", "delta_matrix"], "delta_matrix", LIN),
        (["rho", "ρ", "rho_matrix"], "rho_matrix", LIN),
        (["psi_t", "psi_matrix_t"], "psi_matrix_t", LIN),
        (["delta_t", "delta_matrix_t"], "delta_matrix_t", LIN),
        (["rho_t", "rho_matrix_t"], "rho_matrix_t", LIN),
    ]
    letters = {"r": "rc", "t": "tc", "R": "Rc", "T": "Tc"}
    for names, m, idx in groups:
        for n in names:
            for i, a in idx.items():
                for k, b in idx.items():
                    if i.isdigit() == k.isdigit():
                        out.append((f"{n}_{i}{k}", ref[m][:, a, b]))
    for n, m in letters.items():
        full = {"rc": "jones_matrix_rc", "tc": "jones_matrix_tc"}.get(m, m + "_matrix")
        for i in "LR":
            for k in "LR":
                out.append((f"{n}_{i}{k}", ref[full][:, CIRC[i], CIRC[k]]))
    for g, n in (("Ψ", "psi"), ("Δ", "delta"), ("ρ", "rho")):
        if n in ref:
            out.append((g, ref[n]))
    for i in range(4):
        for k in range(4):
            out.append((f"mueller_matrix_{i + 1}{k + 1}", mm[:, i, k]))
    return out


def mueller(j):
    a = np.array([[1, 0, 0, 1], [1, 0, 0, -1], [0, 1, 1, 0], [0, 1j, -1j, 0]])
    m = np.array([np.real(a @ np.kron(x, np.conj(x)) @ np.linalg.inv(a)) for x in j])
    return m / m[:, :1, :1]


BAD = ["foo", "foo_pp", "psi_xx", "psi_p", "psi_ppp", "R_00", "R_55", "r_p5", "Ψ_", "r_", "mueller_matrix_15", "mueller_matrix_00",
       "mueller_matrix_pps", "psi_33", "R_34", "jones_pp", "Q", "psi_matrix_xy", "delta_ab", "T_4s", "Rc_LX", "tc_", "rho_t_pq", "psi_t_"]

# two index characters of which at least one names no polarisation and no element
ODD = [c for c in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789" if c not in "psLR1234"]
PREFIX = ["r", "t", "rc", "tc", "R", "T", "Rc", "Tc", "psi", "delta", "rho", "Ψ", "Δ", "ρ", "psi_t", "delta_t", "rho_t", "jones_matrix_r",
          "jones_matrix_tc", "R_matrix", "Tc_matrix", "psi_matrix", "delta_matrix_t", "rho_matrix", "mueller_matrix"]
odd_name = st.tuples(
    st.sampled_from(PREFIX), mix(["r", "S", "P", "l"], st.sampled_from(ODD), 0.5), st.sampled_from("psLR1234rSPl"), st.booleans()
).map(lambda a: f"{a[0]}_{a[1]}{a[2]}" if a[3] else f"{a[0]}_{a[2]}{a[1]}")
bad_name = mix(BAD, odd_name, 0.4)


@P.sub(
    "all_names",
    st.fixed_dictionaries({"r": st.lists(jmat, min_size=1, max_size=4), "t": jmat, "pc": pc, "v": st.sampled_from([None, [1, 0.5], [0.6, 0.8j]]), "bad": bad_name}),
    1200,
    40000,
    4,
)
def all_names(case, t):
    jr = arr(gen.jones_list(case["r"]))
    n = len(jr)
    jt = arr([case["t"]] * n) * np.exp(0.3j * np.arange(n))[:, None, None]
    e = elli.Experiment(None, np.linspace(400, 700, n), 60.0, case["v"])
    power = np.ones((n, 2))
    if case["pc"] is None:
        res = elli.Result(e, jr, jt)
    else:
        p = np.array((case["pc"] * (n // 4 + 1))[:n])
        if n > 4:
            p = p * np.linspace(1, 2, n).reshape(-1, *[1] * (p.ndim - 1))
        res = elli.Result(e, jr, jt, p)
        power = p if p.ndim == 2 else np.stack([p, p], -1)
    t.tag(f"wavelengths={min(n, 20)}", "one power factor" if case["pc"] is not None and not isinstance(case["pc"][0], list) else None, "p/s power factors" if case["pc"] is not None and isinstance(case["pc"][0], list) else None)
    def differ(m):
        v = [abs(m[0].flat[i] - m[0].flat[k]) for i in range(4) for k in range(i)]
        return min(v) > 1e-3

    t.nontrivial(differ(jr) and differ(jt))
    ref = reference(jr, jt, power, np.asarray(e.jones_vector))
    for name, exp in names_of(ref, mueller(jr)):
        got = getattr(res, name)
        same(got, exp, name)
        same(res.get(name), exp, f"get({name!r})")
    b = case["bad"]
    for how, f in (("attribute", lambda: getattr(res, b)), ("get", lambda: res.get(b))):
        try:
            v = f()
        except Exception:  # noqa: BLE001
            continue
        fail(f"unknown name {b!r} by {how} returned {str(v)[:100]}")
    require(not hasattr(res, "no_such_quantity"), "hasattr() of an unknown name")


P.sub(
    "all_names_many_wavelengths",
    st.fixed_dictionaries({"r": gen.many_jones(700), "t": jmat, "pc": pc, "v": st.sampled_from([None, [1, 0.5], [0.6, 0.8j]]), "bad": bad_name}),
    100,
    3000,
    2,
)(all_names)


an = gen.aniso()
iso = gen.iso(gen.n_any(1.0))


@P.sub(
    "simulated",
    st.fixed_dictionaries({"s": gen.stack(st.one_of(an, an, iso), back=st.one_of(iso, an), max_layers=2, dmax=300.0), "lbda": gen.wavelengths(1, 3), "theta": gen.theta(0, 85)}),
    500,
    15000,
    2,
)
def simulated(case, t):
    """The same naming for results of the solver, against its own Jones matrices."""
    s = case["s"]
    if gen.attenuation(s, case["lbda"], case["theta"]) > 4 or gen.min_kz(s, case["theta"]) < 1e-3:
        t.tag("outside domain")
        return
    res = gen.structure(s).evaluate(np.array(case["lbda"], float), case["theta"])
    jr, jt = np.array(res.jones_matrix_r), np.array(res.jones_matrix_t)
    if np.min(abs(jr[:, 1, 1])) < 1e-2 or np.min(abs(jt[:, 1, 1])) < 1e-3:
        t.tag("vanishing ss")
        return
    # power factors from the two definitions of T
    iso_back = s["back"]["m"] == "n"
    t.tag("isotropic exit" if iso_back else "anisotropic exit")
    power = np.array(res.T_matrix)[:, :, 1] / np.maximum(abs(jt[:, :, 1]) ** 2, 1e-300)
    if np.min(abs(jt[:, 0, 1])) < 1e-4:
        power[:, 0] = np.array(res.T_matrix)[:, 0, 0] / np.maximum(abs(jt[:, 0, 0]) ** 2, 1e-300)
    if not np.all(np.isfinite(power)) or np.min(abs(jt[:, 0]).max(axis=1)) < 1e-4:
        t.tag("no transmission")
        return
    t.nontrivial(np.min(abs(jr[0, 0, 1])) > 1e-4)
    ref = reference(jr, jt, power, np.array([1, 1]) * S2)
    scale = max(1.0, np.max(abs(jt)) ** 2)
    for name, exp in names_of(ref, mueller(jr)):
        got = getattr(res, name)
        if "delta" in name or "Δ" in name:
            same(got, exp, name, 1e-2)
        else:
            close(got, exp, 1e-6, 1e-7 * scale, name)
