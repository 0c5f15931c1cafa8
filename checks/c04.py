"""C04 - energy conservation as an invariant of every passive structure."""
from vlib.core import Property, close, require
from vlib import gen, refoptics
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C04",
    rule="a case is non-trivial if the front and back medium or some layer (> 1 nm) differ in index and "
    "the angle of incidence is not zero, or some layer is absorbing or anisotropic",
    assumptions=[
        "transparent isotropic front medium, passive media",
        "attenuation exponent below 4 for the 4x4 solver and 300 for the 2x2 solver, |kz/k0| > 1e-3 in isotropic media",
    ],
)
TOL = 2e-6


def check(res, lossless, iso_back, what):
    R, Rc = res.R_matrix, res.Rc_matrix
    for name, m in (("R", R), ("Rc", Rc)):
        require(np.all(np.isfinite(m)), f"{what}: {name} not finite")
        require(m.min() >= 0 and m.max() <= 1 + TOL, lambda: f"{what}: {name} outside [0,1]: {m.min()}..{m.max()}")
        tot = m.sum(axis=1)
        require(tot.max() <= 1 + TOL, lambda: f"{what}: total reflected power {tot.max()} > 1 ({name})")
    require(np.all((res.R >= 0) & (res.R <= 1 + TOL)), f"{what}: R outside [0,1]")
    if not iso_back:
        return
    T, Tc = res.T_matrix, res.Tc_matrix
    for name, r, m in (("linear", R, T), ("circular", Rc, Tc)):
        require(m.min() >= -1e-9 and m.max() <= 1 + TOL, lambda: f"{what}: T ({name}) outside [0,1]: {m.min()}..{m.max()}")
        tot = r.sum(axis=1) + m.sum(axis=1)
        require(tot.max() <= 1 + TOL, lambda: f"{what}: R+T = {tot.max()} > 1 ({name} polarisation)")
        if lossless:
            require(abs(tot - 1).max() <= TOL, lambda: f"{what}: R+T = {tot} != 1 in a lossless structure ({name})")
    require(np.all((res.T >= -1e-9) & (res.R + res.T <= 1 + TOL)), f"{what}: R+T of unpolarised light > 1")
    if lossless:
        # (cross-polarised power is not part of the reported unpolarised R and T)
        cross = (R[:, 0, 1] + R[:, 1, 0] + T[:, 0, 1] + T[:, 1, 0]) / 2
        close(res.R + res.T + cross, np.ones(len(res.R)), 0, TOL, f"{what}: unpolarised R+T")


def run(case, t):
    s = case["s"]
    mats = [s["front"], *[x["mat"] for x in s["layers"]], s["back"]]
    iso_back = s["back"]["m"] != "aniso"

    def idx(m):
        return [gen.c(m["n"])] if m["m"] == "n" else [gen.c(v) for v in m["n"]] if m["m"] == "aniso" else [1.5 + 0j]

    lossless = all(v.imag == 0 for m in mats for v in idx(m))
    aniso = any(m["m"] == "aniso" for m in mats)
    att = gen.attenuation(s, case["lbda"], case["theta"])
    if gen.min_kz(s, case["theta"], case["lbda"]) < 1e-3:
        t.tag("outside domain")
        return
    if s["back"]["m"] == "aniso" and any(abs(v.imag) > abs(v.real) for v in idx(s["back"])):
        kb = gen.c(s["front"]["n"]).real * np.sin(np.deg2rad(case["theta"]))
        if refoptics._back_modes(gen.ref_tensor(s["back"], case["lbda"][0])[0], kb)[1] < 1e-3:
            t.tag("outside domain")
            return
    solver = case["solver"] if not aniso else "4x4"
    if att > (300 if solver == "2x2" else 4):
        t.tag("outside domain")
        return
    kx = abs(gen.c(s["front"]["n"]).real * np.sin(np.deg2rad(case["theta"])))
    tir = iso_back and s["back"]["m"] == "n" and idx(s["back"])[0].imag == 0 and idx(s["back"])[0].real < kx
    t.tag(solver, "lossless" if lossless else "absorbing", "anisotropic" if aniso else "isotropic")
    t.tag("total internal reflection" if tir else None, f"back={s['back']['m']}")
    t.tag("negative angle" if case["theta"] < 0 else None)
    t.nontrivial(
        (case["theta"] != 0 and (any(x["d"] > 1 for x in s["layers"]) or s["front"] != s["back"]))
        or not lossless
        or aniso
    )
    lb = np.array(case["lbda"], float)
    sol = elli.Solver2x2 if solver == "2x2" else elli.Solver4x4
    res = gen.structure(s).evaluate(lb, gen.as_given(case["theta"]), solver=sol)
    check(res, lossless, iso_back, solver)
    if tir:
        close(res.T, np.zeros(len(lb)), 0, 1e-9, "T under total internal reflection")
        if lossless and not aniso:
            close(res.R, np.ones(len(lb)), 0, TOL, "R under total internal reflection")
            close(res.R_pp, np.ones(len(lb)), 0, TOL, "R_pp under total internal reflection")


def cases(layer, back, front=None, **kw):
    return st.fixed_dictionaries(
        {
            "s": gen.stack(layer, front=front or gen.iso(gen.n_transparent(1.0, 3.0)), back=back, **kw),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.either_side(gen.theta()),
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    )


lossless = gen.iso(gen.n_transparent(1.0, 3.5))
plasma = gen.iso(fl(0.1, 3.0).map(lambda k: [0.0, k]))
absorbing = gen.iso(gen.n_any(3.0))
P.sub("lossless_isotropic", cases(st.one_of(lossless, lossless, lossless, plasma, gen.cauchy()), lossless), 1500, 40000, 2)(run)
P.sub("lossless_anisotropic", cases(st.one_of(gen.aniso(False), gen.aniso(False), lossless), lossless, min_layers=1), 1000, 40000, 2)(run)
P.sub("absorbing_isotropic", cases(absorbing, absorbing, dmax=300), 1500, 40000, 2)(run)
P.sub("absorbing_anisotropic", cases(st.one_of(gen.aniso(), absorbing), st.one_of(gen.aniso(), absorbing), dmax=300), 1000, 40000, 2)(run)
P.sub("hyperbolic", cases(st.one_of(gen.hyperbolic(), gen.aniso(), lossless), st.one_of(gen.hyperbolic(), absorbing, lossless), dmax=250, max_layers=3), 800, 30000, 2)(run)
P.sub(
    "total_reflection",
    st.fixed_dictionaries(
        {
            "s": gen.stack(
                st.one_of(lossless, gen.aniso(False)),
                front=gen.iso(gen.n_transparent(2.0, 3.5)),
                back=gen.iso(gen.n_transparent(1.0, 1.8)),
                dmax=150,
                max_layers=2,
            ),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.either_side(gen.theta(45, 89)),
            "solver": st.sampled_from(["2x2", "4x4"]),
        }
    ),
    600,
    20000,
)(run)
P.sub(
    "partial_total_reflection",
    st.tuples(gen.partial_reflection(st.one_of(lossless, gen.aniso(False), absorbing)), st.sampled_from(["2x2", "4x4"])).map(
        lambda t: dict(t[0], solver=t[1])
    ),
    600,
    20000,
)(run)
