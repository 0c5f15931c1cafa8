"""C09 - incident polarisation as Jones or Stokes vector."""
from vlib.core import Property, close, require
from vlib import gen
from vlib.gen import elli, fl, mix, st
import numpy as np

P = Property(
    "C09",
    rule="a case is non-trivial if the state is not the default one and both field components are non-zero, "
    "or the sample is cross-polarising",
    assumptions=[
        "Stokes vectors with a polarised part (degree of polarisation above 0.02)",
        "psi and delta compared where the s component of the outgoing field is above 1e-3",
    ],
)

amp = mix([0.0, 1.0, 1 / np.sqrt(2)], fl(0.0, 1.0))
ang = mix([0.0, np.pi / 2, np.pi, -np.pi / 2], fl(-np.pi, np.pi))
# polarisation state: azimuth chi = atan(|Es|/|Ep|) in [0, 90], phase of s relative to p
state = st.fixed_dictionaries(
    {
        "chi": st.one_of(mix([0.0, 90.0, 45.0], fl(0, 90)), st.sampled_from([1e-3, 89.999, 89.9999, 1e-5])),
        "phase": mix([0.0, 180.0, 90.0, -90.0], fl(-180, 180)),
        "glob": mix([0.0], fl(-180, 180)),
        "amp": mix([1.0], fl(0.05, 20)),
        "dop": mix([1.0], fl(0.02, 1.0)),
    }
)


def jones(s, glob=True, amplitude=True):
    c = np.deg2rad(s["chi"])
    v = np.array([np.cos(c), np.sin(c) * np.exp(1j * np.deg2rad(s["phase"]))])
    if amplitude:
        v = v * s["amp"]
    if glob:
        v = v * np.exp(1j * np.deg2rad(s["glob"]))
    return v


def stokes(v, dop=1.0):
    """Textbook: S0 = |p|^2+|s|^2, S1 = |p|^2-|s|^2, S2 = 2 Re p s*, S3 = -2 Im p s*."""
    p, s = v
    s0 = abs(p) ** 2 + abs(s) ** 2
    rest = np.array([abs(p) ** 2 - abs(s) ** 2, 2 * (p * np.conj(s)).real, -2 * (p * np.conj(s)).imag])
    return np.array([s0, *(dop * rest)])


DUMMY = gen.structure({"front": {"m": "n", "n": [1, 0]}, "layers": [], "back": {"m": "n", "n": [1.5, 0]}})


def experiment(v, structure=DUMMY, lbda=500.0, theta=50.0):
    return elli.Experiment(structure, lbda, theta, v) if v is not None else elli.Experiment(structure, lbda, theta)


@P.sub("conversion", state, 2000, 60000)
def conversion(s, t):
    v = jones(s)
    t.nontrivial(0 < s["chi"] < 90 and (s["chi"], s["phase"]) != (45, 0))
    t.tag("circular" if abs(s["phase"]) == 90 and s["chi"] == 45 else None, "partially polarised" if s["dop"] < 1 else None)
    a = experiment(v)
    sv = stokes(v)
    i0 = sv[0]
    close(np.asarray(a.stokes_vector, float), sv, 1e-9, 1e-12 * i0, "Stokes vector of a Jones vector")
    close(np.asarray(a.jones_vector), v, 1e-12, 0, "given Jones vector")
    for dop in (1.0, s["dop"]):
        given = stokes(v, dop)
        b = experiment(given)
        close(np.asarray(b.stokes_vector), given, 1e-12, 0, "given Stokes vector")
        w = np.asarray(b.jones_vector)
        require(w.shape == (2,), "shape of the Jones vector")
        # up to global phase and intensity the same state: overlap one (amplitude accuracy sqrt(eps))
        u = v / np.linalg.norm(v)
        n = np.linalg.norm(w)
        close(n, 1.0, 1e-9, 0, "norm of the Jones vector of a Stokes vector")
        close(abs(np.vdot(u, w)) / n, 1.0, 1e-9, 0, f"Jones vector of a Stokes vector (dop {dop}), overlap")
        back = experiment(w).stokes_vector
        close(np.asarray(back), stokes(u), 0, 1e-7, "Stokes -> Jones -> Stokes")


CONT = {
    "array": lambda v: v,
    "list": lambda v: list(v),
    "tuple": lambda v: tuple(v),
}


@P.sub("containers_and_default", st.tuples(state, st.sampled_from(sorted(CONT)), st.sampled_from(["jones", "stokes", "int"])), 500, 5000)
def containers(c, t):
    s, cont, what = c
    t.nontrivial()
    t.tag(cont, what)
    if what == "int":
        # documented examples in integers
        for sv, jv in (([1, 1, 0, 0], [1, 0]), ([1, -1, 0, 0], [0, 1]), ([1, 0, 1, 0], [1, 1]), ([1, 0, -1, 0], [1, -1])):
            a, b = experiment(CONT[cont](sv)), experiment(CONT[cont](jv))
            u = np.array(jv) / np.linalg.norm(jv)
            close(abs(np.vdot(u, a.jones_vector)), 1.0, 1e-9, 0, f"{sv}: Jones vector")
            close(np.asarray(b.stokes_vector, float) / b.stokes_vector[0], np.array(sv, float), 0, 1e-12, f"{jv}: Stokes vector")
        d = experiment(None)
        close(abs(np.vdot([2**-0.5, 2**-0.5], d.jones_vector)), 1.0, 1e-9, 0, "default polarisation")
        close(np.asarray(d.stokes_vector, float), [1.0, 0, 1, 0], 0, 1e-12, "default Stokes vector")
        return
    v = jones(s) if what == "jones" else stokes(jones(s), s["dop"])
    a, b = experiment(v), experiment(CONT[cont](v))
    close(np.asarray(b.jones_vector), np.asarray(a.jones_vector), 1e-12, 1e-15, "Jones vector from a container")
    close(np.asarray(b.stokes_vector), np.asarray(a.stokes_vector), 1e-12, 1e-15, "Stokes vector from a container")
    c2 = experiment([1, 0, 1, 0])
    c2.set_vector(CONT[cont](v))
    close(np.asarray(c2.jones_vector), np.asarray(a.jones_vector), 1e-12, 1e-15, "set_vector: Jones vector")
    close(np.asarray(c2.stokes_vector), np.asarray(a.stokes_vector), 1e-12, 1e-15, "set_vector: Stokes vector")


an = gen.aniso()
iso = gen.iso(st.one_of(gen.n_transparent(), gen.n_absorbing(1.0)))


def full_case():
    return st.fixed_dictionaries(
        {
            "s": gen.stack(st.one_of(an, an, iso), back=st.one_of(iso, an), max_layers=2, dmax=300.0),
            "lbda": gen.wavelengths(1, 3),
            "theta": gen.theta(0, 85),
            "state": state,
            "solver": st.sampled_from(["4x4", "2x2"]),
        }
    )


def fields(res, v):
    return res.jones_matrix_r @ v, res.jones_matrix_t @ v


def angles_of(e):
    rho = e[:, 0] / e[:, 1]
    return rho, np.rad2deg(np.arctan(abs(rho))), -np.rad2deg(np.angle(rho))


def same_angles(res, exp, what, suffix=""):
    rho, psi, delta = exp
    tol = 1e-6 * (1 + np.max(abs(rho)) ** 2)
    close(getattr(res, "rho" + suffix), rho, 0, tol, f"{what}: rho{suffix}")
    close(getattr(res, "psi" + suffix), psi, 0, 1e-3, f"{what}: psi{suffix}")
    if np.min(abs(rho)) > 1e-2:
        d = (getattr(res, "delta" + suffix) - delta + 180) % 360 - 180
        close(d, np.zeros(d.shape), 0, 1e-2, f"{what}: delta{suffix}")


@P.sub("measured_angles", full_case(), 1500, 50000, 4)
def measured(case, t):
    s = case["s"]
    if gen.attenuation(s, case["lbda"], case["theta"]) > 4 or gen.min_kz(s, case["theta"]) < 1e-3:
        t.tag("outside domain")
        return
    is_iso = all(m["m"] == "n" for m in [s["back"], *[x["mat"] for x in s["layers"]]])
    solver = elli.Solver2x2 if is_iso and case["solver"] == "2x2" else elli.Solver4x4
    obj, L = gen.structure(s), np.array(case["lbda"], float)
    v = jones(case["state"])
    u = v / np.linalg.norm(v)
    descriptions = {
        "Jones vector": v,
        "normalised Jones vector without global phase": jones(case["state"], False, False),
        "Stokes vector": stokes(v),
        "partially polarised Stokes vector": stokes(v, case["state"]["dop"]),
    }
    ref = elli.Experiment(obj, L, case["theta"], v).evaluate(solver=solver)
    er, et = fields(ref, u)
    # the s component must not (nearly) vanish.  Stokes vectors carry about 1e-8 relative amplitude accuracy.
    ok_r, ok_t = np.min(abs(er[:, 1])) > 1e-2, np.min(abs(et[:, 1])) > 1e-2 and np.min(abs(ref.jones_matrix_t[:, 1, 1])) > 1e-3
    ok_r = ok_r and np.min(abs(ref.jones_matrix_r[:, 1, 1])) > 1e-3
    t.tag("reflection" if ok_r else None, "transmission" if ok_t else None)
    t.nontrivial((ok_r or ok_t) and not (case["state"]["chi"] in (0, 90)))
    for name, d in descriptions.items():
        res = elli.Experiment(obj, L, case["theta"], d).evaluate(solver=solver)
        close(res.jones_matrix_r, ref.jones_matrix_r, 0, 1e-12, f"{name}: Jones matrix must not depend on the incident state")
        close(res.R, ref.R, 0, 1e-12, f"{name}: R must not depend on the incident state")
        if ok_r:
            same_angles(res, angles_of(er), name)
        if ok_t:
            same_angles(res, angles_of(et), name, "_t")
    if ok_r:
        # default: +45 degrees
        e45 = fields(ref, np.array([1, 1]) / np.sqrt(2))[0]
        if np.min(abs(e45[:, 1])) > 1e-2:
            same_angles(obj.evaluate(L, case["theta"], solver=solver), angles_of(e45), "default polarisation")
            exp = elli.Experiment(obj, L, case["theta"], v)
            exp.set_vector([1, 0, 1, 0])
            same_angles(exp.evaluate(solver=solver), angles_of(e45), "polarisation set afterwards")
