"""The documented result quantities (names) and comparison of whole results."""

import numpy as np

from .core import close

SIMPLE = [
    "R", "T", "R_matrix", "T_matrix", "Rc_matrix", "Tc_matrix", "jones_matrix_r", "jones_matrix_t",
    "jones_matrix_rc", "jones_matrix_tc",
]
RATIO = [
    "rho", "psi", "delta", "rho_t", "psi_t", "delta_t", "rho_matrix", "psi_matrix", "delta_matrix",
    "rho_matrix_t", "psi_matrix_t", "delta_matrix_t", "mueller_matrix",
]
ALL = SIMPLE + RATIO


def read(res, names=ALL):
    return {n: np.array(getattr(res, n)) for n in names}


def well_defined(res, tol=1e-2):
    """Ratios are numerically meaningful: r_ss and t_ss and the reduced s components not small."""
    jr, jt = res.jones_matrix_r, res.jones_matrix_t
    return bool(np.min(abs(jr[:, 1, 1])) > tol and np.min(abs(jt[:, 1, 1])) > tol * 1e-3)


def wrapped(d):
    return (np.asarray(d) + 180) % 360 - 180


def same(got, exp, what, rtol=1e-8, atol=1e-9, ratios=True, sel=None):
    """Two dicts of read()."""
    for n in exp:
        if n in RATIO and not ratios:
            continue
        a, b = got[n], exp[n]
        if n.startswith("delta"):
            # delta of a (nearly) vanishing coefficient is arbitrary
            rho = exp["rho" + n[5:]]
            if a.shape != b.shape:
                close(a, b, 0, 0, f"{what}: {n}")
            good = np.abs(rho) > 1e-5
            dd = wrapped(a - b)[good]
            close(dd, np.zeros(dd.shape), 0, 1e-4, f"{what}: {n}")
        elif n.startswith("psi"):
            close(a, b, 0, 1e-5, f"{what}: {n}")
        else:
            close(a, b, rtol, atol * max(1.0, float(np.max(np.abs(b))) if b.size else 1.0), f"{what}: {n}")
