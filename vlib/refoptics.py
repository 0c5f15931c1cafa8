"""Independent reference solutions of the plane-wave boundary-value problem.

* `isotropic`   - recursive (Airy/Rouard) Fresnel recursion with admittances.
* `anisotropic` - 4x4 solution built from Maxwell's curl equations by generic
  elimination of the normal field components, own series/eigen propagation, and a
  linear system for (r, t) instead of sorted transition matrices.

Conventions: exp(-i w t), eps1 + i eps2, p/s amplitudes such that at normal incidence
r_pp = -r_ss (the convention of the package's documented Fresnel formulas).
Both return r, t with index order [p, s] as [out, in], plus the p and s power factors.
"""

import numpy as np


def _kz(eps, kx):
    """Root with Im >= 0, and Re >= 0 if real."""
    k = np.sqrt(np.asarray(eps, complex) - kx**2)
    flip = (k.imag < 0) | ((k.imag == 0) & (k.real < 0))
    return np.where(flip, -k, k)


def isotropic(n_list, d_list, lbda, theta_deg):
    """n_list: complex indices front..back for one wavelength; d_list: inner thicknesses."""
    n = np.asarray(n_list, complex)
    kx = n[0] * np.sin(np.deg2rad(theta_deg))
    kz = np.array([_kz(x**2, kx) for x in n])
    out = {}
    for pol in "ps":
        q = kz if pol == "s" else kz / n**2
        # amplitude of tangential E (s) / tangential H (p)
        r = None
        t = 1.0 + 0j
        for j in range(len(n) - 2, -1, -1):
            rj = (q[j] - q[j + 1]) / (q[j] + q[j + 1])
            tj = 2 * q[j] / (q[j] + q[j + 1])
            if r is None:
                r, t = rj, tj
            else:
                ph = np.exp(2j * np.pi / lbda * kz[j + 1] * d_list[j])
                den = 1 + rj * r * ph**2
                r, t = (rj + r * ph**2) / den, tj * t * ph / den
        if pol == "p":
            t = t * n[0] / n[-1]
        out[pol] = (r, t)
    # time-averaged z flux ratios
    fs = kz[-1].real / kz[0].real
    fp = (n[-1] * np.conj(kz[-1] / n[-1])).real / (n[0] * np.conj(kz[0] / n[0])).real
    return out["p"][0], out["s"][0], out["p"][1], out["s"][1], fp, fs


# ---------------------------------------------------------------------------- 4x4
def _berreman(eps, kx):
    """System matrix D with d/dz F = i k0 D F, F = (Ex, Ey, Hx, Hy) (H scaled by Z0).

    Maxwell with d/dx -> i kx, d/dy -> 0 (k0 = 1):
      curl E = i H,  curl H = -i eps E
    Unknown normal components are eliminated numerically."""
    eps = np.asarray(eps, complex)
    # Express Ez, Hz by the tangential components: (curl H)_z = i kx Hy = -i (eps E)_z
    # (curl E)_z = i kx Ey = i Hz
    ex, ey, hx, hy = np.eye(4)
    ez = (-kx * hy - eps[2, 0] * ex - eps[2, 1] * ey) / eps[2, 2]
    hz = kx * ey
    E = np.array([ex, ey, ez])
    H = np.array([hx, hy, hz])
    epsE = eps @ E
    # (curl E)_x = -dz Ey = i Hx                -> dz Ey = -i Hx
    # (curl E)_y = dz Ex - i kx Ez = i Hy       -> dz Ex = i (Hy + kx Ez)
    # (curl H)_x = -dz Hy = -i (eps E)_x        -> dz Hy = i (eps E)_x
    # (curl H)_y = dz Hx - i kx Hz = -i(eps E)_y-> dz Hx = i (kx Hz - (eps E)_y)
    return np.array([H[1] + kx * E[2], -H[0], kx * H[2] - epsE[1], epsE[0]])


def _expm(a):
    """Scaling and squaring with a plain Taylor series (independent of scipy/torch)."""
    nrm = np.max(np.sum(np.abs(a), axis=1))
    s = max(0, int(np.ceil(np.log2(max(nrm, 1e-300)))) + 4) if nrm > 0 else 0
    a = a / 2.0**s
    term = np.eye(len(a), dtype=complex)
    out = term.copy()
    for k in range(1, 14):
        term = term @ a / k
        out = out + term
    for _ in range(s):
        out = out @ out
    return out


def _iso_modes(n, kz, kx, direction):
    """Columns: p, s tangential fields (Ex, Ey, Hx, Hy) of unit E amplitude."""
    sgn = 1 if direction > 0 else -1
    # s: E = y.  curl E = i H -> Hx = -kz Ey (sgn), Hz = kx Ey
    s = np.array([0, 1, -sgn * kz, 0], complex)
    # p: E = (cos, 0, -+ sin) with H = n y for both directions
    p = np.array([sgn * kz / n, 0, 0, n], complex)
    return np.stack([p, s], axis=1)


def _back_modes(eps, kx):
    """The two outgoing/decaying modes of an anisotropic exit half-space."""
    q, w = np.linalg.eig(_berreman(eps, kx))
    score = []
    for k in range(4):
        ex, ey, hx, hy = w[:, k]
        sz = (ex * np.conj(hy) - ey * np.conj(hx)).real / np.linalg.norm(w[:, k]) ** 2
        score.append(q[k].imag if abs(q[k].imag) > 1e-7 else sz)
    score = np.array(score)
    idx = np.argsort(-score)
    gap = (score[idx[1]] - score[idx[2]]) / 2 if score[idx[1]] > 0 > score[idx[2]] else 0.0
    return w[:, idx[:2]], gap


def anisotropic(front_n, layers, back, lbda, theta_deg, back_iso):
    """layers: [(eps 3x3, d)], back: eps 3x3.  Returns (r, t, kappa) with r, t 2x2 [p,s];
    t is None for an anisotropic back medium; kappa estimates numerical condition."""
    n0 = complex(front_n)
    kx = n0 * np.sin(np.deg2rad(theta_deg))
    kz0 = _kz(n0**2, kx)
    inc = _iso_modes(n0, kz0, kx, +1)
    ref = _iso_modes(n0, kz0, kx, -1)
    gap = 1.0
    if back_iso:
        nb = np.sqrt(complex(back[0, 0]))
        if nb.imag < 0:
            nb = -nb
        out = _iso_modes(nb, _kz(nb**2, kx), kx, +1)
    else:
        out, gap = _back_modes(back, kx)
    f = out
    for eps, d in reversed(layers):
        f = _expm(-2j * np.pi / lbda * d * _berreman(eps, kx)) @ f
    # inc a + ref r = f t  ->  [f, -ref] [t; r] = inc
    a = np.hstack([f, -ref])
    scale = np.linalg.norm(a, axis=0)
    x = np.linalg.solve(a / scale, inc)
    x = x / scale[:, None]
    t, r = x[:2], x[2:]
    return r, (t if back_iso else None), np.linalg.cond(a / scale), gap
