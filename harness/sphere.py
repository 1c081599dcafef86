"""Oracles on the sphere which do not use the package under test."""

import numpy as np
import scipy.special as sp


def ylm_matrix(L, theta, phi):
    """Spherical harmonics at points, a row per (l, m) in the usual order."""
    out = np.empty((L * L, len(theta)), dtype=complex)
    for ell in range(L):
        for m in range(-ell, ell + 1):
            out[ell * ell + ell + m] = sp.sph_harm_y(ell, m, theta, phi)
    return out


def box_rule(L, tmin, tmax, pmin, pmax):
    """A rule exact for products of two functions of bandlimit L over a box."""
    n = 2 * L + 2
    x, w = np.polynomial.legendre.leggauss(n)
    # in theta, as products of two harmonics are not polynomials in cos(theta)
    nt = 4 * L + 24
    xt, wt = np.polynomial.legendre.leggauss(nt)
    t = (tmax - tmin) / 2 * xt + (tmax + tmin) / 2
    wt = wt * (tmax - tmin) / 2 * np.sin(t)
    xp, wp = np.polynomial.legendre.leggauss(4 * L + 32)
    p = (pmax - pmin) / 2 * xp + (pmax + pmin) / 2
    wp = wp * (pmax - pmin) / 2
    T, P = np.meshgrid(t, p, indexing="ij")
    W = np.outer(wt, wp)
    return T.ravel(), P.ravel(), W.ravel()


def join(*rules):
    return tuple(np.concatenate(x) for x in zip(*rules, strict=True))


def sphere_rule(L):
    return box_rule(L, 0, np.pi, 0, 2 * np.pi)


def region_rule(L, reg):
    k = reg["type"]
    if k == "polar":
        r = box_rule(L, 0, reg["theta_max"], 0, 2 * np.pi)
        if reg.get("gap"):
            r = join(r, box_rule(L, np.pi - reg["theta_max"], np.pi, 0, 2 * np.pi))
        return r
    if k == "lim_lat_lon":
        return box_rule(
            L, reg["theta_min"], reg["theta_max"], reg["phi_min"], reg["phi_max"]
        )
    raise ValueError(k)


def mwss_grid(L):
    """The MWSS samples: both poles and 2L longitudes."""
    t = np.pi * np.arange(L + 1) / L
    p = np.pi * np.arange(2 * L) / L
    return t, p


def mask_rule(mask):
    """The samples of a mask with the area of their pixels."""
    R = mask.shape[0] - 1
    t, p = mwss_grid(R)
    T, P = np.meshgrid(t, p, indexing="ij")
    W = np.sin(T) * (np.pi / R) * (np.pi / R)
    k = np.asarray(mask, dtype=bool)
    return T[k], P[k], W[k]


def gram(vectors, L, rule):
    t, p, w = rule
    s = vectors @ ylm_matrix(L, t, p)
    return (s * w) @ s.conj().T


def support_orders(vector, L, tol=1e-9):
    out = set()
    for ell in range(L):
        for m in range(-ell, ell + 1):
            if abs(vector[ell * ell + ell + m]) > tol:
                out.add(m)
    return sorted(out)


def save_mask(name, mask):
    """Offer a mask to the package as it looks for it."""
    import os
    import pathlib

    R = mask.shape[0] - 1
    path = pathlib.Path(os.environ["XDG_DATA_HOME"])
    path.mkdir(parents=True, exist_ok=True)
    np.save(path / f"slepian_masks_{name}_L{R}.npy", mask)


def blob_mask(R, rng, count=3):
    """A union of a few caps, as a mask at resolution R."""
    t, p = mwss_grid(R)
    T, P = np.meshgrid(t, p, indexing="ij")
    out = np.zeros(T.shape, dtype=bool)
    for _ in range(count):
        t0, p0 = np.arccos(rng.uniform(-1, 1)), rng.uniform(0, 2 * np.pi)
        r = rng.uniform(0.35, 0.8)
        d = np.cos(T) * np.cos(t0) + np.sin(T) * np.sin(t0) * np.cos(P - p0)
        out |= d >= np.cos(r)
    return out
