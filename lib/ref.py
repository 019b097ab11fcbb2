"""Reference model: textbook definitions, independent of sleplet's code."""

import functools

import numpy as np
from scipy.special import sph_harm_y


def lm(L):
    return [(ell, m) for ell in range(L) for m in range(-ell, ell + 1)]


def ind(ell, m):
    return ell * ell + ell + m


@functools.lru_cache(maxsize=64)
def _theta_part(L, t1, t2):
    n = 2 * L + 48
    x, w = np.polynomial.legendre.leggauss(n)
    th = 0.5 * (t2 - t1) * x + 0.5 * (t2 + t1)
    w = w * 0.5 * (t2 - t1) * np.sin(th)
    A = np.array([sph_harm_y(ell, m, th, 0.0).real for ell, m in lm(L)])
    return (A * w) @ A.T


def region_gram(L, t1, t2, p1, p2):
    """K[i, j] = integral over the rectangle of conj(Y_i) Y_j."""
    T = _theta_part(L, float(t1), float(t2))
    m = np.array([mm for _, mm in lm(L)])
    d = m[np.newaxis] - m[:, np.newaxis]
    with np.errstate(all="ignore"):
        F = np.where(
            d == 0,
            p2 - p1,
            (np.exp(1j * d * p2) - np.exp(1j * d * p1)) / np.where(d == 0, 1, 1j * d),
        )
    return T * F


def ylm(L, theta, phi):
    """All Y_lm at points; shape (L^2,) + shape of theta."""
    theta, phi = np.broadcast_arrays(theta, phi)
    return np.array([sph_harm_y(ell, m, theta, phi) for ell, m in lm(L)])


def grid(L):
    """MWSS sampling of bandlimit L: L + 1 rings including both poles."""
    th = np.pi * np.arange(L + 1) / L
    ph = np.pi * np.arange(2 * L) / L
    return np.meshgrid(th, ph, indexing="ij")


def weight(L):
    """Pixel quadrature weights of that sampling."""
    th, _ = grid(L)
    return np.sin(th) * (np.pi / L) * (np.pi / L)


def synth(flm, L, res=None):
    """Field of the coefficients on the sampling grid of bandlimit res."""
    th, ph = grid(res or L)
    return np.tensordot(np.asarray(flm), ylm(L, th, ph), axes=1)


def check_concentration(rec, key, ev, V, K, tol, n_all=None, lo=0.0, hi=1.0):
    """Orthonormal, region-orthogonal, eigenvalue = energy, ordered, in range."""
    n = len(V)
    rec.close(V.conj() @ V.T, np.eye(n), tol, key + "/orthonormal", "sphere inner products")
    G = V.conj() @ K @ V.T
    rec.close(G, np.diag(ev[:n]), tol, key + "/region", "region inner products")
    if len(ev) > 1:
        rec.expect((np.diff(ev) <= tol).all(), key + "/order", "eigenvalues not decreasing")
    rec.expect(
        ((ev >= lo - tol) & (ev <= hi + tol)).all(), key + "/range",
        lambda: f"eigenvalues outside [0, 1]: {ev.min()}, {ev.max()}",
    )
    if n_all is not None:
        rec.expect(len(ev) == n_all, key + "/count", f"{len(ev)} eigenvalues, expected {n_all}")
        rec.close(ev.sum(), np.trace(K).real, tol * n_all, key + "/sum", "sum of eigenvalues")


def shannon_ok(n, x):
    """n is x rounded (either way when x is a half up to rounding error)."""
    return isinstance(n, (int, np.integer)) and abs(n - x) <= 0.5 + 1e-9


@functools.lru_cache(maxsize=None)
def _tiling(B):
    t = np.linspace(1 / B, 1, 40001)
    s = 2 * B / (B - 1) * (t - 1 / B) - 1
    with np.errstate(all="ignore"):
        f = np.where(np.abs(s) < 1, np.exp(-2 / (1 - s * s)), 0) / t
    c = np.concatenate(([0], np.cumsum((f[1:] + f[:-1]) / 2)))
    return t, 1 - c / c[-1]


def _k(B, x):
    t, k = _tiling(B)
    return np.interp(x, t, k, left=1, right=0)


def kappas(xlim, B, j_min, n_scales):
    """Scale-discretised generating functions (Wiaux et al. 2008)."""
    ell = np.arange(xlim)
    rows = [np.sqrt(np.clip(_k(B, ell / B**j_min), 0, 1))]
    for j in range(j_min, j_min + n_scales - 1):
        rows.append(np.sqrt(np.clip(_k(B, ell / B ** (j + 1)) - _k(B, ell / B**j), 0, 1)))
    return np.array(rows)
