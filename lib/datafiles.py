"""Synthetic stand-ins for the published data files (deterministic)."""

import numpy as np
import scipy.io as sio

import ref
import vh

LMAX = 40
EARTH = "EGM2008_Topography_flms_L2190.mat"
CMB = "wmap_lcdm_pl_model_wmap7baoh0.mat"


def earth_column(variant=0):
    """Coefficients with non-negative order only, like the published file."""
    flm = np.zeros(LMAX**2, dtype=complex)
    for ell in range(LMAX):
        for m in range(ell + 1):
            k = ref.ind(ell, m) + 1 + 1000 * variant
            z = np.cos(1.3 * k**1.1) + (1j * np.sin(0.7 * k**1.2) if m else 0)
            flm[ref.ind(ell, m)] = z * 700 / (1 + 0.4 * ell) ** 1.5
    return flm


def earth_flm(L, variant=0):
    """What the file means: a real field, mirrored in longitude."""
    col = earth_column(variant)
    out = np.zeros(L * L, dtype=complex)
    for ell in range(L):
        for m in range(ell + 1):
            z = col[ref.ind(ell, m)]
            out[ref.ind(ell, m)] = np.conj(z)
            out[ref.ind(ell, -m)] = (-1) ** m * z
    return out


def cl_column():
    ell = np.arange(2, LMAX)
    return 1000 + 300 * np.cos(ell / 3.0) + 5 * ell


def write(earth=True, cmb=True, variant=0):
    if earth:
        sio.savemat(vh.data_dir() / EARTH, {"flm": earth_column(variant)[:, None]})
    if cmb:
        sio.savemat(vh.data_dir() / CMB, {"cl": cl_column()[:, None]})
