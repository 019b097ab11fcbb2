"""Catalogue of every function on the sphere and on meshes, with variants."""

import numpy as np

import datafiles
import slep
import vh

WAVELETS = [(2, 0), (2, 1), (3, 0), (3, 2)]


def j_max(B, limit):
    """The largest wavelet scale: ceil(log_B(limit))."""
    j = 0
    while B**j < limit:
        j += 1
    return j


def js(B, limit, j_min):
    """None (scaling function) and every valid scale."""
    top = j_max(B, limit) - j_min
    return [None, *range(top + 1)] if top >= 0 else []


def provide(L, extra=()):
    """Data files for bandlimit L: topography, power spectrum and masks."""
    datafiles.write()
    slep.provide_masks(L)
    provide_region_masks(L)


def region_mask(name, res):
    """Stand-in land masks, of different shapes."""
    import ref

    th, ph = ref.grid(res)
    if name == "africa":
        return (th < 1.2) & (np.sin(ph + 0.3) > -0.5)
    return (th < 1.0) & (np.cos(ph - 0.3) > -0.6)


def provide_region_masks(L):
    for name in ("africa", "south_america"):
        for res in (L, 2 * L):
            np.save(vh.data_dir() / f"slepian_masks_{name}_L{res}.npy", region_mask(name, res))


def harmonic(L, data=True):
    """(class name, keywords) of every harmonic function."""
    yield "DiracDelta", {}
    yield "Identity", {}
    for ell in range(L):
        for m in range(-ell, ell + 1):
            yield "SphericalHarmonic", {"ell": ell, "m": m}
    for s in (10.0, 1.0, 0.1, 3.7):
        yield "Gaussian", {"sigma": s}
    for a, b in ((10.0, 10.0), (1.0, 10.0), (10.0, 0.5), (2.5, 1.5)):
        yield "HarmonicGaussian", {"l_sigma": a, "m_sigma": b}
    for a, b in ((1.0, 0.1), (0.1, 1.0), (0.7, 2.0)):
        yield "SquashedGaussian", {"t_sigma": a, "freq": b}
        yield "ElongatedGaussian", {"t_sigma": a, "p_sigma": b}
    for B, j_min in WAVELETS:
        for j in js(B, L, j_min):
            yield "AxisymmetricWavelets", {"B": B, "j_min": j_min, "j": j}
            for spin in (0, 1, 2, -1) if (B, j_min) == (2, 0) else (2,):
                yield "Ridgelets", {"B": B, "j_min": j_min, "spin": spin, "j": j}
    if data:
        for name in ("Earth", "Africa", "SouthAmerica", "Wmap"):
            yield name, {}
        yield "Earth", {"smoothing": 2}
        yield "NoiseEarth", {"SNR": 10.0}
        for B, j_min in WAVELETS[:1]:
            for j in js(B, L, j_min):
                for where in ("Africa", "Earth", "SouthAmerica"):
                    yield f"AxisymmetricWaveletCoefficients{where}", {"B": B, "j_min": j_min, "j": j}


def slepian(L, ranks):
    """(class name, keywords) of every Slepian function of a region."""
    for rank in range(ranks):
        yield "Slepian", {"rank": rank}
    yield "SlepianDiracDelta", {}
    yield "SlepianIdentity", {}
    for B, j_min in WAVELETS:
        for j in js(B, L * L, j_min):
            yield "SlepianWavelets", {"B": B, "j_min": j_min, "j": j}


def make(name, L, **kw):
    import sleplet

    return getattr(sleplet.functions, name)(L, **kw)


def label(name, kw):
    return name + ("(" + ",".join(f"{k}={v}" for k, v in kw.items()) + ")" if kw else "")
