"""Slepian objects of every kind, shared by several checks."""

import numpy as np

import ref
import vh

REGIONS = {
    "polar40": {"theta_max": 40},
    "polar100": {"theta_max": 100},
    "polar5": {"theta_max": 5},
    "polar170": {"theta_max": 170},
    "gap35": {"theta_max": 35, "gap": True},
    "gap70": {"theta_max": 70, "gap": True},
    "box": {"theta_min": 30, "theta_max": 120, "phi_min": 40, "phi_max": 200},
    "belt": {"theta_min": 60, "theta_max": 110},
    "wedge": {"phi_max": 100},
    "south": {"theta_min": 110},
    "blob": {"mask_name": "blob"},
    "stripe": {"mask_name": "stripe"},
}


def kwargs(name):
    return {
        k: (float(np.deg2rad(v)) if k.startswith(("theta", "phi")) else v)
        for k, v in REGIONS[name].items()
    }


def mask_of(name, L):
    """The mask of the arbitrary regions at a resolution."""
    th, ph = ref.grid(L)
    if name == "blob":
        return (th < 1.3) & (np.cos(ph) > -0.2)
    if name == "blob2":  # the same turned by one sample: equal area
        return np.roll(mask_of("blob", L), 1, axis=1)
    return np.sin(2 * ph + th) * np.cos(th - 0.5) > 0.1


def provide_masks(L):
    for name in ("blob", "blob2", "stripe"):
        for res in (L, 2 * L):
            np.save(vh.data_dir() / f"slepian_masks_{name}_L{res}.npy", mask_of(name, res))


def region(name):
    from sleplet.slepian import Region

    return Region(**kwargs(name))


def build(name, L):
    """The Slepian object of a region by its own class."""
    from sleplet.slepian import SlepianArbitrary, SlepianLimitLatLon, SlepianPolarCap

    kw = kwargs(name)
    if "mask_name" in kw:
        provide_masks(L)
        return SlepianArbitrary(L, kw["mask_name"])
    if set(kw) <= {"theta_max", "gap"}:
        return SlepianPolarCap(L, kw.pop("theta_max"), **kw)
    return SlepianLimitLatLon(L, **kw)


def dense(n, k=0):
    """A fixed complex vector with no special structure."""
    x = np.arange(1, n + 1) + 0.37 * k
    return np.cos(1.7 * x**1.3) + 1j * np.sin(2.3 * x + 0.11 * x * x)
