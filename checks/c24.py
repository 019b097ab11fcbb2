"""Upsampling, Earth views, random signals and the selection of wavelet scales:
complete bases of coefficients (and every pattern of vanishing scales) against
spin-weighted harmonics and rotations evaluated independently."""

import itertools
import math

import numpy as np

import c15
import ref
import slep
import vh

ID = "C24"
LEVEL = "exploration"
RULE = (
    "every bandlimit, resolution from the bandlimit to the bound, spin and reality "
    "x every unit vector of coefficients, real and imaginary (upsampling is linear, "
    "so that these decide every signal); every unit vector under both Earth views; "
    "every variance of the grid and seed; every pattern of vanishing entries of "
    "small arrays of wavelet coefficients"
)
ASSUMPTIONS = ["spins and resolutions beyond the bounds are not explored"]
TOL = 1e-10
VARIANCES = [0.0, 1e-6, 0.5, 1.0, 2.0, 3.7, 100.0]
SEEDS = [0, 1, 30, 2024]
VIEWS = {"rotate_earth_to_africa": (44, 87, 341), "rotate_earth_to_south_america": (54, 108, 63)}


def Ls(tier):
    return [1, 2, 3, 4, 5, 6] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]


def spins(tier):
    return [-2, -1, 0, 1, 2] if tier == "quick" else [-4, -3, -2, -1, 0, 1, 2, 3, 4]


def resolutions(L):
    return sorted({L, L + 1, L + 2, 2 * L, 2 * L + 1, 4 * L, 16})


def BOUNDS(tier):
    return {"L": Ls(tier), "spin": spins(tier), "resolution": "L, L+1, L+2, 2L, 2L+1, 4L, 16", "variances": VARIANCES, "seeds": SEEDS}


def scenarios(tier):
    for L in Ls(tier):
        for res in resolutions(L):
            if res >= L:
                yield {"part": "upsample", "L": L, "res": res, "spins": spins(tier), "cost": L * L * res}
        for view in VIEWS:
            yield {"part": "view", "L": L, "view": view}
        yield {"part": "random", "L": L}
    for L, res in ((20, 32), (17, 50)):
        yield {"part": "upsample", "L": L, "res": res, "spins": [0, 1], "light": True, "cost": 10**5}
    for L in (16, 24):
        for view in VIEWS:
            yield {"part": "view", "L": L, "view": view, "cost": 10**5}
    yield {"part": "nonzero"}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


# ------------------------------------------------------------- reference
def small_d(ell, m, n, th):
    """Wigner's small d function, by its explicit sum."""
    out = np.zeros_like(th)
    f = math.factorial
    pre = math.sqrt(f(ell + m) * f(ell - m) * f(ell + n) * f(ell - n))
    for k in range(max(0, n - m), min(ell + n, ell - m) + 1):
        out += (
            (-1) ** (m - n + k) * pre / (f(ell + n - k) * f(k) * f(m - n + k) * f(ell - m - k))
            * np.cos(th / 2) ** (2 * ell + n - m - 2 * k) * np.sin(th / 2) ** (m - n + 2 * k)
        )
    return out


def spin_ylm(L, spin, th, ph):
    out = []
    for ell, m in ref.lm(L):
        if ell < abs(spin):
            out.append(np.zeros_like(th, dtype=complex))
        else:
            out.append((-1) ** spin * math.sqrt((2 * ell + 1) / (4 * np.pi)) * small_d(ell, m, -spin, th) * np.exp(1j * m * ph))
    return np.array(out)


def real_basis(L):
    """A basis (over the reals) of the coefficients of real fields."""
    for ell in range(L):
        for m in range(ell + 1):
            for c in (1.0, 1j) if m else (1.0,):
                flm = np.zeros(L * L, dtype=complex)
                flm[ref.ind(ell, -m)] = (-1) ** m * np.conj(c)
                flm[ref.ind(ell, m)] = c
                yield flm


def near_poles(th):
    """Spin functions are not single-valued at the poles."""
    return np.sin(th) < 1e-9


# ------------------------------------------------------------- upsampling
def _upsample(sc, rec):
    import pyssht as ssht

    from sleplet.harmonic_methods import invert_flm_boosted

    L, res = sc["L"], sc["res"]
    th, ph = ref.grid(res)
    n = L * L
    picks = range(n) if not sc.get("light") else (0, 1, 3, n // 2, n - 2 * L + 1, n - L, n - 1)
    for spin in sc["spins"]:
        if abs(spin) >= L:
            continue
        Y = ref.ylm(L, th, ph) if spin == 0 else (spin_ylm(L, spin, th, ph) if L <= 12 else None)
        away = np.ones_like(th, dtype=bool) if spin == 0 else ~near_poles(th)
        dense = slep.dense(n, 1)
        dense[: spin * spin] = 0
        inputs = [(f"dense spin={spin}", dense)]
        for k in picks:
            if k < spin * spin:
                continue
            for c in (1.0, 1j):
                e = np.zeros(n, dtype=complex)
                e[k] = c
                inputs.append((f"unit {k} times {c} spin={spin}", e))
        for what, flm in inputs:
            what = f"L={L} at {res}: {what}"
            keep = flm.copy()
            for kw in [{"spin": spin}] + ([{}, {"reality": False}] if spin == 0 else []):
                got = np.asarray(invert_flm_boosted(flm, L, res, **kw))
                rec.case((L, res, what, str(kw)))
                if not rec.expect(got.shape == th.shape, "upsample/shape", f"{what} {kw}: shape {got.shape}"):
                    continue
                if Y is not None:
                    want = np.tensordot(flm, Y, axes=1)
                    rec.close(got[away], want[away], TOL * L, "upsample/values", f"{what} {kw}")
                back = ssht.forward(got, res, Method="MWSS", Spin=spin)
                rec.close(back, np.concatenate([flm, np.zeros(res * res - n)]), TOL * res, "upsample/back", f"{what} {kw}: coefficients of the field")
            rec.expect(np.array_equal(keep, flm), "upsample/input", f"{what}: coefficients changed")
        if spin == 0:
            for flm in itertools.islice(real_basis(L), 0, None, 1 if not sc.get("light") else 37):
                got = np.asarray(invert_flm_boosted(flm, L, res, reality=True, spin=0))
                rec.case((L, res, str(np.flatnonzero(flm)), str(flm.max())))
                rec.expect(np.isrealobj(got), "upsample/real", f"L={L} at {res}: complex field for a real signal")
                rec.close(got, np.tensordot(flm, Y, axes=1), TOL * L, "upsample/reality", f"L={L} at {res}: real signal {np.flatnonzero(flm)}")
    

# ------------------------------------------------------------- Earth views
def _view(sc, rec):
    import sleplet.harmonic_methods as H

    L, n = sc["L"], sc["L"] ** 2
    R = c15.rotation(L, *np.deg2rad(VIEWS[sc["view"]]))
    f = getattr(H, sc["view"])
    for k in range(n):
        if L > 10 and k % 23 and k < n - 4:
            continue
        for c in (1.0, 1j):
            e = np.zeros(n, dtype=complex)
            e[k] = c
            keep = e.copy()
            rec.case((sc["view"], L, k, str(c)) if k else None)
            rec.close(f(e, L), c * R[:, k], 1e-9, "view/values", f"{sc['view']} L={L} of unit {k} times {c}")
            rec.expect(np.array_equal(keep, e), "view/input", f"{sc['view']} L={L}: coefficients changed")
    x = slep.dense(n, 3)
    rec.close(f(x, L), R @ x, 1e-9 * L, "view/values", f"{sc['view']} L={L} of dense coefficients")


# ------------------------------------------------------------- random signals
def _random(sc, rec):
    from sleplet.harmonic_methods import compute_random_signal

    L = sc["L"]
    n = L * L
    for seed in SEEDS:
        before = repr(np.random.get_state())
        normals = np.sort(np.random.default_rng(seed).standard_normal(2 * n))
        unit = None
        for var in VARIANCES:
            rng = np.random.default_rng(seed)
            got = np.asarray(compute_random_signal(L, rng, var_signal=var))
            what = f"L={L} seed={seed} variance={var}"
            rec.case((L, seed, var) if var else None)
            if not rec.expect(got.shape == (n,) and np.iscomplexobj(got), "random/shape", f"{what}: {got.shape} {got.dtype}"):
                continue
            parts = np.sort(np.concatenate([got.real, got.imag]))
            rec.close(parts, np.sqrt(var / 2) * normals, 1e-12 * (1 + var), "random/values", f"{what}: the generator's normal variates, scaled")
            spent = np.random.default_rng(seed)
            spent.standard_normal(2 * n)
            rec.expect(rng.bit_generator.state == spent.bit_generator.state, "random/draws", f"{what}: other than {2 * n} variates drawn")
            more = np.asarray(compute_random_signal(L, rng, var_signal=var))
            if var:
                rec.expect(not np.isclose(more, got).any(), "random/independent", f"{what}: the next signal is the same")
                unit = got / np.sqrt(var) if unit is None else unit
                rec.close(got / np.sqrt(var), unit, 1e-12, "random/scaling", f"{what}: not the unit signal scaled")
            again = compute_random_signal(L, np.random.default_rng(seed), var_signal=var)
            rec.close(again, got, 0, "random/again", f"{what}: another signal from the same generator")
        rec.expect(repr(np.random.get_state()) == before, "random/global", f"L={L}: global random state used")


# ------------------------------------------------------------- vanishing scales
def _nonzero(sc, rec):
    from sleplet.wavelet_methods import find_non_zero_wavelet_coefficients as find

    values = [1.0, -1e-300, 2j, -3.5 + 1e-20j, 1e-15, 7.0, -1.0, 1e5, -2j]
    for rows, cols in ((1, 1), (1, 3), (3, 1), (2, 3), (3, 3), (4, 2)):
        base = np.array((values * 2)[: rows * cols])
        for pattern in itertools.product((0, 1), repeat=rows * cols):
            _select(rec, find, (base * np.array(pattern)).reshape(rows, cols))
            _select(rec, find, (np.where(base.real == 0, base.imag, base.real) * np.array(pattern)).reshape(rows, cols))
    # entries that cancel, also when squared
    for rows, cols in ((2, 3), (3, 2)):
        for x in itertools.product((0.0, 1.0, -1.0), repeat=rows * cols):
            _select(rec, find, np.array(x).reshape(rows, cols))
    for x in itertools.product((0, 1, -1, 1j, -1j), repeat=4):
        _select(rec, find, np.array(x, dtype=complex).reshape(2, 2))


def _select(rec, find, a):
    """The scales kept are exactly those with a non-zero entry."""
    rows, cols = a.shape
    keep = a.copy()
    want = np.array([r for r in a if any(x != 0 for x in r)]).reshape(-1, cols)
    got = np.asarray(find(a, axis=1))
    rec.case((a.tobytes(), a.shape) if 0 < len(want) < rows else None)
    rec.expect(got.shape == want.shape and np.array_equal(got, want) and got.dtype == a.dtype, "nonzero/values",
               lambda: f"scales kept of {a.tolist()}: {got.tolist()}")
    cube = a.reshape(rows, 1, cols)
    field = np.asarray(find(cube, axis=(1, 2)))
    rec.expect(np.array_equal(field, want.reshape(-1, 1, cols)), "nonzero/fields", lambda: f"scales kept of {cube.tolist()}: {field.tolist()}")
    rec.expect(np.array_equal(keep, a), "nonzero/input", "coefficients changed")
    if got.size:
        got[...] = 9
        rec.expect(np.array_equal(keep, a), "nonzero/alias", "the result shares memory with the coefficients")
