"""Noise: every level x function x bandlimit of the space, compared across
levels, functions, repetitions, earlier random draws and a second process."""

import itertools
import json
import os
import subprocess
import sys

import numpy as np

import datafiles
import meshref
import ref
import slep
import vh

ID = "C13"
LEVEL = "exploration"
RULE = (
    "every signal x noise level x number of coefficients for the standard "
    "deviation, and every function x bandlimit x noise level for the noise "
    "added; non-trivial are cases with a non-zero signal"
)
ASSUMPTIONS = ["the noise distribution is judged by its mean power (within 35 % for at least 100 coefficients)"]
TIMEOUT = 850
LEVELS = [-20, -10, -3.5, -1, 0, 1, 2.5, 5, 10, 20, 40]


def BOUNDS(tier):
    return {"levels_dB": LEVELS, "L": Ls(tier)}


def Ls(tier):
    return [2, 3, 4, 5, 8, 12, 16, 24] if tier == "quick" else [1, 2, 3, 4, 5, 8, 12, 16, 24, 32]


def scenarios(tier):
    yield {"part": "sigma"}
    for L in Ls(tier):
        yield {"part": "harmonic", "L": L, "cost": L * L}
    for L in (2, 3, 4, 8) if tier == "quick" else (2, 3, 4, 5, 8, 10):
        for name in ("polar100", "gap70", "box", "blob"):
            if L <= 4 or name == "polar100":
                yield {"part": "slepian", "L": L, "region": name, "cost": L**3}
    for L in (3, 4, 6) if tier == "quick" else (3, 4, 5, 6, 7):
        yield {"part": "data", "L": L, "cost": L**4}
    for name in meshref.NAMES:
        for n in (5, 12) if tier == "quick" else (1, 5, 12, 40, 100):
            yield {"part": "mesh", "mesh": name, "n": n, "cost": n}
    yield {"part": "mesh", "mesh": "cheetah", "n": 120, "cost": 600}
    yield {"part": "process", "cost": 1000}
    for L in (2, 3, 4, 6) if tier == "quick" else (2, 3, 4, 5, 6, 8):
        yield {"part": "levels", "L": L, "cost": L**4}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def power(x):
    return (np.abs(x) ** 2).sum()


def stir(k):
    """Earlier random draws of the program."""
    np.random.seed(k)
    np.random.standard_normal(k)
    import random

    random.seed(k)


def _sigma(sc, rec):
    from sleplet.noise import compute_sigma_noise, compute_snr

    signals = []
    for n in (1, 2, 4, 9, 16, 25, 100):
        signals += [slep.dense(n), slep.dense(n).real * 1e-6, slep.dense(n) * 1e5j, np.eye(n)[n - 1]]
    for i, s in enumerate(signals):
        for level in (*LEVELS, -33.3, 0.01):
            for den in (None, 1, 3, len(s), 2 * len(s) + 1):
                kw = {} if den is None else {"denominator": den}
                s0 = s.copy()
                sigma = compute_sigma_noise(s, level, **kw)
                d = len(s) if den is None else den
                expected = np.sqrt(power(s) / 10 ** (level / 10) / d)
                rec.close(sigma, expected, 1e-12 * expected, "sigma", f"signal {i}, {level} dB over {den}")
                rec.case((i, level, den))
                # noise of exactly that power has exactly that ratio
                noise = np.full(d, sigma)
                rec.close(compute_snr(s, noise, "x"), level, 1e-9, "snr", f"signal {i}, {level} dB")
                rec.expect(np.array_equal(s, s0), "input", "input changed")
        for j, t in enumerate(signals[:8]):
            rec.close(compute_snr(s, t, "x"), 10 * np.log10(power(s) / power(t)), 1e-9, "snr", f"signals {i}, {j}")


def _check_object(rec, key, at, clean, noisy, level, sigma, zs, N=None):
    """Common obligations; collects the noise in units of sigma."""
    c0, c1 = np.array(clean.coefficients), np.array(noisy.coefficients)
    kept = getattr(noisy, "_unnoised_coefficients", c0)
    rec.expect(kept is not None, key + "/unnoised", f"{at}: no noiseless coefficients")
    if kept is not None:
        rec.close(np.array(kept), c0, 1e-12 * np.abs(c0).max(initial=1e-300), key + "/unnoised", at)
    noise = c1 - c0
    if not rec.expect(power(noise) > 0, key + "/is_noise", f"{at}: coefficients unchanged"):
        return
    snr = 10 * np.log10(power(c0) / power(noise))
    rec.close(noisy.snr, snr, 1e-6, key + "/snr", at)
    if N is not None:
        rec.close(noise[N:], np.zeros(len(noise) - N), 0, key + "/beyond", f"{at}: noise beyond the Shannon number")
        noise = noise[:N]
    zs.append((at, noise / sigma))


def _agree(rec, key, zs, tol=1e-6):
    for at, z in zs[1:]:
        rec.close(z, zs[0][1], tol * np.abs(zs[0][1]).max(), key + "/proportional", f"{at} against {zs[0][0]}")


def _harmonic_functions(L):
    from sleplet import functions as F

    yield "Gaussian", lambda **k: F.Gaussian(L, **k)
    yield "DiracDelta", lambda **k: F.DiracDelta(L, **k)
    yield "Identity", lambda **k: F.Identity(L, **k)
    yield "SphericalHarmonic", lambda **k: F.SphericalHarmonic(L, ell=L - 1, m=-(L - 1), **k)
    yield "HarmonicGaussian", lambda **k: F.HarmonicGaussian(L, **k)
    yield "ElongatedGaussian", lambda **k: F.ElongatedGaussian(L, **k)


def _harmonic(sc, rec):
    L = sc["L"]
    zs = []
    for name, make in _harmonic_functions(L):
        clean = make()
        c0 = np.array(clean.coefficients)
        if power(c0) == 0:
            continue
        rec.expect(getattr(clean, "_unnoised_coefficients", None) is None and clean.snr is None, "harmonic/none", f"{name}: noise without a level")
        for level in LEVELS:
            stir(int(level) + 21)
            noisy = make(noise=level)
            sigma = np.sqrt(power(c0) / 10 ** (level / 10) / (L * L))
            # differences of large coefficients lose digits
            _check_object(rec, "harmonic", f"{name} L={L} {level} dB", clean, noisy, level, sigma, zs)
            stir(7)
            again = make(noise=level)
            rec.close(np.array(again.coefficients), np.array(noisy.coefficients), 0, "harmonic/reproducible", f"{name} L={L} {level} dB")
            rec.case((name, L, level))
    _agree(rec, "harmonic", zs, 1e-8)
    z = zs[0][1]
    for ell, m in ref.lm(L):
        rec.close(z[ref.ind(ell, -m)], (-1) ** m * np.conj(z[ref.ind(ell, m)]), 1e-8, "harmonic/real", f"order {m} of degree {ell}")
        rec.expect(abs(z[ref.ind(ell, m)]) > 1e-9, "harmonic/all", f"no noise at {ell},{m}")
    if L >= 10:
        rec.expect(abs(power(z) / L**2 - 1) < 0.35, "harmonic/power", f"noise power {power(z) / L**2} sigma^2")
        m = np.array([x for _, x in ref.lm(L)])
        half = np.array([x for x in m]) > 0
        for label, part in (("real part", z.real[half]), ("imaginary part", z.imag[half])):
            rec.expect(abs(2 * (part**2).mean() - 1) < 0.4, "harmonic/power", f"{label}: {2 * (part**2).mean()}")
            rec.expect(abs(part.mean()) < 0.4, "harmonic/mean", f"{label}: {part.mean()}")


def _slepian(sc, rec):
    from sleplet import functions as F

    L, name = sc["L"], sc["region"]
    slep.provide_masks(L)
    region = slep.region(name)
    zs = []
    for fname in ("SlepianDiracDelta", "SlepianIdentity", "Slepian", "SlepianWavelets"):
        kw = {"B": 2, "j_min": 0} if fname == "SlepianWavelets" else {}
        make = lambda **k: getattr(F, fname)(L, region=region, **kw, **k)
        clean = make()
        N = clean.slepian.N
        c0 = np.array(clean.coefficients)
        flm = c0[:N] @ np.array(clean.slepian.eigenvectors)[:N]
        for level in LEVELS:
            stir(int(level) + 21)
            sigma = np.sqrt(power(flm) / 10 ** (level / 10) / (L * L))
            noisy = make(noise=level)
            _check_object(rec, "slepian", f"{fname} {sc} {level} dB", clean, noisy, level, sigma, zs, N)
            stir(3)
            again = make(noise=level)
            rec.close(np.array(again.coefficients), np.array(noisy.coefficients), 0, "slepian/reproducible", f"{fname} {sc}")
            rec.case((fname, L, name, level))
    _agree(rec, "slepian", zs)
    if zs and len(zs[0][1]) >= 30:
        z = zs[0][1]
        rec.expect(abs(power(z) / len(z) - 1) < 0.5, "slepian/power", f"noise power {power(z) / len(z)} sigma^2")


def _data(sc, rec):
    from sleplet import functions as F
    from sleplet.slepian import Region

    L = sc["L"]
    datafiles.write()
    earth = np.array(F.Earth(L).coefficients)
    zs = []
    for level in LEVELS:
        stir(5)
        noise = np.array(F.NoiseEarth(L, SNR=level).coefficients)
        sigma = np.sqrt(power(earth) / 10 ** (level / 10) / (L * L))
        zs.append((f"NoiseEarth {sc} {level} dB", noise / sigma))
        smooth = np.array(F.Earth(L, smoothing=2).coefficients)
        noise2 = np.array(F.NoiseEarth(L, SNR=level, smoothing=2).coefficients)
        zs.append((f"smoothed NoiseEarth {sc} {level} dB", noise2 / np.sqrt(power(smooth) / 10 ** (level / 10) / (L * L))))
        g0, g1 = F.Gaussian(L), F.Gaussian(L, noise=level)
        sg = np.sqrt(power(np.array(g0.coefficients)) / 10 ** (level / 10) / (L * L))
        zs.append((f"Gaussian {sc} {level} dB", (np.array(g1.coefficients) - np.array(g0.coefficients)) / sg))
        rec.case((L, "earth", level))
    _agree(rec, "data", zs)
    for place, mask in (("Africa", "africa"), ("SouthAmerica", "south_america")):
        region = Region(mask_name=mask)
        clean = getattr(F, f"Slepian{place}")(L, region=region)
        N = clean.slepian.N
        if not N:
            continue
        flm = np.array(clean.coefficients)[:N] @ np.array(clean.slepian.eigenvectors)[:N]
        zs = []
        for level in LEVELS:
            stir(9)
            sigma = np.sqrt(power(flm) / 10 ** (level / 10) / (L * L))
            noise = np.array(getattr(F, f"SlepianNoise{place}")(L, SNR=level, region=region).coefficients)
            zs.append((f"SlepianNoise{place} {sc} {level} dB", noise / sigma))
            _check_object(rec, "data", f"Slepian{place} {sc} {level}", clean, getattr(F, f"Slepian{place}")(L, region=region, noise=level), level, sigma, zs)
            rec.case((L, place, level))
        _agree(rec, "data", zs)


def per_scale(name, *args):
    """The levels the denoising examples threshold with, where they are offered."""
    import sleplet

    try:
        return np.array(getattr(sleplet.noise, name)(*args))
    except (AttributeError, TypeError):
        return None


def _levels(sc, rec):
    """Standard deviation of the noise in each wavelet scale (and sample)."""
    from sleplet.functions import AxisymmetricWavelets
    from sleplet.wavelet_methods import create_kappas

    L = sc["L"]
    n = L * L
    for B, j_min, level in itertools.product((2, 3), (0, 1), LEVELS):
        c0 = slep.dense(n, 6)
        psi = np.array(AxisymmetricWavelets(L, B=B, j_min=j_min).wavelets)
        sigma = np.sqrt(power(c0) / 10 ** (level / 10) / n)
        got = per_scale("_compute_sigma_j", c0, psi, level)
        if got is not None:
            want = sigma * np.sqrt((np.abs(psi) ** 2).sum(axis=1))
            rec.close(got, want, 1e-9 * want.max(), "levels/harmonic", f"{sc} B={B} j_min={j_min} {level} dB")
        k = np.array(create_kappas(n, B, j_min))
        for name in ("polar100", "box", "blob") if L > 1 else ():
            s = slep.build(name, L)
            N = int(s.N)
            S = np.tensordot(np.array(s.eigenvectors)[:N], ref.ylm(L, *ref.grid(L)), axes=1)
            got = per_scale("_compute_slepian_sigma_j", L, c0, k, level, s)
            if got is not None:
                want = sigma * np.sqrt(np.tensordot(k[:, :N] ** 2, np.abs(S) ** 2, axes=1))
                rec.close(got, want, 1e-9 * want.max(), "levels/slepian", f"{name} {sc} B={B} j_min={j_min} {level} dB")
        rec.case((L, B, j_min, level))


def _mesh(sc, rec):
    from sleplet import meshes as M
    from sleplet.noise import compute_slepian_mesh_sigma_j

    n = sc["n"]
    mesh = M.Mesh(sc["mesh"], number_basis_functions=n)
    zs, zp = [], []
    for fname in ("MeshField", "MeshBasisFunctions"):
        make = lambda **k: getattr(M, fname)(mesh, **k)
        clean = make()
        c0 = np.array(clean.coefficients)
        rec.expect(clean.snr is None, "mesh/none", f"{fname}: noise without a level")
        for level in LEVELS:
            stir(int(level) + 21)
            sigma = np.sqrt(power(c0) / 10 ** (level / 10) / n)
            noisy = make(noise=level)
            _check_object(rec, "mesh", f"{fname} {sc} {level} dB", clean, noisy, level, sigma, zs)
            rec.close(np.array(make(noise=level).coefficients), np.array(noisy.coefficients), 0, "mesh/reproducible", fname)
            if fname == "MeshField":
                noise = np.array(M.MeshNoiseField(mesh, SNR=level).coefficients)
                zs.append((f"MeshNoiseField {sc} {level} dB", noise / sigma))
            rec.case((fname, sc["mesh"], n, level))
    _agree(rec, "mesh", zs)
    z = zs[0][1]
    rec.expect((np.abs(z) > 1e-9).all() and np.isrealobj(z), "mesh/all", "some coefficient without noise")
    if n >= 100:
        rec.expect(abs(power(z) / n - 1) < 0.4 and abs(z.mean()) < 0.4, "mesh/power", f"noise power {power(z) / n} sigma^2")
    clean = M.MeshSlepianField(mesh)
    s = clean.mesh_slepian
    N = s.N
    if not N:
        return
    c0 = np.array(clean.coefficients)
    V = np.array(s.slepian_functions)[:N]
    u_i = c0[:N] @ V
    for level in LEVELS:
        stir(5)
        sigma = np.sqrt(power(u_i) / 10 ** (level / 10) / n)
        _check_object(rec, "mesh_slepian", f"MeshSlepianField {sc} {level} dB", clean, M.MeshSlepianField(mesh, noise=level), level, sigma, zp)
        for fname in ("MeshSlepianFunctions", "MeshSlepianWavelets"):
            other = getattr(M, fname)(mesh, **({"B": 2, "j_min": 0} if "Wav" in fname else {}))
            cw = np.array(other.coefficients)
            noisy = getattr(M, fname)(mesh, noise=level, **({"B": 2, "j_min": 0} if "Wav" in fname else {}))
            _check_object(rec, "mesh_slepian", f"{fname} {sc} {level} dB", other, noisy, level, np.sqrt(power(cw[:N]) / 10 ** (level / 10) / n), zp, N)
        zp.append((f"MeshSlepianNoiseField {sc} {level} dB", np.array(M.MeshSlepianNoiseField(mesh, SNR=level).coefficients) / sigma))
        # threshold level per scale and vertex, public helper used for denoising
        psi = np.array(M.MeshSlepianWavelets(mesh, B=2, j_min=0).wavelets)
        S = V @ np.array(mesh.basis_functions)
        want = np.sqrt(power(c0) / 10 ** (level / 10) / n) * np.sqrt((psi[:, :N] ** 2) @ (S**2))
        rec.close(np.array(compute_slepian_mesh_sigma_j(s, c0, psi, level)), want, 1e-9 * want.max(), "mesh_slepian/sigma_j", f"{sc} {level}")
        rec.case(("slepian", sc["mesh"], n, level))
    _agree(rec, "mesh_slepian", zp)
    if zs[0][1].size == V.shape[1]:
        rec.close(zp[0][1], V @ z, 1e-6, "mesh_slepian/of_noise", "Slepian transform of the mesh noise")


_PROGRAM = """
import sys, json; sys.path.insert(0, sys.argv[1]); import vh; vh.boot()
import numpy as np
np.random.standard_normal(int(sys.argv[2]))
from sleplet import functions as F, meshes as M
from sleplet.slepian import Region
g = F.Gaussian(5, noise=3).coefficients
s = F.SlepianDiracDelta(4, region=Region(theta_max=1.9), noise=3).coefficients
m = M.MeshField(M.Mesh("bird", number_basis_functions=7), noise=-2).coefficients
print(json.dumps([[x.real, x.imag] for c in (g, s, m) for x in np.array(c, dtype=complex)]))
"""


def _process(sc, rec):
    outs = []
    for k in (1, 5):
        p = subprocess.run([sys.executable, "-c", _PROGRAM, str(vh.VERIF / "lib"), str(k)], capture_output=True, text=True, env={**os.environ, "PYTHONHASHSEED": str(k)})
        if not rec.expect(p.returncode == 0, "process/run", p.stderr[-800:]):
            return
        outs.append(np.array(json.loads(p.stdout.strip().splitlines()[-1])))
    rec.close(outs[1], outs[0], 1e-9, "process/reproducible", "noise of two processes")
    rec.case("process")
