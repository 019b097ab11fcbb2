"""Wavelets: every band limit x parameter x minimum scale of the space, on unit
signals of every degree and order (a complete basis) and on signals for which
whole scales vanish."""

import numpy as np

import datafiles
import meshref
import ref
import slep
import vh

ID = "C12"
LEVEL = "exploration"
RULE = (
    "every limit x wavelet parameter x minimum scale x (unit signal | dense "
    "signal | signal with vanishing scales) x Shannon number; non-trivial are "
    "configurations with more than one scale meeting the signal"
)
ASSUMPTIONS = [
    "the generating functions of the installed pys2let library are compared with the published definition to 2e-3",
]
TIMEOUT = 850
BS = [2, 3, 4, 5]


def BOUNDS(tier):
    return {"B": BS, "kappa_limits": max(kappa_limits(tier)), "axisymmetric_L": max(ax_L(tier)), "slepian_limit": max(sl_limits(tier))}


def kappa_limits(tier):
    return list(range(2, 67)) + [100, 121, 144, 256] + ([400, 512, 576, 1024] if tier == "thorough" else [])


def ax_L(tier):
    return list(range(2, 8)) + [10, 12, 20] if tier == "quick" else list(range(2, 15)) + [20, 28]


def sl_limits(tier):
    return [4, 9, 16, 20, 36] if tier == "quick" else [4, 7, 9, 13, 16, 20, 25, 36, 49]


def scenarios(tier):
    lim = kappa_limits(tier)
    for i in range(0, len(lim), 12):
        yield {"part": "kappas", "limits": lim[i : i + 12], "cost": 50}
    for L in ax_L(tier):
        for B in BS:
            yield {"part": "axisymmetric", "L": L, "B": B, "cost": L**3}
    for n in sl_limits(tier):
        for B in BS:
            yield {"part": "slepian", "n": n, "B": B, "cost": n * n}
    for L in (3, 4, 5) if tier == "quick" else (3, 4, 5, 6, 7):
        for name in ("polar40", "box", "blob"):
            yield {"part": "sphere_objects", "L": L, "region": name, "cost": 60}
        yield {"part": "data_objects", "L": L, "cost": 100}
    for name in meshref.NAMES:
        for n in (9, 20) if tier == "quick" else (9, 20, 31, 60):
            yield {"part": "mesh_objects", "mesh": name, "n": n, "cost": 50}


def _jmax(B, n):
    j = 0
    while B**j < n:
        j += 1
    return j


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def _kappas(sc, rec):
    from sleplet.wavelet_methods import create_kappas

    for n in sc["limits"]:
        for B in BS:
            for j_min in range(_jmax(B, n) + 1):
                k = np.array(create_kappas(n, B, j_min))
                at = f"limit {n}, B={B}, j_min={j_min}"
                # when n is a power of B, rounding in the library may add an empty scale
                rows = _jmax(B, n) - j_min + 2
                rec.expect(len(k) in (rows, rows + 1), "kappas/scales", f"{at}: {len(k)} scales, expected {rows}")
                rec.close((k**2).sum(0), np.ones(n), 1e-9, "kappas/tight", at)
                rec.close(k, ref.kappas(n, B, j_min, len(k)), 2e-2, "kappas/definition", at)
                rec.close(k**2, ref.kappas(n, B, j_min, len(k)) ** 2, 2e-3, "kappas/definition", at)
                rec.case((n, B, j_min) if len(k) > 1 else None)


def _axisymmetric(sc, rec):
    from sleplet.functions import AxisymmetricWavelets
    from sleplet.wavelet_methods import (
        axisymmetric_wavelet_forward,
        axisymmetric_wavelet_inverse,
        create_kappas,
    )

    L, B = sc["L"], sc["B"]
    n = L * L
    ell = np.array([x for x, _ in ref.lm(L)])
    for j_min in range(_jmax(B, L) + 1):
        k = np.array(create_kappas(L, B, j_min))
        w = AxisymmetricWavelets(L, B=B, j_min=j_min).wavelets
        want = np.zeros((len(k), n), dtype=complex)
        for x in range(L):
            want[:, ref.ind(x, 0)] = np.sqrt((2 * x + 1) / (4 * np.pi)) * k[:, x]
        rec.close(np.array(w), want, 1e-9, "axisymmetric/wavelets", f"{sc}, j_min={j_min}")
        signals = [np.eye(n)[i] * (1 + 2j) for i in range(n)] if L <= 7 else []
        for scale in range(len(k)):
            # dense signals, and signals on which one scale vanishes entirely
            d = slep.dense(n, scale)
            signals.append(d)
            signals.append(np.where(k[scale, ell] > 0, 0, d))
            signals.append(np.where(k[scale, ell] > 0, d, 0))
        signals.append(np.zeros(n, dtype=complex))
        signals.append(slep.dense(n).real)
        signals += [slep.dense(n) * 1e-14, slep.dense(n) * 1e-160, slep.dense(n) * 1e9]
        w0 = np.array(w, copy=True)
        for i, f in enumerate(signals):
            f0, u = f.copy(), np.abs(f).max() or 1
            c = axisymmetric_wavelet_forward(L, f, w)
            rec.close(np.array(c) / u, k[:, ell] * (f / u), 1e-9, "axisymmetric/forward", f"{sc}, j_min={j_min}, signal {i}")
            c0 = np.array(c, copy=True)
            back = axisymmetric_wavelet_inverse(L, c, w)
            rec.close(np.array(back) / u, f / u, 1e-9, "axisymmetric/reconstruct", f"{sc}, j_min={j_min}, signal {i}")
            rec.expect(
                np.array_equal(f, f0) and np.array_equal(c, c0) and np.array_equal(w, w0),
                "axisymmetric/input", "a transform changed its input",
            )
            rec.case((L, B, j_min, i) if (np.abs(c).max(axis=1) > 1e-9 * u).sum() > 1 else None)


def _slepian(sc, rec):
    from sleplet.wavelet_methods import (
        create_kappas,
        slepian_wavelet_forward,
        slepian_wavelet_inverse,
    )

    n, B = sc["n"], sc["B"]
    for j_min in range(_jmax(B, n) + 1):
        w = np.array(create_kappas(n, B, j_min))
        for N in range(1, n + 1) if n <= 25 else sorted({1, 2, B**j_min, n // 3, n // 2, n - 1, n}):
            if N > n:
                continue
            signals = [np.eye(n)[i] * (1 - 1j) for i in range(N)]
            for scale in range(len(w)):
                d = slep.dense(n, scale)
                signals += [d, np.where(w[scale] > 0, 0, d), np.where(w[scale] > 0, d, 0)]
            signals += [np.zeros(n, dtype=complex), slep.dense(n).real, slep.dense(N), np.eye(N)[N - 1]]
            signals += [slep.dense(n, 1) * 1e-14, slep.dense(n, 1) * 1e-160, slep.dense(n, 1) * 1e9]
            for i, f in enumerate(signals):
                f0, w0, u = f.copy(), w.copy(), np.abs(f).max() or 1
                c = np.array(slepian_wavelet_forward(f, w, N))
                at = f"{sc}, j_min={j_min}, N={N}, signal {i}"
                if rec.expect(c.ndim == 2 and c.shape[0] <= len(w) and c.shape[1] >= N, "slepian/shape", f"{at}: shape {c.shape}"):
                    full = np.zeros((len(w), N))
                    full[: len(c)] = np.abs(c[:, :N]) / u
                    rec.close(full, w[:, :N] * np.abs(f[:N] / u), 1e-9, "slepian/forward", at)
                back = np.array(slepian_wavelet_inverse(c, w, N))
                rec.close(back[:N] / u, f[:N] / u, 1e-9, "slepian/reconstruct", at)
                rec.expect(np.array_equal(f, f0) and np.array_equal(w, w0), "slepian/input", "a transform changed its input")
                rec.case((n, B, j_min, N, i) if (np.abs(c) > 1e-9 * u).any(axis=1).sum() > 1 else None)


def _sphere_objects(sc, rec):
    from sleplet.functions import SlepianWavelets
    from sleplet.slepian_methods import slepian_forward
    from sleplet.wavelet_methods import create_kappas, slepian_wavelet_forward, slepian_wavelet_inverse

    L = sc["L"]
    slep.provide_masks(L)
    region = slep.region(sc["region"])
    for B in BS:
        for j_min in range(_jmax(B, L * L) + 1):
            k = np.array(create_kappas(L * L, B, j_min))
            sw = SlepianWavelets(L, B=B, j_min=j_min, region=region)
            rec.close(np.array(sw.wavelets), k, 1e-12, "objects/slepian_wavelets", f"{sc}, {B}, {j_min}")
            d = slep.dense(L * L)
            f_p = slepian_forward(L, sw.slepian, flm=d)
            N = sw.slepian.N
            c = slepian_wavelet_forward(f_p, sw.wavelets, N)
            rec.close(np.array(slepian_wavelet_inverse(c, sw.wavelets, N))[:N], f_p[:N], 1e-9, "objects/slepian_reconstruct", f"{sc}, {B}, {j_min}")
            rec.case((L, sc["region"], B, j_min))


def _data_objects(sc, rec):
    from sleplet import functions as F
    from sleplet.slepian import Region
    from sleplet.wavelet_methods import axisymmetric_wavelet_inverse, slepian_wavelet_inverse

    L = sc["L"]
    datafiles.write()
    for place in ("Earth", "Africa", "SouthAmerica"):
        for smoothing in (None, 2):
            source = getattr(F, place)(L, smoothing=smoothing)
            for B in BS:
                for j_min in range(_jmax(B, L) + 1):
                    for j in (None, *range(_jmax(B, L) - j_min + 1)):
                        o = getattr(F, f"AxisymmetricWaveletCoefficients{place}")(L, B=B, j_min=j_min, j=j, smoothing=smoothing)
                        at = f"{place} {sc} B={B} j_min={j_min} j={j} smoothing={smoothing}"
                        wc = np.array(o.wavelet_coefficients)
                        rec.close(np.array(o.coefficients), wc[0 if j is None else j + 1], 0, "objects/scale", at)
                        rec.close(np.array(axisymmetric_wavelet_inverse(L, wc, np.array(o.wavelets))), np.array(source.coefficients), 1e-8, "objects/axisymmetric", at)
                        rec.case((place, L, B, j_min, j, smoothing))
    for place, mask in (("Africa", "africa"), ("SouthAmerica", "south_america")):
        region = Region(mask_name=mask)
        source = getattr(F, f"Slepian{place}")(L, region=region)
        for B in BS:
            for j_min in range(_jmax(B, L * L) + 1):
                o = getattr(F, f"SlepianWaveletCoefficients{place}")(L, B=B, j_min=j_min, region=region)
                N = o.slepian.N
                at = f"{place} {sc} B={B} j_min={j_min} N={N}"
                if not N:
                    continue
                wc = np.array(o.wavelet_coefficients)
                rec.close(np.array(slepian_wavelet_inverse(wc, np.array(o.wavelets), N))[:N], np.array(source.coefficients)[:N], 1e-7, "objects/slepian", at)
                rec.close(np.array(o.coefficients), wc[0], 0, "objects/scale", at)
                for j in range(len(wc) - 1):
                    oj = getattr(F, f"SlepianWaveletCoefficients{place}")(L, B=B, j_min=j_min, j=j, region=region)
                    rec.close(np.array(oj.coefficients), wc[j + 1], 1e-9, "objects/scale", f"{at} j={j}")
                rec.case((place, L, B, j_min))


def _mesh_objects(sc, rec):
    from sleplet.meshes import Mesh, MeshSlepianField, MeshSlepianWaveletCoefficients, MeshSlepianWavelets
    from sleplet.wavelet_methods import create_kappas, slepian_wavelet_inverse

    n = sc["n"]
    mesh = Mesh(sc["mesh"], number_basis_functions=n)
    source = np.array(MeshSlepianField(mesh).coefficients)
    for B in BS:
        for j_min in range(_jmax(B, n) + 1):
            k = np.array(create_kappas(n, B, j_min))
            w = MeshSlepianWavelets(mesh, B=B, j_min=j_min)
            o = MeshSlepianWaveletCoefficients(mesh, B=B, j_min=j_min)
            N = o.mesh_slepian.N
            at = f"{sc} B={B} j_min={j_min} N={N}"
            rec.close(np.array(w.wavelets), k, 1e-12, "objects/mesh_wavelets", at)
            wc = np.array(o.wavelet_coefficients)
            rec.close(np.array(slepian_wavelet_inverse(wc, np.array(o.wavelets), N))[:N], source[:N], 1e-9, "objects/mesh", at)
            rec.close(np.array(o.coefficients), wc[0], 0, "objects/scale", at)
            for j in range(len(wc) - 1):
                oj = MeshSlepianWaveletCoefficients(mesh, B=B, j_min=j_min, j=j)
                rec.close(np.array(oj.coefficients), wc[j + 1], 1e-9, "objects/scale", f"{at} j={j}")
                wj = MeshSlepianWavelets(mesh, B=B, j_min=j_min, j=j)
                rec.close(np.array(wj.coefficients), k[j + 1], 1e-12, "objects/mesh_wavelets", f"{at} j={j}")
            rec.case((sc["mesh"], n, B, j_min))
