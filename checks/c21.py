"""Functions of the topography and CMB data: every bandlimit up to that of the
data file, every coefficient of it excited, every smoothing factor; masks and
regions computed or stored; missing files; sequences of constructions."""

import functools
import itertools

import numpy as np
import requests
import scipy.io as sio

import datafiles
import funcs
import ref
import slep
import vh

ID = "C21"
LEVEL = "exploration"
RULE = (
    "every bandlimit up to that of the file x data file (dense, and one "
    "non-zero coefficient at a time) x smoothing factor x place of the file; "
    "every class x data missing or short; every sequence of constructions with "
    "the data replaced in between; non-trivial are non-zero results, distinct "
    "by class, bandlimit and data"
)
ASSUMPTIONS = [
    "points where the topography vanishes up to rounding may be on either side",
    "the transforms and rotations of ssht are right (rotations are checked in C15)",
]
ANGLES = {"africa": (44, 87, 341), "south_america": (54, 108, 63)}
REACH = {"africa": 41, "south_america": 40}
CLASS = {"africa": "Africa", "south_america": "SouthAmerica"}
SMOOTH = [None, 1, 2, 3, 10, 100]


def BOUNDS(tier):
    return {"L": Ls(tier), "rows_of_the_file": datafiles.LMAX**2, "smoothing": SMOOTH}


def Ls(tier):
    return [1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 24, 40] if tier == "quick" else list(range(1, 25)) + [32, 40]


def scenarios(tier):
    for L in Ls(tier):
        yield {"part": "earth", "L": L, "cost": L * L}
        yield {"part": "wmap", "L": L, "cost": L * L}
        for where in ANGLES:
            yield {"part": "land", "L": L, "where": where, "cost": L**3}
    for L in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8):
        yield {"part": "single", "L": L, "cost": L**3}
    for L in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
        for where in (*ANGLES, "earth"):
            yield {"part": "derived", "L": L, "where": where, "cost": 50 * L**4}
    for L in (2, 4):
        yield {"part": "missing", "L": L, "cost": 100}
    yield {"part": "short", "cost": 20}
    yield {"part": "spectrum", "cost": 2000}
    depth = 3 if tier == "quick" else 4
    for first in range(len(STEPS)):
        yield {"part": "sequence", "first": first, "depth": depth, "cost": 3000}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def smoothed(flm, L, s):
    if s is None:
        return flm
    ell = np.array([ell for ell, _ in ref.lm(L)])
    return flm * np.exp(-(ell**2) * (np.pi / (s * L)) ** 2)


@functools.lru_cache(maxsize=2)
def harmonics(L):
    return ref.ylm(L, *ref.grid(L))


def synth(flm, L):
    return np.tensordot(flm, harmonics(L), axes=1)


def rotated(flm, L, where):
    import pyssht as ssht

    return ssht.rotate_flms(np.ascontiguousarray(flm, dtype=complex), *np.deg2rad(ANGLES[where]), L)


def land(flm, L, where):
    """The mask of a continent, and where it cannot be told."""
    f = synth(rotated(flm, L, where), L).real
    th, _ = ref.grid(L)
    near = th <= np.deg2rad(REACH[where])
    unsure = (np.abs(f) < 1e-9 * np.abs(f).max()) & near
    return near & (f >= 0), unsure


def masked(flm, mask, L, where):
    import pyssht as ssht

    f = synth(rotated(flm, L, where), L).real
    return ssht.forward(np.where(mask, f, 0.0), L, Method="MWSS", Reality=True)


def real_field(rec, flm, L, key, what):
    ell, m = np.array(ref.lm(L)).T
    rec.close(flm[ell * ell + ell - m], (-1.0) ** m * np.conj(flm), 1e-12 * max(1, np.abs(flm).max()), key, f"{what}: not the coefficients of a real field")


def _earth(sc, rec):
    import sleplet

    L = sc["L"]
    for variant, published in itertools.product((0, 1, 2), (False, True)):
        vh.clear_data()
        vh.REG.reset()
        if published:  # the published copy, with another one in the data directory
            datafiles.write(variant=variant)
            path = vh.data_dir() / datafiles.EARTH
            other = vh.data_dir().parent / f"published_{variant}.mat"
            path.rename(other)
            vh.REG.files = {datafiles.EARTH: other}
            datafiles.write(variant=variant + 3)
        else:
            datafiles.write(variant=variant)
        vh.reset_data_source()
        for s in SMOOTH:
            what = f"Earth L={L} smoothing={s} data {variant} published={published}"
            f = sleplet.functions.Earth(L, smoothing=s)
            want = smoothed(datafiles.earth_flm(L, variant), L, s)
            rec.close(f.coefficients, want, 1e-9 * np.abs(want).max(), "earth", what)
            real_field(rec, f.coefficients, L, "earth/real", what)
            rec.expect(f.reality and f.spin == 0, "earth/reality", what)
            rec.case((what,))
    vh.REG.reset()
    vh.reset_data_source()


def _single(sc, rec):
    """One non-zero coefficient of the file at a time."""
    import sleplet

    L = sc["L"]
    for k in range((L + 1) ** 2):
        ell = int(np.sqrt(k))
        m = k - ell * ell - ell
        for z in (2.5 - 1.5j, -1.0 + 0j):
            if m == 0:
                z = z.real
            column = np.zeros(datafiles.LMAX**2, complex)
            column[k] = z
            sio.savemat(vh.data_dir() / datafiles.EARTH, {"flm": column[:, None]})
            got = sleplet.functions.Earth(L).coefficients
            want = np.zeros(L * L, complex)
            if ell < L and m >= 0:
                want[ref.ind(ell, m)] = np.conj(z)
                want[ref.ind(ell, -m)] = (-1) ** m * z
            if m < 0:
                continue  # the file has non-negative orders
            rec.close(got, want, 1e-12, "earth/single", f"Earth L={L}, coefficient {k} of the file")
            rec.case((L, k) if ell < L else None)
    # the spectrum acts on its own degree only
    base = datafiles.cl_column()
    sio.savemat(vh.data_dir() / datafiles.CMB, {"cl": base[:, None]})
    flm = sleplet.functions.Wmap(L).coefficients
    for n in range(L + 1):
        cl = base.copy()
        cl[n] *= 9
        sio.savemat(vh.data_dir() / datafiles.CMB, {"cl": cl[:, None]})
        factor = np.array([3.0 if ell == n + 2 else 1.0 for ell, _ in ref.lm(L)])
        rec.close(sleplet.functions.Wmap(L).coefficients, flm * factor, 1e-9 * np.abs(flm).max(initial=1), "wmap/degree",
                  f"CMB L={L} with the power of degree {n + 2} increased")
        rec.case((L, "cl", n))


def _wmap(sc, rec):
    import sleplet

    L = sc["L"]
    datafiles.write()
    a, b = sleplet.functions.Wmap(L), sleplet.functions.Wmap(L)
    what = f"CMB L={L}"
    rec.expect(np.array_equal(a.coefficients, b.coefficients), "wmap/repeat", f"{what}: not reproducible")
    rec.expect(a.coefficients.shape == (L * L,), "wmap/shape", what)
    rec.expect(not a.coefficients[:4].any(), "wmap/low", f"{what}: monopole or dipole")
    real_field(rec, a.coefficients, L, "wmap/real", what)
    if L > 2:
        rec.expect((np.abs(a.coefficients[4:]) > 0).all(), "wmap/empty", f"{what}: some coefficients vanish")
        rec.expect(np.unique(a.coefficients[4:].round(9)).size == L * L - 4, "wmap/repeated", f"{what}: repeated coefficients")
    # scaling of the whole spectrum
    sio.savemat(vh.data_dir() / datafiles.CMB, {"cl": 4 * datafiles.cl_column()[:, None]})
    rec.close(sleplet.functions.Wmap(L).coefficients, 2 * a.coefficients, 1e-9 * np.abs(a.coefficients).max(), "wmap/scale", f"{what}: power times four")
    rec.case((L,) if L > 2 else None)


def _spectrum(sc, rec):
    """The realisation has the power spectrum of the file, within the spread of
    the number of its independent draws."""
    import sleplet

    L = datafiles.LMAX
    datafiles.write()
    flm = sleplet.functions.Wmap(L).coefficients
    cl = datafiles.cl_column()
    var = np.array([0.0 if ell < 2 else 2 * np.pi / (ell * (ell + 1)) * cl[ell - 2] for ell, _ in ref.lm(L)])
    m = np.array([m for _, m in ref.lm(L)])
    ell = np.array([e for e, _ in ref.lm(L)])
    for name, pick, size, values in (
        ("order zero", (m == 0) & (ell > 1), 1.0, flm.real),
        ("real parts", (m > 0) & (ell > 1), 0.5, flm.real),
        ("imaginary parts", (m > 0) & (ell > 1), 0.5, flm.imag),
        ("low degrees", (m > 0) & (ell > 1) & (ell < 15), 0.5, flm.real),
        ("high degrees", (m > 0) & (ell > 30), 0.5, flm.imag),
    ):
        x = values[pick] ** 2 / (var[pick] * size)
        n = len(x)
        rec.expect(abs(x.mean() - 1) < 6 * np.sqrt(2 / n), "wmap/power", lambda: f"CMB {name}: power {x.mean():.3f} of that of the file ({n} draws)")
        y = values[pick] / np.sqrt(var[pick] * size)
        rec.expect(abs(y.mean()) < 6 / np.sqrt(n), "wmap/mean", lambda: f"CMB {name}: mean {y.mean():.3f}")
        rec.case((name,))


def _land(sc, rec):
    import sleplet
    from sleplet.slepian import Region

    L, where = sc["L"], sc["where"]
    file = f"slepian_masks_{where}_L{L}.npy"
    th, ph = ref.grid(L)
    for variant in (0, 1, 2):
        vh.clear_data()
        datafiles.write(variant=variant)
        for stored in (False, True):
            earth = datafiles.earth_flm(L, variant)
            mask, unsure = land(earth, L, where)
            if stored:
                mask, unsure = np.sin(3 * th + 2 * ph) > -0.2, np.zeros(th.shape, bool)
                np.save(vh.data_dir() / file, mask)
            for s in SMOOTH:
                what = f"{where} L={L} data {variant} stored mask={stored} smoothing={s}"
                f = getattr(sleplet.functions, CLASS[where])(L, smoothing=s)
                if unsure.any():  # take what was decided for those points
                    got = np.load(vh.data_dir() / file)
                    rec.expect((got == mask)[~unsure].all(), "mask", f"{what}: mask")
                    mask = np.where(unsure, got, mask)
                if not stored:
                    got = np.load(vh.data_dir() / file)
                    rec.expect(got.shape == mask.shape and (got == mask).all(), "mask",
                               lambda: f"{what}: {int((got != mask).sum())} points of the mask differ")
                want = masked(smoothed(earth, L, s), mask, L, where)
                rec.close(f.coefficients, want, 1e-9 * np.abs(earth).max(), "land", what)
                rec.expect(f.reality and f.spin == 0, "land/reality", what)
                rec.case((what,) if mask.any() else None)
            # the same mask through a region
            vh.snapshot()
            if not stored:
                (vh.data_dir() / file).unlink()
            got = np.asarray(mask_of_region(L, Region(mask_name=where)))
            rec.expect(got.shape == mask.shape and (got.astype(bool) == mask)[~unsure].all(), "mask/region", f"{where} L={L}: mask of the region")


def mask_of_region(L, region):
    from sleplet._mask_methods import create_mask_region

    return create_mask_region(L, region)


def _derived(sc, rec):
    """Noise, wavelet and Slepian counterparts from the function itself."""
    import sleplet
    from sleplet.slepian import Region

    L, where = sc["L"], sc["where"]
    F, W = sleplet.functions, sleplet.wavelet_methods
    datafiles.write()
    if where != "earth":
        for res in (L, 2 * L):
            np.save(vh.data_dir() / f"slepian_masks_{where}_L{res}.npy", funcs.region_mask(where, res))
    name = CLASS.get(where, "Earth")
    for s in (None, 2, 10):
        if where == "earth":
            base = smoothed(datafiles.earth_flm(L), L, s)
            for snr in (-5.0, 0.0, 10.0):
                f = F.NoiseEarth(L, SNR=snr, smoothing=s)
                g = F.Earth(L, smoothing=s, noise=snr)
                what = f"NoiseEarth L={L} SNR={snr} smoothing={s}"
                rec.close(f.coefficients, g.coefficients - base, 1e-9 * np.abs(base).max(), "noise", what)
                real_field(rec, f.coefficients, L, "noise/real", what)
                rec.expect(np.abs(f.coefficients).max() > 0, "noise/empty", what)
                rec.case((what,))
        else:
            base = masked(smoothed(datafiles.earth_flm(L), L, s), funcs.region_mask(where, L), L, where)
        for B, j_min in funcs.WAVELETS:
            kap = ref.kappas(L, B, j_min, funcs.j_max(B, L) - j_min + 2)
            for j in funcs.js(B, L, j_min):
                f = getattr(F, f"AxisymmetricWaveletCoefficients{name}")(L, B=B, j_min=j_min, j=j, smoothing=s)
                what = f"wavelet coefficients of {where} L={L} B={B} j_min={j_min} j={j} smoothing={s}"
                # psi_l0 = sqrt((2l+1)/4pi) kappa, coefficient = sqrt(4pi/(2l+1)) f conj(psi_l0)
                want = base * kap[0 if j is None else j + 1][[ell for ell, _ in ref.lm(L)]]
                rec.close(f.coefficients, want, 2e-4 * np.abs(base).max(), "wavelet", what)
                top = W.axisymmetric_wavelet_inverse(L, f.wavelet_coefficients, f.wavelets)
                rec.close(top, base, 1e-6 * np.abs(base).max(), "wavelet/sum", f"{what}: all scales together")
                rec.case((what,) if np.abs(want).max() > 0 else None)
        if where == "earth":
            continue
        region = Region(mask_name=where)
        f = getattr(F, f"Slepian{name}")(L, region=region, smoothing=s)
        V = f.slepian.eigenvectors
        N = int(f.slepian.N)
        want = V.conj() @ base
        what = f"Slepian {where} L={L} smoothing={s}"
        rec.expect(len(f.coefficients) >= N, "slepian/size", what)
        rec.close(f.coefficients[:N], want[:N], 1e-8 * np.abs(base).max(), "slepian", what)
        rec.case((what,) if N else None)
        if not N:
            continue
        for snr in (-5.0, 0.0, 10.0):
            n = getattr(F, f"SlepianNoise{name}")(L, region=region, SNR=snr, smoothing=s)
            g = getattr(F, f"Slepian{name}")(L, region=region, noise=snr, smoothing=s)
            k = min(len(n.coefficients), len(g.coefficients), N)
            rec.close(n.coefficients[:k], (g.coefficients - f.coefficients)[:k], 1e-8 * np.abs(base).max(), "slepian/noise", f"{what} SNR={snr}")
            rec.expect(np.abs(n.coefficients).max() > 0, "slepian/noise/empty", f"{what} SNR={snr}")
            rec.case((what, snr))
        for B, j_min in funcs.WAVELETS:
            top = funcs.j_max(B, L * L) - j_min
            kap = ref.kappas(L * L, B, j_min, top + 2)
            for j in funcs.js(B, L * L, j_min):
                try:
                    g = getattr(F, f"SlepianWaveletCoefficients{name}")(L, B=B, j_min=j_min, j=j, region=region, smoothing=s)
                except IndexError:  # its wavelet vanishes up to the Shannon number
                    rec.expect(not kap[0 if j is None else j + 1][:N].any(), "slepian/wavelet/missing", f"{what} B={B} j_min={j_min} j={j}")
                    continue
                w = F.SlepianWavelets(L, region=region, B=B, j_min=j_min).wavelets
                rows = W.slepian_wavelet_forward(f.coefficients, w, N)
                tag = f"{what} B={B} j_min={j_min} j={j}"
                rec.close(g.coefficients, rows[0 if j is None else j + 1], 1e-9 * np.abs(base).max(), "slepian/wavelet", tag)
                back = W.slepian_wavelet_inverse(g.wavelet_coefficients, g.wavelets, N)
                rec.close(back[:N], want[:N], 1e-6 * np.abs(base).max(), "slepian/wavelet/sum", f"{tag}: all scales together")
                rec.case((what, B, j_min, j))


ALL = ["Earth", "NoiseEarth", "Africa", "SouthAmerica", "Wmap"] + [
    f"AxisymmetricWaveletCoefficients{x}" for x in ("Africa", "Earth", "SouthAmerica")] + [
    f"Slepian{y}{x}" for x in ("Africa", "SouthAmerica") for y in ("", "Noise", "WaveletCoefficients")]


def make(name, L):
    import sleplet
    from sleplet.slepian import Region

    kw = {}
    if name.startswith("Slepian"):
        kw["region"] = Region(mask_name="africa" if "Africa" in name else "south_america")
    return getattr(sleplet.functions, name)(L, **kw)


def _missing(sc, rec):
    """Without its data file nothing is made, nor saved."""
    L = sc["L"]
    for name in ALL:
        own = "cmb" if name == "Wmap" else "earth"
        for earth, cmb, masks in itertools.product((True, False), repeat=3):
            for unreachable in (False, True):
                vh.clear_data()
                vh.REG.reset()
                if unreachable:
                    vh.REG.load_error = requests.ConnectionError("no network")
                vh.reset_data_source()
                datafiles.write(earth=earth, cmb=cmb)
                if masks:
                    funcs.provide_region_masks(L)
                before = vh.snapshot()
                what = f"{name} L={L} earth={earth} cmb={cmb} stored masks={masks} reachable={not unreachable}"
                try:
                    f, e = make(name, L), None
                except Exception as x:  # noqa: BLE001
                    f, e = None, x
                available = cmb if own == "cmb" else earth
                if available:
                    rec.expect(e is None or not masks, "present", lambda: f"{what}: {e!r}")  # land may be empty
                    rec.case((name, L, masks, unreachable))
                else:
                    rec.expect(f is None, "missing", f"{what} was made without its data")
                    kept = {k: v for k, v in vh.snapshot().items() if "masks" in k}
                    rec.expect(all(k in before for k in kept), "missing/saved", lambda: f"{what} left {set(kept) - set(before)}")
                    rec.case()
    vh.REG.reset()
    vh.reset_data_source()


def _short(sc, rec):
    """A file that ends before the bandlimit is an error."""
    import sleplet

    for L in (2, 3, 4, 5):
        for rows in range(1, L * L + 1):
            col = datafiles.earth_column()[:rows]
            sio.savemat(vh.data_dir() / datafiles.EARTH, {"flm": col[:, None]})
            try:
                f = sleplet.functions.Earth(L)
            except Exception:  # noqa: BLE001
                f = None
            rec.expect((f is not None) == (rows >= L * L), "short/earth", f"Earth L={L} from {rows} rows")
            rec.case((L, rows) if f is not None else None)
        for rows in range(1, L + 2):
            sio.savemat(vh.data_dir() / datafiles.CMB, {"cl": datafiles.cl_column()[:rows, None]})
            try:
                f = sleplet.functions.Wmap(L)
            except Exception:  # noqa: BLE001
                f = None
            rec.expect((f is not None) == (rows >= L - 2), "short/cmb", f"Wmap L={L} from {rows} rows")
            rec.case((L, "cmb", rows) if f is not None else None)


# ---------------------------------------------------------------- sequences
STEPS = [("Earth", 3), ("Earth", 5), ("Wmap", 4), ("Africa", 5), ("SouthAmerica", 5), ("NoiseEarth", 3), ("replace", 1), ("replace", 0),
         ("AxisymmetricWaveletCoefficientsAfrica", 5), ("smooth", 5)]


def step(what, L):
    import sleplet

    if what == "smooth":
        return sleplet.functions.Earth(L, smoothing=3).coefficients
    return make(what, L).coefficients


def _sequence(sc, rec):
    """Histories: what was made before, or from other data, changes nothing.
    Masks are kept, so those of the first data used stay in use."""
    fresh = {}

    def expected(what, L, data, mask_data):
        key = (what, L, data, mask_data)
        if key not in fresh:
            keep = vh.snapshot()
            vh.clear_data()
            if mask_data != data:
                datafiles.write(variant=mask_data)
                for w in ("Africa", "SouthAmerica"):
                    if w in what:
                        make(w, L)
            datafiles.write(variant=data)
            fresh[key] = step(what, L)
            vh.restore(keep)
        return fresh[key]

    for tail in itertools.product(range(len(STEPS)), repeat=sc["depth"] - 1):
        order = (sc["first"], *tail)
        vh.clear_data()
        data = 0
        datafiles.write()
        masks = {}
        for k in order:
            what, L = STEPS[k]
            if what == "replace":
                data = L
                datafiles.write(variant=data)
                continue
            where = "Africa" if "Africa" in what else "SouthAmerica" if "SouthAmerica" in what else None
            if where:
                masks.setdefault((where, L), data)
            got = step(what, L)
            want = expected(what, L, data, masks.get((where, L), data))
            rec.close(got, want, 1e-12 * max(np.abs(want).max(), 1), "history", f"{what} L={L} after {[STEPS[i] for i in order]}")
            rec.count("steps")
        rec.case(order)
