"""Built-in functions: every function x bandlimit x parameter value against
its definition, and every reality flag against the field."""

import itertools

import numpy as np
import scipy.special

import funcs
import meshref
import ref
import slep
import vh

ID = "C18"
LEVEL = "exploration"
RULE = (
    "every built-in function x bandlimit x parameter value of the grid; "
    "non-trivial are functions with a non-zero coefficient, distinct by name"
)
ASSUMPTIONS = ["functions given by a formula in pixel space are compared after the forward transform of pyssht, which is trusted"]
TOL = 1e-10
SIGMAS = [1e-4, 1e-3, 1e-2, 0.05, 0.1, 0.5, 1.0, 2.5, 10.0, 1000.0, 1e5]


def BOUNDS(tier):
    return {"L": Ls(tier), "widths": SIGMAS, "B": [2, 3, 4], "j_min": [0, 1, 2], "spin": [-3, 3]}


def Ls(tier):
    return [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 24, 32] if tier == "quick" else [*range(1, 21), 24, 28, 32, 48, 64]


def scenarios(tier):
    for L in Ls(tier):
        for part in ("units", "gaussians", "pixel", "wavelets", "ridgelets"):
            yield {"part": part, "L": L, "cost": L**3}
    for L in (1, 2, 3, 4, 5, 8) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 12, 16):
        yield {"part": "flags", "L": L, "cost": L**3}
    for L in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8):
        for region in slep.REGIONS:
            yield {"part": "slepian", "L": L, "region": region, "cost": L**5}
    yield {"part": "slepian", "L": 17, "region": "polar40", "cost": 10**7}
    for name in meshref.NAMES:
        for b in (2, 4, 9, 20) if tier == "quick" else (1, 2, 3, 4, 9, 20, 50, 90):
            yield {"part": "mesh", "mesh": name, "b": b, "cost": 10**3 * b}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def judge(rec, key, name, L, want, tol=TOL, expect_spin=0, **kw):
    o = funcs.make(name, L, **kw)
    what = f"{funcs.label(name, kw)} L={L}"
    got = np.asarray(o.coefficients)
    scale = 1 + np.abs(want).max(initial=0)
    rec.close(got, want, tol * scale, f"{key}/values", what)
    rec.expect(o.spin == expect_spin, f"{key}/spin", lambda: f"{what}: spin {o.spin} instead of {expect_spin}")
    rec.expect(o.L == L and o.noise is None and o.snr is None, f"{key}/attributes", what)
    flag(rec, key, o, what)
    rec.case(what if np.abs(want).max(initial=0) > 0 else None)
    return o


def asymmetry(flm, L):
    return max(
        abs(flm[ref.ind(ell, -m)] - (-1) ** m * np.conj(flm[ref.ind(ell, m)]))
        for ell in range(L) for m in range(ell + 1)
    )


def flag(rec, key, o, what):
    """A raised flag means a real field, so that using it changes nothing."""
    if not o.reality:
        return
    L, f = o.L, np.asarray(o.coefficients)
    scale = 1 + np.abs(f).max(initial=0)
    if not rec.expect(o.spin == 0 and len(f) == L * L, key + "/flag", f"{what}: flagged real with spin {o.spin}"):
        return
    rec.expect(asymmetry(f, L) <= 1e-9 * scale, key + "/flag",
               lambda: f"{what}: flagged real, but its field is not (by {asymmetry(f, L)})")


def zonal(L, values):
    out = np.zeros(L * L, dtype=complex)
    for ell in range(L):
        out[ref.ind(ell, 0)] = values[ell]
    return out


def _units(sc, rec):
    L = sc["L"]
    ell = np.arange(L)
    judge(rec, "delta", "DiracDelta", L, zonal(L, np.sqrt((2 * ell + 1) / (4 * np.pi))))
    judge(rec, "identity", "Identity", L, np.ones(L * L))
    for k, (l, m) in enumerate(ref.lm(L)):
        want = np.zeros(L * L, dtype=complex)
        want[k] = 1
        judge(rec, "harmonic", "SphericalHarmonic", L, want, ell=l, m=m)
    judge(rec, "harmonic", "SphericalHarmonic", L, zonal(L, ell == 0))


def _gaussians(sc, rec):
    L = sc["L"]
    ell = np.arange(L)
    for s in SIGMAS:
        want = zonal(L, np.exp(-ell * (ell + 1) / (2 * s * s)))
        judge(rec, "gaussian", "Gaussian", L, want, sigma=s)
        # far tails: the values are tiny, their logarithms are not
        tail = [np.log(np.maximum(np.real(x), 1e-280)) for x in (funcs.make("Gaussian", L, sigma=s).coefficients, want)]
        rec.close(*tail, 1e-8, "gaussian/tail", f"Gaussian sigma={s} L={L}: logarithm of the coefficients")
    judge(rec, "gaussian", "Gaussian", L, zonal(L, np.exp(-ell * (ell + 1) / 200)))
    el, em = np.array(ref.lm(L)).T
    for a, b in itertools.product(SIGMAS, repeat=2):
        want = np.exp(-((el / a) ** 2 + (em / b) ** 2) / 2)
        judge(rec, "harmonic_gaussian", "HarmonicGaussian", L, want, l_sigma=a, m_sigma=b)
    judge(rec, "harmonic_gaussian", "HarmonicGaussian", L, np.exp(-(el**2 + em**2) / 200))


def _pixel(sc, rec):
    import pyssht as ssht

    L = sc["L"]
    th, ph = ref.grid(L)
    for a, b in itertools.product(SIGMAS, repeat=2):
        f = np.exp(-((th / a) ** 2) / 2) * np.sin(b * ph)
        want = ssht.forward(f.astype(complex), L, Method="MWSS")
        judge(rec, "squashed", "SquashedGaussian", L, want, tol=1e-8, t_sigma=a, freq=b)
        f = np.exp(-((th / a) ** 2 + ((ph - np.pi) / b) ** 2) / 2)
        want = ssht.forward(f.astype(complex), L, Method="MWSS")
        judge(rec, "elongated", "ElongatedGaussian", L, want, tol=1e-8, t_sigma=a, p_sigma=b)
    f = np.exp(-(th**2) / 2) * np.sin(0.1 * ph)
    judge(rec, "squashed", "SquashedGaussian", L, ssht.forward(f.astype(complex), L, Method="MWSS"), tol=1e-8)
    f = np.exp(-(th**2 + ((ph - np.pi) / 0.1) ** 2) / 2)
    judge(rec, "elongated", "ElongatedGaussian", L, ssht.forward(f.astype(complex), L, Method="MWSS"), tol=1e-8)


def generating(n, B, j_min, rec):
    from sleplet.wavelet_methods import create_kappas

    k = np.array(create_kappas(n, B, j_min))
    rec.close(k, ref.kappas(n, B, j_min, len(k)), 2e-2, "kappas", f"generating functions n={n} B={B} j_min={j_min}")
    return k


def _wavelets(sc, rec):
    L = sc["L"]
    ell = np.arange(L)
    for B, j_min in itertools.product((2, 3, 4), (0, 1, 2)):
        for j in funcs.js(B, L, j_min):
            k = generating(L, B, j_min, rec)[0 if j is None else j + 1]
            want = zonal(L, np.sqrt((2 * ell + 1) / (4 * np.pi)) * k)
            o = judge(rec, "wavelets", "AxisymmetricWavelets", L, want, B=B, j_min=j_min, j=j)
            rec.close(o.wavelets[0 if j is None else j + 1], want, TOL, "wavelets/stored", f"B={B} j_min={j_min} j={j}")
    if funcs.js(3, L, 2):
        k = generating(L, 3, 2, rec)[0]
        judge(rec, "wavelets", "AxisymmetricWavelets", L, zonal(L, np.sqrt((2 * ell + 1) / (4 * np.pi)) * k))


def ring(L, s):
    """Spin harmonic coefficients of a great circle."""
    out = np.zeros(L)
    for ell in range(abs(s), L):
        p = scipy.special.lpmv(abs(s), ell, 0.0)
        norm = np.exp((scipy.special.gammaln(ell - abs(s) + 1) - scipy.special.gammaln(ell + abs(s) + 1)) / 2)
        if s < 0:  # P_l^-s sqrt((l+s)!/(l-s)!) = (-1)^s P_l^s sqrt((l-s)!/(l+s)!)
            p *= (-1) ** s
        out[ell] = 2 * np.pi * np.sqrt((2 * ell + 1) / (4 * np.pi)) * p * norm * (-1) ** s
    return out


def _ridgelets(sc, rec):
    L = sc["L"]
    for B, j_min in itertools.product((2, 3, 4), (0, 1, 2)):
        for j in funcs.js(B, L, j_min):
            k = generating(L, B, j_min, rec)
            for s in range(-3, 4):
                want = zonal(L, ring(L, s) * (k[0] if j is None else k[j + 1] / np.sqrt(2 * np.pi)))
                judge(rec, "ridgelets", "Ridgelets", L, want, tol=1e-9, expect_spin=s, B=B, j_min=j_min, j=j, spin=s)
    if funcs.js(3, L, 2):
        k = generating(L, 3, 2, rec)
        judge(rec, "ridgelets", "Ridgelets", L, zonal(L, ring(L, 2) * k[0]), tol=1e-9, expect_spin=2)


def _flags(sc, rec):
    """Every harmonic function, with and without noise and smoothing."""
    import pyssht as ssht

    L = sc["L"]
    funcs.provide(L)
    for name, kw in funcs.harmonic(L):
        for extra in ({}, {"noise": 5.0}, {"smoothing": 3}, {"noise": -3.0, "smoothing": 1}):
            if "smoothing" in kw and "smoothing" in extra:
                continue
            o = funcs.make(name, L, **kw, **extra)
            what = f"{funcs.label(name, {**kw, **extra})} L={L}"
            flag(rec, "flags", o, what)
            if o.reality:
                f = np.asarray(o.coefficients, dtype=complex)
                scale = 1 + np.abs(f).max(initial=0)
                with_flag = ssht.inverse(f, L, Method="MWSS", Reality=True)
                without = ssht.inverse(f, L, Method="MWSS")
                rec.close(with_flag, without, 1e-8 * scale, "flags/field", f"{what}: field with the flag")
            rec.case(what if o.reality else None)


def _slepian(sc, rec):
    L, name = sc["L"], sc["region"]
    n = L * L
    s = slep.build(name, L)
    N, V = int(s.N), np.array(s.eigenvectors)
    region = slep.region(name)
    polar = name.startswith(("polar", "gap")) and L <= 16
    if N == 0:
        rec.case()
        return

    def judge_p(cls, want, tol=1e-9, **kw):
        o = funcs.make(cls, L, region=region, **kw)
        what = f"{funcs.label(cls, kw)} {name} L={L}"
        rec.close(o.coefficients, want, tol, f"{cls}/values", what)
        rec.expect(not o.reality and o.spin == 0, f"{cls}/flag", what)
        rec.expect(int(o.slepian.N) == N, f"{cls}/region", f"{what}: Shannon number {o.slepian.N} instead of {N}")
        rec.close(np.asarray(o.slepian.mask, int), np.asarray(s.mask, int), 0, f"{cls}/region", f"{what}: mask")
        rec.case(what)
        return o

    ranks = range(n if polar else N)
    if L > 8:
        ranks = (0, 1, N // 2, N - 1)
    for r in ranks:
        judge_p("Slepian", (np.arange(N) == r).astype(float), rank=r)
    judge_p("SlepianIdentity", np.ones(n))
    for B, j_min in itertools.product((2, 3, 4), (0, 1, 2)) if L <= 8 else [(3, 2)]:
        for j in funcs.js(B, n, j_min):
            judge_p("SlepianWavelets", generating(n, B, j_min, rec)[0 if j is None else j + 1], B=B, j_min=j_min, j=j)
    # the Dirac delta sits where the leading function is largest
    o = funcs.make("SlepianDiracDelta", L, region=region)
    th, ph = ref.grid(L)
    S = np.tensordot(np.array(o.slepian.eigenvectors)[:N], ref.ylm(L, th, ph), axes=1).reshape(N, -1)
    got = np.asarray(o.coefficients)
    rec.expect(got.shape == (n,), "SlepianDiracDelta/shape", f"{got.shape}")
    rec.close(got[N:], np.zeros(n - N), 0, "SlepianDiracDelta/tail", f"{name} L={L}: beyond the Shannon number")
    top = np.flatnonzero(S[0].real >= S[0].real.max() - 1e-9)
    worst = np.abs(S[:, top].conj() - got[:N, None]).max(axis=0).min()
    rec.expect(worst < 1e-8, "SlepianDiracDelta/values",
               f"{name} L={L}: differs by {worst} from the functions at the maximum of the leading one")
    rec.expect(not o.reality and o.spin == 0, "SlepianDiracDelta/flag", name)
    rec.case(f"SlepianDiracDelta {name} {L}")


def _mesh(sc, rec):
    import igl
    import sleplet

    b = sc["b"]
    mesh = sleplet.meshes.Mesh(sc["mesh"], number_basis_functions=b)
    P = np.array(mesh.basis_functions)
    at = f"{sc['mesh']} b={b}"
    field = igl.per_vertex_normals(np.array(mesh.vertices), np.array(mesh.faces))[:, 1]

    def make(cls, want, tol=1e-8, **kw):
        o = getattr(sleplet.meshes, cls)(mesh, **kw)
        rec.close(o.coefficients, want, tol, f"{cls}/values", f"{funcs.label(cls, kw)} {at}")
        rec.expect(o.snr is None and o.noise is None, f"{cls}/attributes", at)
        rec.case(f"{funcs.label(cls, kw)} {at}")
        return o

    for r in range(b):
        make("MeshBasisFunctions", (np.arange(b) == r).astype(float), rank=r)
    make("MeshField", P @ field)
    make("MeshField", P @ field, region=True)
    ms = sleplet.meshes.MeshSlepian(mesh)
    N, F = int(ms.N), np.array(ms.slepian_functions)
    if N == 0:
        return
    for r in range(N):
        make("MeshSlepianFunctions", (np.arange(N) == r).astype(float), rank=r)
    make("MeshSlepianField", (F[:N] @ (P @ field)))
    from sleplet.wavelet_methods import slepian_wavelet_forward

    for B, j_min in itertools.product((2, 3), (0, 1, 2)):
        for j in funcs.js(B, b, j_min):
            k = generating(b, B, j_min, rec)
            row = 0 if j is None else j + 1
            make("MeshSlepianWavelets", k[row], B=B, j_min=j_min, j=j)
            if k[row, :N].any():
                make("MeshSlepianWaveletCoefficients", k[row, :N] * (F[:N] @ (P @ field)), B=B, j_min=j_min, j=j)
