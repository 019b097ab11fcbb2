"""Slepian transforms on the sphere, on a complete basis of inputs: every unit
coefficient vector and every unit pixel field, for each kind of region."""

import itertools

import numpy as np

import ref
import slep
import vh

ID = "C10"
LEVEL = "exploration"
RULE = (
    "every region kind x bandlimit x method x (unit coefficient vector | unit "
    "pixel field | dense vector) x number of coefficients; the transforms are "
    "linear, so that the unit inputs fix them; non-trivial are unit inputs with "
    "a non-zero transform"
)
ASSUMPTIONS = ["linearity is itself checked on dense complex inputs, not on all inputs"]


def BOUNDS(tier):
    return {"L": Ls(tier), "regions": list(slep.REGIONS)}


def Ls(tier):
    return [1, 2, 3, 4, 5, 6] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8]


def scenarios(tier):
    for L in Ls(tier):
        for name in slep.REGIONS:
            yield {"L": L, "region": name, "cost": L**4}
    for name in ("polar40", "gap70", "box"):
        yield {"L": 8, "region": name, "light": True, "cost": 8**4}
    for walk in WALKS:
        yield {"walk": walk, "cost": 10**4}
    for L in (9, 12, 17) if tier == "thorough" else (9, 17):
        yield {"L": L, "region": "polar40", "light": True, "cost": 10**5}


# regions that are easily mistaken for each other, used in one process
WALKS = [
    [["polar", 4, 60.2], ["polar", 4, 60.4], ["polar", 4, 60.2, True], ["polar", 5, 60.2], ["polar", 4, 60.2, False, 1], ["polar", 4, 60.2, False, -1]],
    [["rect", 4, 30, 100, 40, 200], ["rect", 4, 30.4, 100, 40, 200], ["rect", 4, 30, 100.4, 40, 200], ["rect", 4, 30, 100, 40.4, 200.4], ["rect", 4, 30, 100, 50, 210]],
    [["mask", 3, "blob"], ["mask", 3, "blob2"], ["mask", 3, "stripe"], ["mask", 2, "blob"], ["mask", 4, "blob"]],
    [["polar", 3, 60], ["rect", 3, 0, 60, 0, 360], ["polar", 3, 120], ["rect", 3, 0, 120, 0, 360], ["rect", 3, 60, 180, 0, 360], ["polar", 3, 60, True]],
]


def member(spec):
    from sleplet.slepian import SlepianArbitrary, SlepianLimitLatLon, SlepianPolarCap

    kind, L, *a = spec
    if kind == "polar":
        extra = dict(zip(("gap", "order"), a[1:]))
        return L, SlepianPolarCap(L, float(np.deg2rad(a[0])), **extra)
    if kind == "rect":
        t = [float(x) for x in np.deg2rad(a)]
        return L, SlepianLimitLatLon(L, theta_min=t[0], theta_max=t[1], phi_min=t[2], phi_max=t[3])
    slep.provide_masks(L)
    return L, SlepianArbitrary(L, a[0])


def _walk(sc, rec):
    """Transforms of regions after each other, in every order of two."""
    from sleplet.slepian_methods import compute_s_p_omega, slepian_forward, slepian_inverse

    for pair in itertools.permutations(sc["walk"], 2):
        for spec in pair:
            L, s = member(spec)
            V, ev = np.array(s.eigenvectors), np.array(s.eigenvalues)
            N = min(int(s.N), len(V))
            S = np.tensordot(V, ref.ylm(L, *ref.grid(L)), axes=1)
            what = f"{spec} in {pair}"
            tol = 1e-9 * L * L
            c, d = slep.dense(len(V), 1), slep.dense(L * L)
            f = np.tensordot(d, ref.ylm(L, *ref.grid(L)), axes=1)
            if spec[0] != "polar" or len(spec) < 5:
                rec.close(compute_s_p_omega(L, s), S[:N], tol, "walk", f"eigenfunctions of {what}")
                rec.close(slepian_inverse(c, L, s), np.tensordot(c[:N], S[:N], axes=1), tol, "walk", f"inverse for {what}")
            rec.close(slepian_forward(L, s, flm=d, n_coeffs=N), V[:N].conj() @ d, tol, "walk", f"coefficients for {what}")
            want = (S[:N].conj() * (ref.weight(L) * f)).sum(axis=(1, 2))
            rec.close(slepian_forward(L, s, f=f, n_coeffs=N), want, tol, "walk", f"coefficients of a field for {what}")
            mask = np.array(s.mask, dtype=float) if spec[0] != "mask" else slep.mask_of(spec[2], L).astype(float)
            got = slepian_forward(L, s, f=f, mask=mask, n_coeffs=N)
            want = (S[:N].conj() * (ref.weight(L) * mask * f)).sum(axis=(1, 2))
            ok = ev[:N] > 1e-6
            rec.close((got * ev[:N])[ok], want[ok], tol, "walk", f"masked coefficients for {what}")
            rec.case(str(spec))
    rec.sample = {"walk": sc["walk"]}


def run(sc, rec):
    if "walk" in sc:
        return _walk(sc, rec)
    import pyssht as ssht

    from sleplet.slepian_methods import (
        choose_slepian_method,
        compute_s_p_omega,
        slepian_forward,
        slepian_inverse,
    )

    L, name = sc["L"], sc["region"]
    n = L * L
    s = slep.build(name, L)
    V, ev, N = np.array(s.eigenvectors), np.array(s.eigenvalues), int(s.N)
    th, ph = ref.grid(L)
    Y = ref.ylm(L, th, ph)
    S = np.tensordot(V, Y, axes=1)
    w = ref.weight(L)
    tol = 1e-9
    key = "polar" if name.startswith(("polar", "gap")) else "other"

    def fwd(**kw):
        before = {k: np.array(v, copy=True) for k, v in kw.items() if isinstance(v, np.ndarray)}
        out = slepian_forward(L, s, **kw)
        for k, v in before.items():
            rec.expect(np.array_equal(v, kw[k]), f"{key}/input", f"slepian_forward changed {k}")
        return out

    def unit(i, size):
        e = np.zeros(size, dtype=complex)
        e[i] = 1
        return e

    numbers = [None, 0, 1, N, n - 1, n] if not sc.get("light") else [None, n]
    nums = lambda k: N if k is None else k
    # harmonic coefficients
    for i in range(n):
        for k in (None, n):
            got = fwd(flm=unit(i, n), n_coeffs=k)
            want = V[: nums(k), i].conj()
            rec.close(got, want, tol, f"{key}/flm", f"unit harmonic {i}, n_coeffs={k}")
            rec.case((L, name, "flm", i, k) if np.abs(want).max(initial=0) > 1e-9 else None)
    d = slep.dense(n)
    fd = np.tensordot(d, Y, axes=1)
    other = slep.dense(n, 3)
    for k in numbers if sc.get("light") else [None, *range(n + 1)]:
        kk = {} if k is None else {"n_coeffs": k}
        rec.close(fwd(flm=d, **kk), V[: nums(k)].conj() @ d, tol * n, f"{key}/flm_n", f"n_coeffs={k}")
        rec.close(fwd(f=fd, **kk), [(w * fd * S[p].conj()).sum() for p in range(nums(k))], tol * n, f"{key}/f_n", f"n_coeffs={k}")
        rec.case()
    # harmonic coefficients win
    rec.close(fwd(flm=other, f=fd), V[:N].conj() @ other, tol * n, f"{key}/precedence", "flm and f given")
    rec.close(fwd(flm=other, f=fd, mask=np.ones(w.shape)), V[:N].conj() @ other, tol * n, f"{key}/precedence", "flm, f and mask given")
    rec.raises(lambda: slepian_forward(L, s), Exception, f"{key}/nothing", "no input")
    rec.raises(lambda: slepian_forward(L, s, mask=np.ones(w.shape)), Exception, f"{key}/nothing", "a mask only")
    rec.raises(lambda: slepian_forward(L, s, flm=d, n_coeffs=n + 1), Exception, f"{key}/too_many", "more coefficients than functions")
    # fields and masked fields
    region_mask = np.array(s.mask, dtype=bool) if "mask_name" not in slep.kwargs(name) else slep.mask_of(name, L)
    safe = ev > 1e-6
    checker = (np.add.outer(np.arange(L + 1), np.arange(2 * L)) % 2).astype(bool)
    masks = {"region": region_mask, "all": np.ones(w.shape, bool), "none": np.zeros(w.shape, bool), "checker": checker}
    for a in range(L + 1) if not sc.get("light") else [0, 1, L]:
        for b in range(2 * L) if not sc.get("light") else [0, 1, 2 * L - 1]:
            f = np.zeros(w.shape, dtype=complex)
            f[a, b] = 1 - 2j
            want = w[a, b] * (1 - 2j) * S[:, a, b].conj()
            rec.close(fwd(f=f), want[:N], tol, f"{key}/f", f"unit pixel {a},{b}")
            rec.close(fwd(f=f, n_coeffs=n), want, tol, f"{key}/f", f"unit pixel {a},{b}")
            rec.case((L, name, "f", a, b) if np.abs(want).max() > 1e-9 else None)
            for mname, mask in masks.items():
                got = fwd(f=f, mask=mask, n_coeffs=n)
                target = mask[a, b] * want
                with np.errstate(all="ignore"):
                    rec.close((got * ev)[safe], target[safe], 1e-8, f"{key}/mask", f"unit pixel {a},{b} with mask {mname}")
                rec.case()
    # the transforms are linear, whatever the units of the signal
    for u in (1e-150, 1e-14, 1e-5, 1e9):
        at = f"signal times {u}"
        rec.close(fwd(flm=d * u) / u, V[:N].conj() @ d, tol * n, f"{key}/scale", f"harmonics of {at}")
        rec.close(fwd(f=fd * u) / u, [(w * fd * S[p].conj()).sum() for p in range(N)], tol * n, f"{key}/scale", f"field of {at}")
        got = fwd(f=fd * u, mask=region_mask) / u
        want = np.array([(w * region_mask * fd * S[p].conj()).sum() for p in range(N)])
        with np.errstate(all="ignore"):
            ok = safe[:N]
            rec.close((got * ev[:N])[ok], want[ok], 1e-8 * n, f"{key}/scale", f"masked field of {at}")
        rec.close(slepian_inverse(d * u, L, s) / u, np.tensordot(d[:N], S[:N], axes=1), tol * n, f"{key}/scale", f"inverse of {at}")
        rec.case((L, name, "scale", u))
    # and signals held as real numbers are not different
    fr = np.ascontiguousarray(fd.real)
    rec.close(fwd(flm=d.real.copy()), V[:N].conj() @ d.real, tol * n, f"{key}/real", "real harmonics")
    rec.close(fwd(f=fr), [(w * fr * S[p].conj()).sum() for p in range(N)], tol * n, f"{key}/real", "real field")
    got, want = fwd(f=fr, mask=region_mask), np.array([(w * region_mask * fr * S[p].conj()).sum() for p in range(N)])
    with np.errstate(all="ignore"):
        rec.close((got * ev[:N])[safe[:N]], want[safe[:N]], 1e-8 * n, f"{key}/real", "real field in the region")
    rec.close(slepian_inverse(d.real.copy(), L, s), np.tensordot(d.real[:N], S[:N], axes=1), tol * n, f"{key}/real", "inverse of real coefficients")
    rec.case((L, name, "real"))
    # inverse
    got_s = compute_s_p_omega(L, s)
    rec.close(got_s, S[:N], tol * L, f"{key}/s_p", "eigenfunctions on the grid")
    for p in range(n):
        e = unit(p, n)
        got = slepian_inverse(e, L, s)
        rec.close(got, S[p] if p < N else np.zeros_like(S[0]), tol * L, f"{key}/inverse", f"unit coefficient {p}")
        rec.case((L, name, "inverse", p) if p < N else None)
        if p < N:
            back = ssht.forward(np.ascontiguousarray(got), L, Method="MWSS")
            rec.close(fwd(flm=back, n_coeffs=n), e, tol * n, f"{key}/roundtrip", f"unit coefficient {p}")
    for size in {N, n}:
        before = slep.dense(size, 1)
        c = before.copy()
        got = slepian_inverse(c, L, s)
        rec.expect(np.array_equal(c, before), f"{key}/input", "slepian_inverse changed its input")
        rec.close(got, np.tensordot(c[:N], S[:N], axes=1), tol * n, f"{key}/inverse_dense", f"{size} coefficients")
        rec.case()
    # choosing the method
    t = choose_slepian_method(L, slep.region(name))
    rec.expect(type(t) is type(s), f"{key}/choose", f"{type(t).__name__} instead of {type(s).__name__}")
    rec.close(np.array(t.eigenvalues), ev, 1e-9, f"{key}/choose", "eigenvalues of the chosen method")
    rec.close(np.array(t.mask, dtype=float), np.array(s.mask, dtype=float), 0, f"{key}/choose", "mask of the chosen method")
    rec.expect(t.N == s.N and t.name == s.name, f"{key}/choose", "name or Shannon number of the chosen method")
    rec.expect(t.region == slep.region(name), f"{key}/choose", f"{t.region} instead of {slep.region(name)}")
    vh.clear_data()
    slep.provide_masks(L)
    u = choose_slepian_method(L, slep.region(name))
    rec.close(np.array(u.eigenvalues), ev, 1e-9, f"{key}/choose", "eigenvalues of the chosen method, computed")
    rec.case()
    rec.sample = {"L": L, "region": name, "N": N, "first_coefficients": [str(x) for x in (V[:2].conj() @ d)]}
