"""Rotation, translation and convolution: a complete basis of inputs over a
grid of angles against reference rotations, and every sequence of operations
on shared objects against the same operation on fresh ones."""

import copy
import functools
import itertools

import numpy as np

import funcs
import ref
import slep
import vh

ID = "C15"
LEVEL = "model_checking"
RULE = (
    "every function x every angle of the grid (rotations against a reference "
    "rotation matrix integrated over the sphere, translations against spherical "
    "harmonics evaluated at the point), and every sequence of operations on two "
    "objects to the depth, states being the attributes of both objects"
)
ASSUMPTIONS = ["rotation and translation are checked on a grid of angles, not on all angles"]
PI = float(np.pi)
ALPHAS = [0.0, 0.7, PI, 1.5 * PI, 2 * PI, -0.9]
BETAS = [0.0, 0.4, PI / 2, 2.3, PI]
GAMMAS = [0.0, 1.1, PI, 2 * PI, -2.0]
TOL = 1e-9
DATA = ("Earth", "Africa", "SouthAmerica", "Wmap", "NoiseEarth")


def BOUNDS(tier):
    return {"L": Ls(tier), "alpha": ALPHAS, "beta": BETAS, "gamma": GAMMAS, "depth": depth(tier)}


def Ls(tier):
    return [1, 2, 3, 4, 5, 6] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8]


def depth(tier):
    return 3 if tier == "quick" else 4


def scenarios(tier):
    for L in Ls(tier):
        for a in ALPHAS:
            yield {"part": "rotate", "L": L, "alpha": a, "cost": L**3}
        for a in ALPHAS:
            yield {"part": "translate", "L": L, "alpha": a, "cost": L**3}
        yield {"part": "convolve", "L": L}
    for L in (16,) if tier == "quick" else (16, 24, 32):
        yield {"part": "rotate", "L": L, "alpha": 0.7, "light": True, "cost": 10**4}
        yield {"part": "translate", "L": L, "alpha": 0.7, "light": True, "cost": 10**4}
    for L in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for name in ("polar40", "polar170", "gap35", "box", "blob"):
            for a in ALPHAS:
                yield {"part": "slepian", "L": L, "region": name, "alpha": a, "cost": L**4}
    objects = list(HISTORY)
    for one, two in itertools.product(objects, repeat=2):
        if one <= two:
            yield {"part": "history", "objects": [one, two], "depth": depth(tier), "cost": 1000}


HISTORY = {
    "harmonic_gaussian": ("HarmonicGaussian", {"l_sigma": 2.0, "m_sigma": 1.0}, None),
    "dirac_delta": ("DiracDelta", {}, None),
    "earth": ("Earth", {}, None),
    "earth_noised": ("Earth", {"noise": 5.0}, None),
    "ridgelets": ("Ridgelets", {"B": 2, "j_min": 0, "spin": 1, "j": 1}, None),
    "slepian": ("Slepian", {"rank": 1}, "polar40"),
    "slepian_dirac_delta": ("SlepianDiracDelta", {}, "gap70"),
    "slepian_wavelets": ("SlepianWavelets", {"B": 2, "j_min": 0, "j": 1, "noise": 3.0}, "polar40"),
}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


# ------------------------------------------------------------- reference
def euler(a, b, g):
    rz = lambda x: np.array([[np.cos(x), -np.sin(x), 0], [np.sin(x), np.cos(x), 0], [0, 0, 1]])
    ry = lambda x: np.array([[np.cos(x), 0, np.sin(x)], [0, 1, 0], [-np.sin(x), 0, np.cos(x)]])
    return rz(a) @ ry(b) @ rz(g)


@functools.lru_cache(maxsize=8)
def quadrature(L):
    x, w = np.polynomial.legendre.leggauss(L + 1)
    ph = 2 * np.pi * np.arange(2 * L + 1) / (2 * L + 1)
    T, P = (z.ravel() for z in np.meshgrid(np.arccos(x), ph, indexing="ij"))
    W = np.repeat(w * 2 * np.pi / (2 * L + 1), 2 * L + 1)
    X = np.array([np.sin(T) * np.cos(P), np.sin(T) * np.sin(P), np.cos(T)])
    return X, ref.ylm(L, T, P).conj() * W


def rotation(L, a, b, g):
    """Matrix of the rotation of harmonic coefficients, by integration."""
    X, Yw = quadrature(L)
    Y = euler(a, b, g).T @ X
    return Yw @ ref.ylm(L, np.arccos(np.clip(Y[2], -1, 1)), np.arctan2(Y[1], Y[0])).T


def degree_energy(flm, L):
    return np.array([(np.abs(flm[ell * ell : (ell + 1) ** 2]) ** 2).sum() for ell in range(L)])


def catalogue(L, light):
    if light:
        return [
            ("HarmonicGaussian", {}), ("DiracDelta", {}), ("Earth", {}), ("SquashedGaussian", {}),
            ("SphericalHarmonic", {"ell": L - 1, "m": -(L - 2)}), ("Ridgelets", {"B": 2, "j_min": 0, "j": 2}),
        ]
    return list(funcs.harmonic(L))


def real_field(flm, L):
    """Largest deviation from the symmetry of a real field."""
    return max(
        abs(flm[ref.ind(ell, -m)] - (-1) ** m * np.conj(flm[ref.ind(ell, m)]))
        for ell in range(L) for m in range(ell + 1)
    )


def check_flag(o, got, L, key, what, rec):
    """A result handed out under a raised reality flag is a real field."""
    if o.reality and o.spin == 0:
        scale = 1 + np.abs(got).max(initial=0)
        rec.expect(real_field(got, L) <= TOL * scale, key + "/flag", f"{what}: flagged real, but is not")


# ------------------------------------------------------------- single operations
def _rotate(sc, rec):
    L, a, light = sc["L"], sc["alpha"], sc.get("light")
    funcs.provide(L)
    objects = [(funcs.label(n, kw), funcs.make(n, L, **kw)) for n, kw in catalogue(L, light)]
    orig = [np.array(o.coefficients, dtype=complex) for _, o in objects]
    C = np.array(orig).T
    for b in BETAS[1:4:2] if light else BETAS:
        for g in GAMMAS[1:2] if light else GAMMAS:
            want = rotation(L, a, b, g) @ C
            for k, (name, o) in enumerate(objects):
                what = f"{name} L={L} rotated by ({a:.3f}, {b:.3f}, {g:.3f})"
                scale = 1 + np.abs(orig[k]).max()
                got = np.asarray(o.rotate(a, b, gamma=g))
                rec.count("transitions")
                rec.close(got, want[:, k], TOL * scale, "rotate/values", what)
                rec.close(degree_energy(got, L), degree_energy(orig[k], L), TOL * scale**2, "rotate/energy", what)
                check_flag(o, got, L, "rotate", what, rec)
                if g == 0:
                    rec.close(o.rotate(a, b), got, 0, "rotate/default", what + " without gamma")
                o.coefficients = got
                rec.close(o.rotate(-g, -b, gamma=-a), orig[k], TOL * scale, "rotate/inverse", what + " and back")
                if b == 0:  # about the axis, so that the angles add up
                    rec.close(o.rotate(0.3, 0.0), np.exp(-1j * np.array([m for _, m in ref.lm(L)]) * 0.3) * got,
                              TOL * scale, "rotate/axis", what + " then 0.3 about the axis")
                o.coefficients = orig[k]
                rec.close(o.coefficients, orig[k], 0, "rotate/stored", what + ": stored coefficients")
    rec.count("states", len(objects))
    rec.count("traces_validated_against_impl", len(objects))


def _translate(sc, rec):
    L, a, light = sc["L"], sc["alpha"], sc.get("light")
    funcs.provide(L)
    objects = [(funcs.label(n, kw), n, kw) for n, kw in catalogue(L, light)]
    for name, n, kw in objects:
        o = funcs.make(n, L, **kw)
        f = np.array(o.coefficients, dtype=complex)
        scale = 1 + np.abs(f).max()
        for b in BETAS:
            Y = ref.ylm(L, b, a)
            what = f"{name} L={L} translated to theta={b:.3f} phi={a:.3f}"
            want = Y.conj() if n == "DiracDelta" else f * Y
            for sh in (None, 0, 1, L * L - 1, L * L):
                got = np.asarray(o.translate(a, b) if sh is None else o.translate(a, b, shannon=sh))
                rec.count("transitions")
                rec.close(got, want if n == "DiracDelta" else want[:sh], TOL * scale, "translate/values", f"{what} shannon={sh}")
                if sh is None:
                    check_flag(o, got, L, "translate", what, rec)
            if n == "DiracDelta":
                rec.close(got, o.rotate(a, b), TOL, "translate/delta", what + ": the same as its rotation there")
            rec.close(o.coefficients, f, 0, "translate/stored", what + ": stored coefficients")
    rec.count("states", len(objects))
    rec.count("traces_validated_against_impl", len(objects))


def _convolve(sc, rec):
    L = sc["L"]
    n = L * L
    o = funcs.make("HarmonicGaussian", L)
    f, g = slep.dense(n, 1), slep.dense(n, 2)
    F, G = np.array([slep.dense(n, k) for k in range(3)]), np.array([slep.dense(n, k) for k in range(5, 8)])
    for sh in (None, *range(n + 3)):
        kw = {} if sh is None else {"shannon": sh}
        for x, y in ((f, g), (g, f), (F, g), (F, G), (f.real.copy(), g), (f, g.real.copy())):
            bx, by = x.copy(), y.copy()
            got = np.asarray(o.convolve(x, y, **kw))
            rec.count("transitions")
            want = np.array([u * v.conj() for u, v in zip(np.atleast_2d(x), np.broadcast_to(np.atleast_2d(y), np.atleast_2d(x).shape))])
            want = want[:, :sh].reshape(x.shape[:-1] + (n if sh is None else min(sh, n),))
            rec.close(got, want, 1e-12, "convolve/values", f"L={L} shannon={sh} shapes {x.shape} {y.shape}")
            rec.expect(np.array_equal(bx, x) and np.array_equal(by, y), "convolve/input", "inputs changed")
            rec.expect(o.reality is False, "convolve/flag", "flag of a real field is kept")
    for u in (1e-150, 1e-14, 1e-5, 1e9):
        rec.close(o.convolve(f * u, g) / u, f * g.conj(), 1e-12, "convolve/scale", f"L={L} first times {u}")
        rec.close(o.convolve(f, g * u) / u, f * g.conj(), 1e-12, "convolve/scale", f"L={L} second times {u}")
        keep = o.coefficients
        o.coefficients = f * u
        rec.close(o.rotate(0.7, 0.4, gamma=1.1) / u, rotation(L, 0.7, 0.4, 1.1) @ f, TOL, "convolve/scale", f"L={L} rotation of a signal times {u}")
        rec.close(o.translate(0.7, 0.4) / u, f * ref.ylm(L, 0.4, 0.7), TOL, "convolve/scale", f"L={L} translation of a signal times {u}")
        o.coefficients = keep
    # unit inputs: linear in the first, conjugate-linear in the second
    for i in range(n):
        e = np.zeros(n, dtype=complex)
        e[i] = 1j
        rec.count("transitions", 2)
        rec.close(o.convolve(e, g), np.where(np.arange(n) == i, 1j * g.conj(), 0), 1e-12, "convolve/unit", f"unit {i} first")
        rec.close(o.convolve(g, e), np.where(np.arange(n) == i, -1j * g, 0), 1e-12, "convolve/unit", f"unit {i} second")
    rec.count("states")
    rec.count("traces_validated_against_impl")


def _slepian(sc, rec):
    L, name, a = sc["L"], sc["region"], sc["alpha"]
    funcs.provide(L)
    region = slep.region(name)
    s = slep.build(name, L)
    V, N, n = np.array(s.eigenvectors), int(s.N), L * L
    if N == 0:  # nothing to translate
        rec.count("states")
        return
    for cls, kw in funcs.slepian(L, n if name.startswith(("polar", "gap")) else N):
        o = funcs.make(cls, L, region=region, **kw)
        f = np.array(o.coefficients, dtype=complex)
        lab = funcs.label(cls, kw)
        rec.raises(lambda: o.rotate(a, 0.3), NotImplementedError, "slepian/rotate", f"{lab} rotation")
        for b in BETAS:
            S = V[:N] @ ref.ylm(L, b, a)
            S = np.concatenate([S, np.zeros(n - N)])
            what = f"{lab} {name} L={L} translated to theta={b:.3f} phi={a:.3f}"
            for sh in (None, 0, 1, N, n):
                if sh is None and cls != "SlepianDiracDelta" and len(f) != n:
                    continue  # the lengths do not match without the Shannon number
                if sh is not None and sh > len(f) and cls != "SlepianDiracDelta":
                    continue
                got = np.asarray(o.translate(a, b) if sh is None else o.translate(a, b, shannon=sh))
                rec.count("transitions")
                want = S.conj() if cls == "SlepianDiracDelta" else (f[:sh] * S[:sh] if sh is not None else f * S)
                rec.close(got, want, TOL, "slepian/values", f"{what} shannon={sh}")
            rec.close(o.coefficients, f, 0, "slepian/stored", what + ": stored coefficients")
        rec.count("states")
        rec.count("traces_validated_against_impl")


# ------------------------------------------------------------- histories
def freeze(o):
    """The state of an object: every attribute, arrays by content."""
    out = {}
    for k, v in sorted(vars(o).items()):
        if isinstance(v, np.ndarray):
            v = [v.shape, str(v.dtype), v.tobytes().hex()]
        elif k in ("slepian", "region") and v is not None:
            v = {a: (np.asarray(b).tobytes().hex() if isinstance(b, np.ndarray) else repr(b)) for a, b in sorted(vars(v).items()) if not hasattr(b, "__dict__")}
        elif hasattr(v, "__dict__"):
            continue
        out[k] = v
    return vh.digest(list(out.items()))


def _history(sc, rec):
    L = 4
    funcs.provide(L)
    names = sc["objects"]
    template = []
    for name in names:
        cls, kw, where = HISTORY[name]
        if where:
            kw = {**kw, "region": slep.region(where)}
        template.append(funcs.make(cls, L, **kw))
    other = slep.dense(L * L, 4)

    def ops(k):
        o = template[k]
        sh = {"shannon": int(o.slepian.N)} if getattr(o, "slepian", None) is not None else {}
        yield "translate to (0.7, 0.4)", lambda x: x.translate(0.7, 0.4, **sh)
        yield "translate to (0, 0)", lambda x: x.translate(0.0, 0.0, **sh)
        yield "convolve", lambda x: x.convolve(x.coefficients, other[: len(x.coefficients)], **sh)
        if sh:
            return
        yield "rotate by (0.7, 0.4, 1.1)", lambda x: x.rotate(0.7, 0.4, gamma=1.1)
        yield "rotate by (0.3, 0.9)", lambda x: x.rotate(0.3, 0.9)

    alphabet = [(k, what, op) for k in (0, 1) for what, op in ops(k)]
    # each operation on a fresh pair of objects
    expect = [np.array(op(copy.deepcopy(template)[k])) for k, what, op in alphabet]
    coeffs = [np.array(o.coefficients) for o in template]
    seen = set()

    def visit(pair, path):
        seen.add((freeze(pair[0]), freeze(pair[1])))
        if len(path) == sc["depth"]:
            rec.count("traces_validated_against_impl")
            return
        for i, (k, what, op) in enumerate(alphabet):
            mine = copy.deepcopy(pair)
            got = np.array(op(mine[k]))
            rec.count("transitions")
            trail = " then ".join(f"{names[alphabet[j][0]]} {alphabet[j][1]}" for j in (*path, i))
            if not rec.close(got, expect[i], 0, "history/value", trail):
                continue
            for x in (0, 1):
                rec.close(mine[x].coefficients, coeffs[x], 0, "history/stored", f"{trail}: coefficients of {names[x]}")
                rec.expect(mine[x].snr == template[x].snr and mine[x].name == template[x].name and mine[x].L == L,
                           "history/attributes", f"{trail}: attributes of {names[x]} changed")
            check_flag(mine[k], got, L, "history", trail, rec) if len(got) == L * L and getattr(mine[k], "slepian", None) is None else None
            visit(mine, (*path, i))

    visit(copy.deepcopy(template), ())
    rec.count("states", len(seen))
    # and without copying in between, for state kept elsewhere
    for path in itertools.product(range(len(alphabet)), repeat=2):
        mine = copy.deepcopy(template)
        for i in path:
            k, what, op = alphabet[i]
            rec.close(np.array(op(mine[k])), expect[i], 0, "history/shared", f"{what} in {path}")
            rec.count("transitions")
