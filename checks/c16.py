"""Regions: every combination of angles, gap and mask is classified, every
mask compared point by point, every wrong shape tried, and the default region
built from every combination of environment variables."""

import itertools
import os

import numpy as np

import funcs
import ref
import slep
import vh

ID = "C16"
LEVEL = "exploration"
RULE = (
    "every combination of the angle values (default, interior, extreme, just "
    "out of range) x gap x mask name; every cap and rectangle with edges on and "
    "between the sampling points x bandlimit; every combination of environment "
    "values; non-trivial are accepted regions, and masks neither empty nor full"
)
ASSUMPTIONS = [
    "a sampling point is taken to lie on the edge of a region when the floats agree; where degrees and radians (or the two ways to write the southern edge of a gap) round differently either value is accepted",
]
PI = float(np.pi)
UP = float(np.nextafter(PI, 4))
UP2 = float(np.nextafter(2 * PI, 7))
DOWN = -5e-324
THETA_MIN = [0.0, 5e-324, 0.3, 2.0, PI, DOWN, -0.4, UP, 4.0]
THETA_MAX = [PI, float(np.nextafter(PI, 0)), 1.0, 0.3, 0.0, DOWN, -1.0, UP, 9.0]
PHI_MIN = [0.0, 5e-324, 0.5, 4.0, 2 * PI, DOWN, -0.4, UP2, 8.0]
PHI_MAX = [2 * PI, float(np.nextafter(2 * PI, 0)), 2.0, 0.5, 0.0, DOWN, -2.0, UP2, 100.0]

REFUSED = ("out of range", "upside down", "nothing")


def BOUNDS(tier):
    return {"theta_min": THETA_MIN, "theta_max": THETA_MAX, "phi_min": PHI_MIN, "phi_max": PHI_MAX,
            "mask_L": Ls(tier)}


def Ls(tier):
    return [1, 2, 3, 4, 5, 6] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]


def scenarios(tier):
    for t in THETA_MIN:
        yield {"part": "classify", "theta_min": t}
    for L in Ls(tier):
        yield {"part": "caps", "L": L, "cost": L}
        for k in range(L + 1):
            yield {"part": "rectangles", "L": L, "row": k, "cost": L**3}
        yield {"part": "files", "L": L}
    for L in (16, 17, 32) if tier == "quick" else (11, 16, 17, 24, 32, 48):
        yield {"part": "caps", "L": L, "cost": L}
    for gap in (None, "True", "true", "TRUE", "False", "1", ""):
        for mask in (None, "blob", "stripe", "nowhere", ""):
            yield {"part": "env", "gap": gap, "mask": mask, "cost": 500}
    yield {"part": "degrees", "cost": 400}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def outcome(fn):
    try:
        return fn()
    except Exception as e:  # noqa: BLE001
        return e


def expected(kw):
    t0, t1 = kw.get("theta_min", 0.0), kw.get("theta_max", PI)
    p0, p1 = kw.get("phi_min", 0.0), kw.get("phi_max", 2 * PI)
    if not (0 <= t0 <= PI and 0 <= t1 <= PI and 0 <= p0 <= 2 * PI and 0 <= p1 <= 2 * PI):
        return "out of range"
    if t0 > t1 or p0 > p1:
        return "upside down"
    if p0 == 0 and p1 == 2 * PI and t0 == 0:
        if t1 != PI:
            return "polar"
        return "arbitrary" if kw.get("mask_name") else "nothing"
    return "lim_lat_lon"


def judge(rec, kw):
    from sleplet.slepian import Region

    want = expected(kw)
    got = outcome(lambda: Region(**kw))
    if want in REFUSED:
        rec.expect(isinstance(got, AttributeError if want == "nothing" else ValueError), f"classify/{want}",
                   lambda: f"Region({kw}) gave {got!r}, but is {want}")
        rec.case()
        return
    if not rec.expect(isinstance(got, Region), "classify/rejected", lambda: f"Region({kw}) was rejected: {got!r}, expected {want}"):
        return
    rec.expect(got._region_type == want, "classify/type", lambda: f"Region({kw}) is {got._region_type}, expected {want}")
    for k, v in kw.items():
        rec.expect(getattr(got, k) == v, "classify/attribute", lambda k=k: f"Region({kw}).{k} is {getattr(got, k)}")
    rec.case(kw)


def _classify(sc, rec):
    t0 = sc["theta_min"]
    for t1, p0, p1 in itertools.product(THETA_MAX, PHI_MIN, PHI_MAX):
        for gap, mask in itertools.product((False, True), ("", "africa", "custom mask")):
            judge(rec, {"theta_min": t0, "theta_max": t1, "phi_min": p0, "phi_max": p1, "gap": gap, "mask_name": mask})
    # arguments left out
    if t0 == 0:
        values = {"theta_min": 0.3, "theta_max": 1.0, "phi_min": 0.5, "phi_max": 2.0, "mask_name": "custom", "gap": True}
        for n in range(len(values) + 1):
            for names in itertools.combinations(values, n):
                judge(rec, {k: values[k] for k in names})


# ------------------------------------------------------------------ masks
def samples(L):
    """The library's own sampling points, so that edges agree as floats."""
    import pyssht as ssht

    th, ph = ssht.sample_positions(L, Grid=True, Method="MWSS")
    want = ref.grid(L)
    assert np.allclose(th, want[0], atol=1e-12) and np.allclose(ph, want[1], atol=1e-12)
    return th, ph


def at_most(x, bound):
    """Membership, and whether it is free of rounding."""
    a = x <= bound
    return a, a == (np.rad2deg(x) <= np.rad2deg(bound))


def at_least(x, bound):
    a = x >= bound
    return a, a == (np.rad2deg(x) >= np.rad2deg(bound))


def compare(rec, got, want, sure, key, what):
    got = np.asarray(got)
    if not rec.expect(got.shape == want.shape, key + "/shape", lambda: f"{what}: shape {got.shape} instead of {want.shape}"):
        return
    rec.expect(np.isin(got, [0, 1]).all(), key + "/binary", f"{what}: values other than true and false")
    bad = (got.astype(bool) != want) & sure
    rec.expect(not bad.any(), key, lambda: f"{what}: {int(bad.sum())} points wrong, first at {tuple(map(int, np.argwhere(bad)[0]))}")
    rec.case(what if 0 < want.sum() < want.size else None)


def edges(points, top):
    """On every sampling angle, between them and just beside them."""
    pts = sorted({float(x) for x in points if x <= top})
    mid = [(a + b) / 2 for a, b in zip(pts, pts[1:])]
    near = [float(np.nextafter(x, 0)) for x in pts[1:]] + [float(np.nextafter(x, 9)) for x in pts if x < top]
    return sorted({*pts, *mid, *near, top})


def _caps(sc, rec):
    from sleplet._mask_methods import create_mask_region
    from sleplet.slepian import Region, SlepianPolarCap

    L = sc["L"]
    th, ph = samples(L)
    angles = {*edges(th[:, 0], PI), *(float(np.deg2rad(d)) for d in range(0, 180, 7))} - {PI}
    for t in sorted(angles):
        north, sure = at_most(th, t)
        got = create_mask_region(L, Region(theta_max=t))
        compare(rec, got, north, sure, "mask/polar", f"polar cap of {t!r} at L={L}")
        south = th >= np.pi - t
        agree = (south == (np.pi - th <= t)) & (south == (np.rad2deg(th) >= 180 - np.rad2deg(t)))
        got = create_mask_region(L, Region(theta_max=t, gap=True))
        compare(rec, got, north | south, sure & agree, "mask/gap", f"polar gap of {t!r} at L={L}")
    if L <= 4:
        for t in (0.3, 1.2, PI / 2):
            for gap in (False, True):
                s = SlepianPolarCap(L, t, gap=gap)
                rec.close(np.asarray(s.mask, int), np.asarray(create_mask_region(L, Region(theta_max=t, gap=gap)), int), 0, "mask/object", f"mask of SlepianPolarCap({L}, {t}, gap={gap})")


def _rectangles(sc, rec):
    from sleplet._mask_methods import create_mask_region
    from sleplet.slepian import Region, SlepianLimitLatLon

    L = sc["L"]
    th, ph = samples(L)
    tops = edges(th[:, 0], PI)
    around = [float(x) for x in ph[0]]
    phis = sorted({*around, *((a + b) / 2 for a, b in zip(around, around[1:])), 2 * PI})
    if L > 3:  # every sampling angle, and some between
        phis = sorted({*around, around[1] / 2, around[-1] + 0.01, 2 * PI})
    for t0 in [t for t in tops if round(t / PI * L) == sc["row"]]:
        for t1 in tops:
            if t1 < t0:
                continue
            a, sa = at_least(th, t0)
            b, sb = at_most(th, t1)
            for p0, p1 in itertools.combinations_with_replacement(phis, 2):
                kw = {"theta_min": t0, "theta_max": t1, "phi_min": p0, "phi_max": p1}
                if expected(kw) != "lim_lat_lon":
                    continue
                c, sc_ = at_least(ph, p0)
                d, sd = at_most(ph, p1)
                got = create_mask_region(L, Region(**kw))
                compare(rec, got, a & b & c & d, sa & sb & sc_ & sd, "mask/rectangle", f"rectangle {kw} at L={L}")
    if L == 3:
        kw = {"theta_min": 0.4, "theta_max": 2.2, "phi_min": 0.9, "phi_max": 4.0}
        rec.close(np.asarray(SlepianLimitLatLon(L, **kw).mask, int), np.asarray(create_mask_region(L, Region(**kw)), int), 0, "mask/object", "mask of SlepianLimitLatLon")


def _files(sc, rec):
    """Stored masks are handed out as they are, of the right shape only."""
    from sleplet._mask_methods import create_mask_region
    from sleplet.slepian import Region

    L = sc["L"]
    right = (L + 1, 2 * L)
    region = Region(mask_name="custom")
    f = vh.data_dir() / f"slepian_masks_custom_L{L}.npy"
    shapes = {right, (L, 2 * L), (L + 1, 2 * L - 1), (L + 2, 2 * L), (L + 1, 2 * L + 1), (2 * L, L + 1),
              (L + 1,), (2 * L,), (L + 1, 2 * L, 1), (1, L + 1, 2 * L), (2 * L + 1, 4 * L), (1, 2 * L), (L + 1, 1), ((L + 1) * 2 * L,)}
    for shape in sorted(shapes):
        n = int(np.prod(shape))
        for k in range(3):
            m = ((np.arange(n) * (k + 2)) % (k + 3) == 0).reshape(shape)
            np.save(f, m)
            if shape == right:
                got = np.asarray(create_mask_region(L, region))
                compare(rec, got, m, np.ones(shape, bool), "mask/stored", f"stored mask {k} at L={L}")
            else:
                got = outcome(lambda: create_mask_region(L, region))
                rec.expect(isinstance(got, Exception), "mask/wrong shape", lambda: f"a mask of shape {shape} was accepted at L={L}")
                rec.case()
    f.unlink()
    got = outcome(lambda: create_mask_region(L, region))
    rec.expect(isinstance(got, Exception), "mask/missing", "a mask that is nowhere was made up")
    # another resolution's file is not used instead
    np.save(vh.data_dir() / f"slepian_masks_custom_L{L + 1}.npy", np.ones((L + 2, 2 * L + 2), bool))
    got = outcome(lambda: create_mask_region(L, region))
    rec.expect(isinstance(got, Exception), "mask/missing", "the mask of another bandlimit was used")


# ------------------------------------------------------------- environment
KEYS = ["THETA_MIN", "THETA_MAX", "PHI_MIN", "PHI_MAX"]


def from_env(L=2):
    import sleplet

    return sleplet.functions.SlepianIdentity(L).region


def check_env(rec, env, what):
    L = 2
    saved = dict(os.environ)
    try:
        os.environ.update(env)
        got = outcome(from_env)
    finally:
        for k in ("POLAR_GAP", "SLEPIAN_MASK", *KEYS):
            os.environ.pop(k, None)
        os.environ.update(saved)
    try:
        kw = {k.lower(): float(np.deg2rad(int(env[k]))) for k in KEYS if k in env}
    except ValueError:
        rec.expect(isinstance(got, ValueError), "env/not a number", lambda: f"{what}: gave {got!r}")
        return rec.case()
    kw["mask_name"] = env.get("SLEPIAN_MASK", "south_america")
    kw["gap"] = env.get("POLAR_GAP", "").lower() == "true"
    want = expected(kw)
    if want in REFUSED or (want == "arbitrary" and kw["mask_name"] == "nowhere"):
        rec.expect(isinstance(got, Exception), "env/refused", lambda: f"{what}: gave {got!r}, expected to be refused ({want})")
        return rec.case()
    if want == "polar" and kw.get("theta_max") == 0 and isinstance(got, ValueError):
        return rec.case()  # the region exists, but has no Slepian functions
    if not rec.expect(not isinstance(got, Exception), "env/error", lambda: f"{what}: {got!r}, expected {want}"):
        return None
    rec.expect(got._region_type == want, "env/type", lambda: f"{what}: {got._region_type} instead of {want}")
    default = {"theta_min": 0.0, "theta_max": PI, "phi_min": 0.0, "phi_max": 2 * PI}
    for k, v in {**default, **kw}.items():
        rec.expect(getattr(got, k) == v or (isinstance(v, float) and abs(getattr(got, k) - v) < 1e-12), "env/value",
                   lambda k=k, v=v: f"{what}: {k} is {getattr(got, k)} instead of {v}")
    rec.case(str(env))


def _env(sc, rec):
    funcs.provide(2)
    base = {k: v for k, v in (("POLAR_GAP", sc["gap"]), ("SLEPIAN_MASK", sc["mask"])) if v is not None}
    values = {
        "THETA_MIN": [None, "0", "30", "91", "-1"],
        "THETA_MAX": [None, "180", "90", "181"],
        "PHI_MIN": [None, "0", "20", "301", "361"],
        "PHI_MAX": [None, "360", "300", "north"],
    }
    for combo in itertools.product(*values.values()):
        env = {**base, **{k: v for k, v in zip(KEYS, combo) if v is not None}}
        odd = sum(v in ("-1", "181", "361", "north") for v in combo)
        if odd > 1 or (sc["mask"] in ("stripe", "") and combo[2:] != (None, None)):
            continue  # at most one value is wrong at a time
        check_env(rec, env, f"environment {env}")


def _degrees(sc, rec):
    """Every whole degree of the polar cap."""
    funcs.provide(2)
    for d in range(-3, 184):
        check_env(rec, {"THETA_MAX": str(d)}, f"THETA_MAX={d}")
    for d in (-1, 0, 90, 180, 181):
        check_env(rec, {"THETA_MIN": str(d), "THETA_MAX": "170"}, f"THETA_MIN={d}")
    # no state of an earlier environment is left
    check_env(rec, {}, "empty environment")
