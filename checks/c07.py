"""Latitude-longitude rectangles: exhaustive product of bandlimits and edges."""

import itertools

import numpy as np

import ref
import vh

ID = "C07"
LEVEL = "exploration"
RULE = (
    "exhaustive product of bandlimits and rectangle edges (all pairs min < max "
    "of the edge grids); non-trivial when an eigenvalue lies strictly between "
    "1e-6 and 1 - 1e-6"
)
TH = [0, 30, 45.5, 90, 120, 180]
PH = [0, 20, 90, 200.25, 360]
ASSUMPTIONS = [
    "double precision; reference Gram matrix from Gauss-Legendre quadrature in colatitude and exact integration in longitude",
]
TIMEOUT = 800


def BOUNDS(tier):
    return {"L": sorted({s["L"] for s in scenarios(tier)}), "theta_degrees": TH, "phi_degrees": PH}


def _rects(th, ph):
    for (a, b), (c, d) in itertools.product(
        itertools.combinations(th, 2), itertools.combinations(ph, 2)
    ):
        if (a, b, c, d) != (0, 180, 0, 360):
            yield [a, b, c, d]


def scenarios(tier):
    full = [1, 2, 3, 4, 5, 6] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8]
    few = [7, 9, 12, 16] if tier == "quick" else [9, 10, 12, 14, 16, 17]
    group = 15
    for L in full:
        rects = list(_rects(TH, PH))
        for i in range(0, len(rects), group):
            yield {"L": L, "rects": rects[i : i + group], "cost": L**4 * group}
    for L in few:
        for r in ([10, 33.3, 0, 77], [60, 180, 100, 350], [0, 40, 0, 360], [50, 130, 0, 360], [140, 180, 0, 360]):
            yield {"L": L, "rects": [r], "cost": L**4}
    for L in (20, 32) if tier == "quick" else (20, 24, 32, 48):
        yield {"L": L, "rects": [[23, 97.5, 17, 166]], "cost": L**4}


def run(sc, rec):
    from sleplet.slepian import SlepianLimitLatLon, SlepianPolarCap

    L = sc["L"]
    default = {"theta_min": 0, "theta_max": 180, "phi_min": 0, "phi_max": 360}
    for rect in sc["rects"]:
        vh.clear_data()
        t1, t2, p1, p2 = (float(np.deg2rad(x)) for x in rect)
        kw = {
            k: float(np.deg2rad(v))
            for (k, d), v in zip(default.items(), rect)
            if v != d
        }
        K = ref.region_gram(L, t1, t2, p1, p2)
        x = L * L * (p2 - p1) * (np.cos(t1) - np.cos(t2)) / (4 * np.pi)
        s = SlepianLimitLatLon(L, **kw)
        ev, V = np.array(s.eigenvalues), np.array(s.eigenvectors)
        tag = f"latlon"
        rec.expect(len(V) == L * L, f"{tag}/full", f"{len(V)} eigenfunctions of {L * L}")
        ref.check_concentration(rec, tag, ev, V, K, 1e-8, L * L)
        rec.close(ev.sum(), x, 1e-8 * L * L, f"{tag}/area", f"sum of eigenvalues {rect}")
        rec.expect(ref.shannon_ok(s.N, x), f"{tag}/shannon", f"N={s.N} for {x}, {rect}")
        inner = ((ev > 1e-6) & (ev < 1 - 1e-6)).any()
        rec.case((L, *rect) if inner else None)
        # the same object again, now from what has been saved
        again = SlepianLimitLatLon(L, **kw)
        n = s.N
        ref.check_concentration(rec, f"{tag}/saved", np.array(again.eigenvalues)[:n], np.array(again.eigenvectors)[:n], K, 1e-8)
        if rect[0] == 0 and rect[2:] == [0, 360]:
            vh.clear_data()
            polar = SlepianPolarCap(L, t2)
            rec.close(np.array(polar.eigenvalues), ev, 1e-8, f"{tag}/polar", "eigenvalues of the equal polar cap")
    rec.sample = {"L": L, "rect_degrees": rect, "N": int(s.N), "largest_eigenvalues": ev[:3].tolist()}
