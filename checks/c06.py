"""Polar caps: every bandlimit x angle x gap x order of the bounded space is
constructed by the real code and compared with an independent Gram matrix."""

import numpy as np

import ref
import vh

ID = "C06"
LEVEL = "exploration"
RULE = (
    "exhaustive product of bandlimits, cap angles, gap settings and requested "
    "orders; each full construction is a distinct non-trivial case when at "
    "least one eigenvalue lies strictly between 1e-6 and 1 - 1e-6"
)
DEG = [0.4, 5, 17.5, 30, 40, 45, 60, 72.25, 89, 90, 91, 120, 150, 179]
ASSUMPTIONS = [
    "double precision; the reference Gram matrix uses Gauss-Legendre quadrature exact for the bandlimit",
    "a polar gap is explored up to 90 degrees, where its caps do not overlap",
]
TIMEOUT = 600


def BOUNDS(tier):
    return {
        "L": sorted({s["L"] for s in scenarios(tier)}),
        "theta_max_degrees": sorted({s["deg"] for s in scenarios(tier)}),
        "orders": "all for L <= 8, {-(L-1), -1, 0, 1, L-1} above",
    }


def scenarios(tier):
    small = [1, 2, 3, 4, 5, 6, 7, 8] if tier == "quick" else list(range(1, 13))
    big = [(12, [25]), (16, [40]), (17, [15])]
    if tier == "thorough":
        big = [(14, DEG), (15, [40]), (16, DEG), (17, DEG), (20, [10, 33, 75]), (24, [8, 40]), (32, [12])]
    for L in small:
        for deg in DEG:
            for gap in (False, True):
                if not (gap and deg > 90):
                    yield {"L": L, "deg": deg, "gap": gap, "cost": L**3}
    for L, degs in big:
        for deg in degs:
            for gap in (False, True):
                if not (gap and deg > 90):
                    yield {"L": L, "deg": deg, "gap": gap, "cost": L**3}
    # single orders of large bandlimits
    for L, orders in ((24, (0, 5, -11)), (32, (0, -10, 31)), (48, (0, -30))) + (() if tier == "quick" else ((48, (1, 7, 20)), (64, (0, -45)))):
        for m in orders:
            for deg, gap in ((40, False), (12.3, True)):
                yield {"L": L, "deg": deg, "gap": gap, "single": m, "cost": L**4 // 10}


def _single(sc, rec):
    """One order of a large bandlimit."""
    from scipy.special import sph_harm_y

    from sleplet.slepian import SlepianPolarCap

    L, gap, m = sc["L"], sc["gap"], sc["single"]
    theta = float(np.deg2rad(sc["deg"]))
    s = SlepianPolarCap(L, theta, gap=gap, order=m)
    ev, V = np.array(s.eigenvalues), np.array(s.eigenvectors)
    ells = np.arange(abs(m), L)
    where = ells * ells + ells + m
    K = np.zeros((len(ells), len(ells)))
    x, w = np.polynomial.legendre.leggauss(2 * L + 48)
    for lo, hi in ((0, theta), (np.pi - theta, np.pi)) if gap else ((0, theta),):
        th = (hi - lo) / 2 * x + (hi + lo) / 2
        A = np.array([sph_harm_y(ell, abs(m), th, 0.0).real for ell in ells])
        K += (A * (w * (hi - lo) / 2 * np.sin(th) * 2 * np.pi)) @ A.T
    key = f"{'gap' if gap else 'cap'}/large"
    tol = 1e-8 if L < 64 else 1e-6
    rec.case((L, sc["deg"], gap, m))
    if not rec.expect(V.shape == (len(ells), L * L) and len(ev) == len(ells), key + "/count", f"L={L} order {m}: {V.shape}, {len(ev)}"):
        return
    ref.check_concentration(rec, key, ev, V[:, where], K, tol)
    off = np.delete(V, where, axis=1)
    rec.close(np.abs(off).max(initial=0), 0, 1e-12, key + "/order", f"L={L} weight in other orders than {m}")
    rec.close(ev.sum(), np.trace(K), tol * L, key + "/sum", f"L={L} order {m}: sum of eigenvalues")
    frac = (1 - np.cos(theta)) / 2 * (2 if gap else 1)
    rec.expect(ref.shannon_ok(s.N, frac * L * L), key + "/shannon", f"L={L}: N={s.N}")
    rec.sample = sc


def run(sc, rec):
    if "single" in sc:
        _single(sc, rec)
        return
    from sleplet.slepian import SlepianPolarCap

    L, gap = sc["L"], sc["gap"]
    theta = float(np.deg2rad(sc["deg"]))
    tag = "gap" if gap else "cap"
    K = ref.region_gram(L, 0, theta, 0, 2 * np.pi)
    frac = (1 - np.cos(theta)) / 2
    if gap:
        K = K + ref.region_gram(L, np.pi - theta, np.pi, 0, 2 * np.pi)
        frac *= 2
    s = SlepianPolarCap(L, theta, gap=gap)
    ev, V = np.array(s.eigenvalues), np.array(s.eigenvectors)
    tol = 1e-8
    rec.expect(len(V) == L * L, f"{tag}/full", f"{len(V)} of {L * L} eigenfunctions")
    ref.check_concentration(rec, tag, ev, V, K, tol, L * L)
    rec.close(ev.sum(), frac * L * L, tol * L * L, f"{tag}/area", "sum of eigenvalues")
    rec.expect(ref.shannon_ok(s.N, frac * L * L), f"{tag}/shannon", f"N={s.N}, area gives {frac * L * L}")
    inner = ((ev > 1e-6) & (ev < 1 - 1e-6)).any()
    rec.case((L, sc["deg"], gap) if inner else None)
    # the reported order is the order of every harmonic present
    orders = np.array(s.order)
    m = np.array([mm for _, mm in ref.lm(L)])
    if rec.expect(orders.shape == (len(V),), f"{tag}/orders", f"orders of shape {orders.shape}"):
        off = np.where(m[None, :] != orders[:, None], V, 0)
        rec.close(np.abs(off).max(), 0, 1e-12, f"{tag}/order", "weight in other orders")
        for mm in range(-(L - 1), L):
            rec.expect((orders == mm).sum() == L - abs(mm), f"{tag}/order_count", f"order {mm} occurs {(orders == mm).sum()} times")
    wanted = range(-(L - 1), L) if L <= 8 else {-(L - 1), -1, 0, 1, L - 1}
    for mm in wanted:
        for when in ("saved", "fresh"):
            if when == "fresh":
                vh.clear_data()
            o = SlepianPolarCap(L, theta, gap=gap, order=mm)
            evm, Vm = np.array(o.eigenvalues), np.array(o.eigenvectors)
            key = f"{tag}/single_{when}"
            rec.case()
            rec.expect(ref.shannon_ok(o.N, frac * L * L), key + "/shannon", f"N={o.N}")
            if not rec.expect(len(Vm) == len(evm) == L - abs(mm), key + "/count", f"order {mm}: {len(Vm)} functions, {len(evm)} eigenvalues"):
                continue
            ref.check_concentration(rec, key, evm, Vm, K, tol)
            rec.close(np.abs(Vm[:, m != mm]).max(initial=0), 0, 1e-12, key + "/order", f"order {mm}")
            rec.close(evm, np.sort(ev[orders == mm])[::-1], tol, key + "/subset", f"eigenvalues of order {mm} among all")
        # recreate the saved set for the next order
        if L <= 8:
            SlepianPolarCap(L, theta, gap=gap)
    rec.sample = {"L": L, "deg": sc["deg"], "gap": gap, "N": int(s.N), "largest_eigenvalues": ev[:3].tolist()}
