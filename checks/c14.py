"""Denoising: every threshold class.  For each signal the thresholds explored
are one inside every interval between consecutive sample magnitudes, i.e. every
distinguishable threshold.  Purity: every public array function is called on
every kind of input and the input compared afterwards."""

import numpy as np

import datafiles
import meshref
import ref
import slep
import vh

ID = "C14"
LEVEL = "exploration"
RULE = (
    "every signal x every distinguishable threshold (one between each pair of "
    "consecutive sample magnitudes, zero, and above all) x number of sigmas x "
    "scalar or per-sample sigma; non-trivial are thresholds that zero some but "
    "not all samples"
)
ASSUMPTIONS = ["samples whose magnitude equals the threshold up to rounding are not explored"]
TIMEOUT = 850


def BOUNDS(tier):
    return {"L": [2, 3, 4, 5] if tier == "quick" else [2, 3, 4, 5, 6]}


def scenarios(tier):
    Ls = BOUNDS(tier)["L"]
    for L in Ls:
        for sig in range(3):
            yield {"part": "harmonic", "L": L, "signal": sig, "cost": L**4}
        for name in slep.REGIONS if L <= 4 else ("polar100", "box", "blob"):
            yield {"part": "slepian", "L": L, "region": name, "cost": L**5}
    for name in meshref.NAMES:
        for n in (6, 15) if tier == "quick" else (6, 15, 30):
            yield {"part": "mesh", "mesh": name, "n": n, "cost": 200}
    for L in Ls:
        yield {"part": "purity", "L": L, "cost": 30}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def thresholds(mags, limit=60):
    """One representative of every distinguishable threshold."""
    u = np.unique(np.round(np.concatenate([np.ravel(m) for m in mags]), 9))
    mids = (u[1:] + u[:-1]) / 2
    mids = mids[np.diff(u) > 1e-7]
    if len(mids) > limit:
        mids = mids[np.linspace(0, len(mids) - 1, limit).astype(int)]
    return [0.0, *mids.tolist(), float(u[-1] * 1.5 + 1)]


def cut(f, t):
    return np.where(np.abs(f) < t, 0, f)


def _harmonic(sc, rec):
    import pyssht as ssht

    from sleplet.noise import harmonic_hard_thresholding

    L = sc["L"]
    n = L * L
    if sc["signal"] == 0:
        w = np.array([slep.dense(n, k) for k in range(3)])
    elif sc["signal"] == 1:
        w = np.array([np.zeros(n), np.eye(n)[n - 1], slep.dense(n), np.zeros(n)], dtype=complex)
    else:
        w = np.array([slep.dense(n, 7)])
    fields = [ref.synth(x, L) for x in w]
    J = len(w) - 1
    for t in thresholds([np.abs(f) for f in fields[1:]] or [np.ones(1)]):
        for n_sigma in (1, 1.5, 3):
            # the threshold concerns one scale at a time
            for j in range(J) if J else [None]:
                sigma = np.full(J, 1e-9)
                if j is not None:
                    sigma[j] = t / n_sigma
                w0, s0 = w.copy(), sigma.copy()
                got = np.array(harmonic_hard_thresholding(L, w, sigma, n_sigma))
                want = w.copy()
                for k in range(J):
                    g = cut(fields[k + 1], n_sigma * sigma[k])
                    want[k + 1] = ssht.forward(np.ascontiguousarray(g.astype(complex)), L, Method="MWSS")
                at = f"{sc} threshold {t} scale {j} n_sigma {n_sigma}"
                rec.close(got, want, 1e-8, "harmonic", at)
                rec.expect(np.array_equal(w, w0) and np.array_equal(sigma, s0), "harmonic/input", f"{at}: input changed")
                if t == 0:
                    rec.close(got, w, 1e-8, "harmonic/zero_threshold", at)
                zeroed = j is not None and 0 < (np.abs(fields[j + 1]) < t).sum() < fields[j + 1].size
                rec.case(at if zeroed else None)
    for u in (1e-14, 1e-5, 1e9) if J else ():
        for t in thresholds([np.abs(f) for f in fields[1:]], 8):
            got = np.array(harmonic_hard_thresholding(L, w * u, np.full(J, t * u / 2), 2)) / u
            want = w.copy()
            for k in range(J):
                want[k + 1] = ssht.forward(np.ascontiguousarray(cut(fields[k + 1], t).astype(complex)), L, Method="MWSS")
            rec.close(got, want, 1e-8, "harmonic/scale", f"{sc} threshold {t}, everything times {u}")
            rec.case((L, sc["signal"], t, u))
    if J:
        got = np.array(harmonic_hard_thresholding(L, w, np.full(J, 1e9), 3))
        rec.close(got[1:], np.zeros_like(got[1:]), 1e-9, "harmonic/large_threshold", f"{sc}")
        rec.close(got[0], w[0], 0, "harmonic/scaling", f"{sc}")


def _slepian(sc, rec):
    from sleplet.noise import (
        slepian_function_hard_thresholding,
        slepian_wavelet_hard_thresholding,
    )

    L = sc["L"]
    s = slep.build(sc["region"], L)
    N = int(s.N)
    if not N:
        rec.case()
        return
    S = np.tensordot(np.array(s.eigenvectors)[:N], ref.ylm(L, *ref.grid(L)), axes=1)
    wt = ref.weight(L)

    def result(f):
        return np.array([(wt * f * S[p].conj()).sum() for p in range(N)])

    w = np.array([slep.dense(N, k) for k in range(3)] + [np.zeros(N)])
    fields = [np.tensordot(x, S, axes=1) for x in w]
    variation = 1 + 0.3 * np.sin(np.arange(wt.size)).reshape(wt.shape)
    for t in thresholds([np.abs(f) for f in fields], 24):
        for n_sigma in (1, 2.5):
            at = f"{sc} threshold {t} n_sigma {n_sigma}"
            for j in range(len(w)):
                sigma = np.full(len(w), 1e-9)
                sigma[j] = t / n_sigma
                per_sample = np.full((len(w), *wt.shape), 1e-9)
                per_sample[j] = t / n_sigma * variation
                for kind, sg in (("scalar", sigma), ("sample", per_sample)):
                    w0, sg0 = w.copy(), sg.copy()
                    got = np.array(slepian_wavelet_hard_thresholding(L, w, sg, n_sigma, s))
                    want = np.array([result(cut(f, n_sigma * sg[k])) for k, f in enumerate(fields)])
                    rec.close(got, want, 1e-8, f"slepian/wavelets_{kind}", f"{at} scale {j}")
                    rec.expect(np.array_equal(w, w0) and np.array_equal(sg, sg0), "slepian/input", f"{at}: input changed")
                    zeroed = 0 < (np.abs(fields[j]) < n_sigma * sg[j]).sum() < wt.size
                    rec.case(f"{at} {kind} {j}" if zeroed else None)
            for k in range(3):
                c = np.concatenate([w[k], slep.dense(L * L - N, 4)])
                for coefficients in (w[k], c):
                    c0 = coefficients.copy()
                    got = np.array(slepian_function_hard_thresholding(L, coefficients, t / n_sigma, n_sigma, s))
                    rec.close(got, result(cut(fields[k], t)), 1e-8, "slepian/function", at)
                    rec.expect(np.array_equal(coefficients, c0), "slepian/input", f"{at}: input changed")
                    rec.case()
    # coefficients held as real numbers are not different
    r = [np.tensordot(x.real, S, axes=1) for x in w]
    for t in thresholds([np.abs(f) for f in r], 12):
        want = np.array([result(cut(f, t)) for f in r])
        at = f"{sc} threshold {t}, real coefficients"
        x = np.ascontiguousarray(w.real)
        got = np.array(slepian_wavelet_hard_thresholding(L, x, np.full(len(w), t / 2), 2, s))
        rec.close(got, want, 1e-8, "slepian/real", at)
        got = np.array(slepian_function_hard_thresholding(L, x[1], t / 2, 2, s))
        rec.close(got, want[1], 1e-8, "slepian/real", at)
        rec.expect(np.array_equal(x, w.real), "slepian/input", f"{at}: input changed")
        rec.case(at)
    for u in (1e-14, 1e-5, 1e9):
        for t in thresholds([np.abs(f) for f in fields], 8):
            want = np.array([result(cut(f, t)) for f in fields])
            at = f"{sc} threshold {t}, everything times {u}"
            got = np.array(slepian_wavelet_hard_thresholding(L, w * u, np.full(len(w), t * u / 2), 2, s)) / u
            rec.close(got, want, 1e-8, "slepian/scale", at)
            got = np.array(slepian_function_hard_thresholding(L, w[0] * u, t * u / 2, 2, s)) / u
            rec.close(got, want[0], 1e-8, "slepian/scale", at)
            rec.case(at)
    got = np.array(slepian_wavelet_hard_thresholding(L, w, np.full(len(w), 1e9), 1, s))
    rec.close(got, np.zeros_like(got), 1e-9, "slepian/large_threshold", f"{sc}")


def _mesh(sc, rec):
    from sleplet.meshes import Mesh, MeshSlepian
    from sleplet.noise import slepian_mesh_hard_thresholding

    mesh = Mesh(sc["mesh"], number_basis_functions=sc["n"])
    s = MeshSlepian(mesh)
    N = int(s.N)
    if not N:
        rec.case()
        return
    S = np.array(s.slepian_functions)[:N] @ np.array(mesh.basis_functions)
    w = np.array([slep.dense(N, k).real for k in range(3)] + [np.zeros(N)])
    fields = w @ S
    variation = 1 + 0.3 * np.sin(np.arange(S.shape[1]))
    for t in thresholds([np.abs(fields)], 20):
        for n_sigma in (1, 1.5):
            for j in range(len(w)):
                sigma = np.full(len(w), 1e-12)
                sigma[j] = t / n_sigma
                per_sample = np.full((len(w), S.shape[1]), 1e-12)
                per_sample[j] = t / n_sigma * variation
                for kind, sg in (("scalar", sigma), ("sample", per_sample)):
                    w0, sg0 = w.copy(), sg.copy()
                    got = np.array(slepian_mesh_hard_thresholding(s, w, sg, n_sigma))
                    want = np.array([S @ cut(f, n_sigma * sg[k]) for k, f in enumerate(fields)])
                    at = f"{sc} threshold {t} n_sigma {n_sigma} scale {j} {kind}"
                    rec.close(got, want, 1e-7, "mesh", at)
                    rec.expect(np.array_equal(w, w0) and np.array_equal(sg, sg0), "mesh/input", f"{at}: input changed")
                    if t == 0:
                        rec.close(got, w, 1e-7, "mesh/zero_threshold", at)
                    zeroed = 0 < (np.abs(fields[j]) < n_sigma * sg[j]).sum() < S.shape[1]
                    rec.case(at if zeroed else None)
    for u in (1e-14, 1e-5, 1e9):
        for t in thresholds([np.abs(fields)], 8):
            want = np.array([S @ cut(f, t) for f in fields])
            got = np.array(slepian_mesh_hard_thresholding(s, w * u, np.full(len(w), t * u / 2), 2)) / u
            rec.close(got, want, 1e-7, "mesh/scale", f"{sc} threshold {t}, everything times {u}")
            rec.case((sc["mesh"], sc["n"], t, u))
    got = np.array(slepian_mesh_hard_thresholding(s, w, np.full(len(w), 1e9), 1))
    rec.close(got, np.zeros_like(got), 1e-9, "mesh/large_threshold", f"{sc}")


def _purity(sc, rec):
    """No array function changes an array it was given, nor an object."""
    from sleplet import functions as F
    from sleplet import harmonic_methods as H
    from sleplet import meshes as M
    from sleplet import noise as NO
    from sleplet import plotting as P
    from sleplet import slepian_methods as S
    from sleplet import wavelet_methods as W

    L = sc["L"]
    n = L * L
    s = slep.build("polar100", L)
    mesh = M.Mesh("bird", number_basis_functions=8)
    ms = M.MeshSlepian(mesh)
    aw = F.AxisymmetricWavelets(L, B=2, j_min=0).wavelets
    k = W.create_kappas(n, 2, 0)
    flm, f_p = slep.dense(n), slep.dense(n, 3)
    f = slep.dense((L + 1) * 2 * L).reshape(L + 1, 2 * L)
    u, u_i = slep.dense(mesh.vertices.shape[0]).real, slep.dense(8).real
    w = np.array([slep.dense(n, i) for i in range(len(aw))])
    wp = np.array([slep.dense(s.N, i) for i in range(len(k))])
    mw = np.array([slep.dense(ms.N, i).real for i in range(3)])
    mk = W.create_kappas(8, 2, 0)
    g = F.Gaussian(L)
    sd = F.SlepianDiracDelta(L, region=slep.region("polar100"))
    calls = {
        "invert_flm_boosted": lambda a: H.invert_flm_boosted(a["flm"], L, 2 * L),
        "rotate_earth_to_africa": lambda a: H.rotate_earth_to_africa(a["flm"], L),
        "rotate_earth_to_south_america": lambda a: H.rotate_earth_to_south_america(a["flm"], L),
        "mesh_forward": lambda a: H.mesh_forward(mesh, a["u"]),
        "mesh_inverse": lambda a: H.mesh_inverse(mesh, a["u_i"]),
        "slepian_forward_flm": lambda a: S.slepian_forward(L, s, flm=a["flm"]),
        "slepian_forward_f": lambda a: S.slepian_forward(L, s, f=a["f"]),
        "slepian_forward_mask": lambda a: S.slepian_forward(L, s, f=a["f"], mask=s.mask),
        "slepian_inverse": lambda a: S.slepian_inverse(a["f_p"], L, s),
        "slepian_mesh_forward": lambda a: S.slepian_mesh_forward(ms, u=a["u"]),
        "slepian_mesh_forward_mask": lambda a: S.slepian_mesh_forward(ms, u=a["u"], mask=True),
        "slepian_mesh_forward_u_i": lambda a: S.slepian_mesh_forward(ms, u_i=a["u_i"]),
        "slepian_mesh_inverse": lambda a: S.slepian_mesh_inverse(ms, a["u_i"]),
        "axisymmetric_wavelet_forward": lambda a: W.axisymmetric_wavelet_forward(L, a["flm"], a["aw"]),
        "axisymmetric_wavelet_inverse": lambda a: W.axisymmetric_wavelet_inverse(L, a["w"], a["aw"]),
        "slepian_wavelet_forward": lambda a: W.slepian_wavelet_forward(a["f_p"], a["k"], s.N),
        "slepian_wavelet_inverse": lambda a: W.slepian_wavelet_inverse(a["wp"], a["k"], s.N),
        "find_non_zero": lambda a: W.find_non_zero_wavelet_coefficients(a["w"], axis=1),
        "compute_snr": lambda a: NO.compute_snr(a["flm"], a["f_p"], "x"),
        "compute_sigma_noise": lambda a: NO.compute_sigma_noise(a["flm"], 3),
        "harmonic_hard_thresholding": lambda a: NO.harmonic_hard_thresholding(L, a["w"], a["sigma"], 2),
        "slepian_wavelet_hard_thresholding": lambda a: NO.slepian_wavelet_hard_thresholding(L, a["wp"], a["sigma"], 2, s),
        "slepian_function_hard_thresholding": lambda a: NO.slepian_function_hard_thresholding(L, a["f_p"], 0.4, 2, s),
        "slepian_mesh_hard_thresholding": lambda a: NO.slepian_mesh_hard_thresholding(ms, a["mw"], a["sigma"], 2),
        "compute_slepian_mesh_sigma_j": lambda a: NO.compute_slepian_mesh_sigma_j(ms, a["u_i"], a["mk"], 3),
        "convolve": lambda a: g.convolve(a["flm"], a["f_p"]),
        "convolve_shannon": lambda a: g.convolve(a["flm"], a["f_p"], shannon=2),
        "rotate": lambda a: g.rotate(0.4, 0.3, gamma=0.2),
        "translate": lambda a: g.translate(0.4, 0.3),
        "translate_slepian": lambda a: sd.translate(0.4, 0.3, shannon=s.N),
        "PlotSphere": lambda a: P.PlotSphere(a["f"], L, "x").execute(),
        "PlotSphere_upsample": lambda a: P.PlotSphere(a["f"], L, "x", normalise=False, plot_type="abs").execute(),
        "PlotMesh": lambda a: P.PlotMesh(mesh, "x", a["u"]).execute(),
        "PlotMesh_region": lambda a: P.PlotMesh(mesh, "x", a["u"], region=True, normalise=False).execute(),
    }
    for name, call in calls.items():
        args = {
            "flm": flm, "f_p": f_p, "f": f, "u": u, "u_i": u_i, "aw": np.array(aw), "k": np.array(k),
            "w": w, "wp": wp, "mw": mw, "mk": np.array(mk), "sigma": np.full(len(k), 0.4),
        }
        args = {a: np.array(v, copy=True) for a, v in args.items()}
        objects = {
            "slepian.eigenvectors": s.eigenvectors, "slepian.eigenvalues": s.eigenvalues, "slepian.mask": s.mask,
            "mesh.basis_functions": mesh.basis_functions, "mesh.region": mesh.mesh_region, "mesh.vertices": mesh.vertices,
            "mesh.faces": mesh.faces, "mesh_slepian.functions": ms.slepian_functions,
            "gaussian": g.coefficients, "slepian_dirac_delta": sd.coefficients,
        }
        before = {a: v.copy() for a, v in args.items()}
        before_o = {a: np.array(v, copy=True) for a, v in objects.items()}
        first = call(args)
        for a, v in before.items():
            rec.expect(np.array_equal(v, args[a]), f"purity/{name}", f"{name} changed {a}")
        for a, v in before_o.items():
            rec.expect(np.array_equal(v, objects[a]), f"purity/{name}", f"{name} changed {a}")
        second = call(args)
        if first is not None:
            rec.close(np.array(second), np.array(first), 0, f"purity/{name}", "repeating the call")
        rec.case((name, L))
    vh.SHOWN.take()
