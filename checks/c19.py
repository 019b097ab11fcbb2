"""Plots: every option combination on a complete set of small fields; the
figure handed to plotly is compared with one computed from the definition."""

import itertools

import numpy as np

import funcs
import meshref
import ref
import slep
import vh

ID = "C19"
LEVEL = "exploration"
RULE = (
    "every plot type x normalisation x upsampling x region kind x amplitude x "
    "field (every spherical harmonic, zero, constant, tiny, negative, dense, "
    "every built-in function) x bandlimit; every mesh x option; non-trivial are "
    "figures of fields that are neither zero nor constant"
)
ASSUMPTIONS = [
    "a normalised plot of a part of the field that vanishes up to rounding is only checked to lie in [0, 1]",
    "the transforms of spin fields are those of ssht",
]
TYPES = ("real", "imag", "abs", "sum")
UNSEEN = -1.56e30
MESH_UNSEEN = -1e5
REGIONS = [None, "polar40", "polar100", "gap35", "gap70", "box", "belt", "wedge", "south", "blob", "stripe"]
TIMEOUT = 850


def BOUNDS(tier):
    return {"L": Ls(tier), "types": TYPES, "regions": REGIONS}


def Ls(tier):
    return [1, 2, 3, 4] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8]


def scenarios(tier):
    for L in Ls(tier):
        for kind in ("basis", "special"):
            yield {"part": "sphere", "L": L, "kind": kind, "cost": 40 * L * L}
        for r in REGIONS[1:]:
            yield {"part": "marked", "L": L, "region": r, "cost": 20}
        yield {"part": "spin", "L": L, "cost": 40 * L}
        yield {"part": "refused", "L": L}
    for L in (2, 3) if tier == "quick" else (2, 3, 4, 5):
        yield {"part": "functions", "L": L, "cost": 60 * L**3}
        for r in ("polar40", "gap35", "box", "blob"):
            yield {"part": "slepian", "L": L, "region": r, "cost": 20 * L**4}
    for L in (7, 8, 9, 15, 16, 17, 31, 32) if tier == "quick" else (
            9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255):
        yield {"part": "boundary", "L": L, "cost": 30 * L}
    yield {"part": "table", "top": 1100 if tier == "quick" else 5000}
    for mesh in meshref.NAMES:
        for zoom in (False, True):
            yield {"part": "mesh", "mesh": mesh, "zoom": zoom, "cost": 300}
        yield {"part": "mesh_functions", "mesh": mesh, "cost": 500}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def table(L):
    """The documented resolution of plots."""
    for limit, factor in ((2, 64), (4, 32), (8, 16), (128, 8), (512, 4), (1024, 2)):
        if limit > L:
            return factor * L
    return L


def part_of(field, kind):
    return {"real": field.real, "imag": field.imag, "abs": np.abs(field), "sum": field.real + field.imag}[kind]


def closed(a):
    return np.concatenate([a, a[:, :1]], axis=1)


def sphere_points(res):
    th, ph = map(closed, ref.grid(res))
    return np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), np.cos(th)


def region_mask(name, res):
    """Points inside, and points too close to an edge to tell."""
    th, ph = ref.grid(res)
    if name in ("blob", "stripe"):
        return slep.mask_of(name, res), np.zeros(th.shape, bool)
    kw = slep.kwargs(name)
    t1, t2 = kw.get("theta_min", 0.0), kw.get("theta_max", np.pi)
    p1, p2 = kw.get("phi_min", 0.0), kw.get("phi_max", 2 * np.pi)
    e = 1e-9

    def inside(m):
        if kw.get("gap"):
            return (th <= t2 + m) | (th >= np.pi - t2 - m)
        return (th >= t1 - m) & (th <= t2 + m) & (ph >= p1 - m) & (ph <= p2 + m)

    return inside(e), inside(e) & ~inside(-e)


def colours(rec, trace, f, normalise, amplitude, top, what):
    """Colour range and bar."""
    cb = trace.colorbar
    if normalise:
        want = (0, 0.5, 1)
        rec.expect((trace.cmin, trace.cmid, trace.cmax) == want, "colours/normalised",
                   lambda: f"{what}: colour range {(trace.cmin, trace.cmid, trace.cmax)}")
    else:
        tick = amplitude if amplitude is not None else top
        rec.close([trace.cmin, trace.cmid, trace.cmax], [-tick, 0, tick], 1e-9 * abs(tick), "colours/range", f"{what}: colour range")
        rec.close([cb.tick0, cb.dtick], [-tick, tick], 1e-9 * abs(tick), "colours/ticks", f"{what}: ticks of the colour bar")


def prepared(rec, got, raw, normalise, what, mask=None, scale=None):
    """Compare plotted values with the field, scaled onto [0, 1] if asked."""
    scale = np.abs(raw).max() if scale is None else scale
    keep = np.ones(raw.shape, bool) if mask is None else mask
    if not normalise:
        rec.close(got[keep], raw[keep], 1e-10 * scale, "values", what)
        return scale > 0 and np.ptp(raw) > 1e-9 * scale
    if scale == 0:
        rec.close(got[keep], np.full(raw.shape, 0.5)[keep], 0, "values/zero", what)
        return False
    if np.ptp(raw) <= 1e-9 * scale:
        rec.expect(((got[keep] >= 0) & (got[keep] <= 1 + 1e-4)).all(), "values/range", f"{what}: outside [0, 1]")
        if np.abs(raw).min() > 1e-3 * scale:
            rec.close(got[keep], np.ones(raw.shape)[keep], 1e-4, "values/constant", what)
        return False
    if np.ptp(raw) > 1e-4 * scale:
        rec.close(got[keep], ((raw - raw.min()) / np.ptp(raw))[keep], 1e-9 * scale / np.ptp(raw), "values/normalised", what)
        return True
    return False


def show_sphere(rec, f, L, raw, what, key=None, masked=None, scale=None, **kw):
    """Execute twice and compare with the expected plotted field raw[type]."""
    from sleplet.plotting import PlotSphere

    up = kw.get("upsample", True)
    res = table(L) if up else L
    before = f.copy()
    p = PlotSphere(f, L, "name", **kw)
    vh.SHOWN.take()
    p.execute()
    p.execute()
    figs = vh.SHOWN.take()
    if not rec.expect(len(figs) == 2, "shown", f"{what}: {len(figs)} figures"):
        return
    (fig, name), (fig2, name2) = figs
    rec.expect(np.array_equal(f, before), "input", f"{what}: the field was modified")
    normalise, plot_type = kw.get("normalise", True), kw.get("plot_type", "real")
    want = "name" + (f"_res{res}" if up else "") + f"_{plot_type}" + ("_norm" if normalise else "")
    rec.expect(name == want == name2, "filename", lambda: f"{what}: file name {name}, {name2} instead of {want}")
    trace = fig.data[0]
    got = np.asarray(trace.surfacecolor)
    if not rec.expect(got.shape == (res + 1, 2 * res + 1), "shape", f"{what}: plotted shape {got.shape} for resolution {res}"):
        return
    rec.expect(np.array_equal(got, np.asarray(fig2.data[0].surfacecolor)) and fig.data[0].cmax == fig2.data[0].cmax,
               "repeat", f"{what}: the second figure differs")
    for c, w, n in zip((trace.x, trace.y, trace.z), sphere_points(res), "xyz"):
        rec.close(c, w, 1e-12, "points", f"{what}: {n} coordinates")
    full = closed(raw)
    inside = None
    if masked is not None:
        ok, edge = map(closed, region_mask(masked, res))
        hidden = got == UNSEEN
        rec.expect((hidden == ~ok)[~edge].all(), "region",
                   lambda: f"{what}: {int((hidden != ~ok)[~edge].sum())} points wrongly marked")
        inside = ok & ~edge
    nontrivial = prepared(rec, got, full, normalise, what, inside, scale)
    colours(rec, trace, full, normalise, kw.get("amplitude"), np.abs(raw).max(), what)
    rec.case(key if nontrivial else None)
    return fig


def options(types=TYPES, ups=(True, False), norms=(True, False)):
    for t, u, n in itertools.product(types, ups, norms):
        yield {"plot_type": t, "upsample": u, "normalise": n}


def combos(L):
    """Coefficients of a complete set of fields."""
    for ell, m in ref.lm(L):
        c = np.zeros(L * L, complex)
        c[ref.ind(ell, m)] = 1.3 - 0.7j
        yield f"Y_{ell},{m}", c


def _sphere(sc, rec):
    L = sc["L"]
    th, ph = ref.grid(L)
    Y, big = ref.ylm(L, th, ph), ref.ylm(L, *ref.grid(table(L)))
    if sc["kind"] == "basis":
        fields = [(n, c, False) for n, c in combos(L)]
        fields.append(("dense", slep.dense(L * L), False))
    else:
        one = np.zeros(L * L, complex)
        one[0] = np.sqrt(4 * np.pi)
        r = slep.dense(L * L)
        real = np.array([(r[ref.ind(ell, m)] if m >= 0 else (-1) ** m * np.conj(r[ref.ind(ell, -m)])) for ell, m in ref.lm(L)])
        real = np.array([x.real if m == 0 else x for x, (_, m) in zip(real, ref.lm(L))]).astype(complex)
        fields = []
        for flag in (False, True):
            fields += [
                ("zero", 0 * one, flag), ("one", one, flag), ("minus two", -2 * one, flag),
                ("tiny constant", 1e-200 * one, flag), ("tiny", 1e-13 * real, flag), ("huge", 1e200 * real, flag),
                ("real", real, flag), ("negative", real - 50 * one, flag), ("positive", real + 50 * one, flag),
                ("offset", real * 1e-3 + 5 * one, flag),
            ]
    for name, c, reality in fields:
        f = np.tensordot(c, Y, axes=1)
        fine = np.tensordot(c, big, axes=1)
        if reality:
            f, fine = f.real.copy(), fine.real
        for o in options():
            raw = part_of(fine if o["upsample"] else f, o["plot_type"])
            scale = np.abs(fine).max()
            if o["plot_type"] == "imag" and name not in ("dense",) and sc["kind"] != "basis":
                # a real field has no imaginary part, up to rounding
                if reality or not o["upsample"]:
                    raw = np.zeros(raw.shape)
                elif o["normalise"]:
                    rec.case()
                    continue
            if o["normalise"] and 0 < np.abs(raw).max() < 1e-9 * scale:
                rec.case()
                continue
            if reality and o["plot_type"] == "imag":
                scale = 0
            for amplitude in (None, 3.5):
                if not o["normalise"] or amplitude is None:
                    kw = dict(o, amplitude=amplitude, reality=reality)
                    if not o["normalise"] and np.abs(raw).max() < 1e-9 * scale and amplitude is None:
                        continue  # limits of rounding noise
                    show_sphere(rec, f, L, raw, f"L={L} {name} {kw}", key=(L, name, str(kw)), scale=scale, **kw)


def _marked(sc, rec):
    L, r = sc["L"], sc["region"]
    slep.provide_masks(L)
    for n in ("blob", "stripe"):
        np.save(vh.data_dir() / f"slepian_masks_{n}_L{table(L)}.npy", slep.mask_of(n, table(L)))
    region = slep.region(r)
    c = slep.dense(L * L)
    f, fine = ref.synth(c, L), ref.synth(c, L, table(L))
    for o in options(TYPES if L == 2 else ("real", "abs")):
        raw = part_of(fine if o["upsample"] else f, o["plot_type"])
        for amplitude in (None, 0.25):
            kw = dict(o, amplitude=amplitude)
            show_sphere(rec, f, L, raw, f"L={L} {r} {kw}", key=(L, r, str(kw)), masked=r, scale=np.abs(fine).max(), region=region, **kw)


def _spin(sc, rec):
    import pyssht as ssht

    L = sc["L"]
    for spin in (-2, -1, 1, 2):
        for k in range(2):
            c = slep.dense(L * L, k)
            c[: min(spin * spin, L * L)] = 0  # no harmonics below the spin
            if not c.any():
                continue
            f = ssht.inverse(c, L, Method="MWSS", Spin=spin)
            res = table(L)
            fine = ssht.inverse(np.concatenate([c, np.zeros(res * res - L * L)]), res, Method="MWSS", Spin=spin)
            for o in options():
                raw = part_of(fine if o["upsample"] else f, o["plot_type"])
                show_sphere(rec, f, L, raw, f"L={L} spin {spin} {o}", key=(L, spin, k, str(o)), spin=spin, scale=np.abs(fine).max(), **o)
    # annotations reach the figure
    c = slep.dense(L * L)
    f = ref.synth(c, L)
    notes = [{"x": 0.1, "y": 0.2, "z": 0.3, "ax": 4, "arrowcolor": "gold"}, {"x": -1.0, "y": 0.0, "z": 0.5, "text": "here"}]
    for n in range(3):
        fig = show_sphere(rec, f, L, f.real, f"L={L} with {n} annotations", annotations=notes[:n], upsample=False)
        got = fig.layout.scene.annotations if fig else ()
        rec.expect(len(got) == n and all(a[k] == v for a, w in zip(got, notes) for k, v in w.items()), "annotations",
                   lambda: f"annotations {got}")


def _refused(sc, rec):
    from sleplet.plotting import PlotSphere

    L = sc["L"]
    for up in (False,):
        for dr, dc in ((1, 0), (0, 1), (-1, 0), (0, -1), (1, 2)):
            shape = (L + 1 + dr, 2 * L + dc)
            f = np.ones(shape)
            vh.SHOWN.take()
            try:
                PlotSphere(f, L, "x", upsample=up).execute()
                raised = False
            except Exception:  # noqa: BLE001
                raised = True
            rec.expect(raised and not vh.SHOWN.take(), "size", f"L={L} upsample={up}: a field of shape {shape} was plotted")
            rec.case()
    for bad in ("phase", "", "Real", "imaginary"):
        vh.SHOWN.take()
        try:
            PlotSphere(ref.synth(slep.dense(L * L), L), L, "x", plot_type=bad, upsample=False).execute()
            raised = False
        except Exception:  # noqa: BLE001
            raised = True
        rec.expect(raised and not vh.SHOWN.take(), "type", f"plot type {bad!r} was plotted")
        rec.case()


def amplitudes(rec, function, fine, coarse, what):
    import sleplet

    for t in TYPES:
        for up in (True, False):
            want = np.abs(part_of(fine if up else coarse, t)).max()
            got = sleplet.plot_methods.find_max_amplitude(function, plot_type=t, upsample=up)
            rec.close(got, want, 1e-9 * max(np.abs(fine).max(), 1e-300), "amplitude", f"{what}: maximum amplitude of {t}, upsample={up}")


def _functions(sc, rec):
    import pyssht as ssht

    L = sc["L"]
    funcs.provide(L)
    res = table(L)
    Y, big = ref.ylm(L, *ref.grid(L)), ref.ylm(L, *ref.grid(res))
    for name, kw in funcs.harmonic(L):
        f = funcs.make(name, L, **kw)
        c = f.coefficients
        if f.spin:
            coarse = ssht.inverse(c, L, Method="MWSS", Spin=f.spin)
            fine = ssht.inverse(np.concatenate([c, np.zeros(res * res - L * L)]), res, Method="MWSS", Spin=f.spin)
        else:
            coarse, fine = np.tensordot(c, Y, axes=1), np.tensordot(c, big, axes=1)
        if f.reality:
            coarse, fine = coarse.real.copy(), fine.real
        what = f"L={L} {funcs.label(name, kw)}"
        scale = np.abs(fine).max()
        amplitudes(rec, f, fine, coarse, what)
        for t, n in itertools.product(TYPES, (True, False)):
            raw = part_of(fine, t)
            if np.abs(raw).max() < 1e-9 * scale or np.ptp(raw) < 1e-9 * scale:
                rec.case()
                continue
            show_sphere(rec, coarse, L, raw, f"{what} {t} {n}", key=(what, t, n), scale=scale,
                        plot_type=t, normalise=n, reality=f.reality, spin=f.spin)
        noisy(rec, f, L, name, kw, Y, what)


def noisy(rec, f, L, name, kw, Y, what, **more):
    import sleplet

    amp = sleplet.plot_methods.compute_amplitude_for_noisy_sphere_plots
    rec.expect(amp(f) is None, "noisy/none", f"{what}: amplitude {amp(f)} without noise")
    if name in ("NoiseEarth",) or f.spin or not f.coefficients.any():
        return
    g = funcs.make(name, L, noise=3.0, **kw, **more)
    if Y is not None:
        clean = np.abs(np.tensordot(f.coefficients, Y, axes=1)).max()
        rec.close(amp(g), clean, 1e-9 * clean, "noisy/amplitude", f"{what}: amplitude of the unnoised field")


def _slepian(sc, rec):
    import sleplet

    L, r = sc["L"], sc["region"]
    res = table(L)
    funcs.provide(L)
    for n in ("blob", "stripe"):
        np.save(vh.data_dir() / f"slepian_masks_{n}_L{res}.npy", slep.mask_of(n, res))
    region = slep.region(r)
    Y, big = ref.ylm(L, *ref.grid(L)), ref.ylm(L, *ref.grid(res))
    n = int(slep.build(r, L).N)
    for name, kw in funcs.slepian(L, min(2, n)):
        f = funcs.make(name, L, region=region, **kw)
        s = f.slepian
        N = int(s.N)
        if N == 0:
            continue
        # field of the coefficients up to the Shannon number, from the basis
        flm = f.coefficients[:N] @ s.eigenvectors[:N]
        coarse, fine = np.tensordot(flm, Y, axes=1), np.tensordot(flm, big, axes=1)
        if f.reality:
            coarse, fine = coarse.real.copy(), fine.real
        what = f"L={L} {r} {funcs.label(name, kw)}"
        scale = np.abs(fine).max()
        if scale < 1e-8:  # beyond the Shannon number
            rec.case()
            continue
        amplitudes(rec, f, fine, coarse, what)
        for t, n in itertools.product(("real", "abs"), (True, False)):
            raw = part_of(fine, t)
            if np.abs(raw).max() < 1e-6 * scale or np.ptp(raw) < 1e-6 * scale:
                continue
            show_sphere(rec, coarse, L, raw, f"{what} {t} {n}", key=(what, t, n), scale=scale, masked=r,
                        plot_type=t, normalise=n, reality=f.reality, region=region)
        amp = sleplet.plot_methods.compute_amplitude_for_noisy_sphere_plots
        rec.expect(amp(f) is None, "noisy/none", f"{what}: amplitude without noise")
        g = funcs.make(name, L, region=region, noise=3.0, **kw)
        clean = np.abs(np.tensordot(flm, Y, axes=1)).max()
        rec.close(amp(g), clean, 1e-9 * clean, "noisy/amplitude", f"{what}: amplitude of the unnoised field")


def _boundary(sc, rec):
    """Both sides of every step of the resolution table, few harmonics."""
    from scipy.special import sph_harm_y

    L = sc["L"]
    terms = [(0, 0, 0.8), (1, 1, 1.0 + 0.4j), (L - 1, 0, 0.6j), (L - 1, L - 1, 1 - 1j), (L - 1, 1 - L, 0.5)]
    res = table(L)

    def field(n):
        th, ph = ref.grid(n)
        return sum(v * sph_harm_y(ell, abs(m), th[:, :1], 0.0).real * (-1) ** (m if m < 0 else 0) * np.exp(1j * m * ph) for ell, m, v in terms)

    f, fine = field(L), field(res)
    for o in ({"normalise": True}, {"normalise": False}, {"normalise": False, "plot_type": "sum"}, {"upsample": False}):
        raw = part_of(fine if o.get("upsample", True) else f, o.get("plot_type", "real"))
        show_sphere(rec, f, L, raw, f"L={L} {o}", key=(L, str(o)), scale=np.abs(fine).max(), **o)


def _table(sc, rec):
    import sleplet

    for L in range(1, sc["top"]):
        got = sleplet.plot_methods.calc_plot_resolution(L)
        rec.expect(got == table(L), "table", f"resolution of L={L} is {got} instead of {table(L)}")
        rec.case((L,))


# ------------------------------------------------------------------- meshes
def show_mesh(rec, mesh, name, f, what, key, **kw):
    from sleplet.plotting import PlotMesh

    v, faces = mesh.vertices, mesh.faces
    before = f.copy()
    p = PlotMesh(mesh, "name", f, **kw)
    vh.SHOWN.take()
    p.execute()
    p.execute()
    figs = vh.SHOWN.take()
    if not rec.expect(len(figs) == 2, "shown", f"{what}: {len(figs)} figures"):
        return None
    (fig, file), (fig2, file2) = figs
    rec.expect(np.array_equal(f, before), "input", f"{what}: the field was modified")
    normalise = kw.get("normalise", True)
    want = "name" + ("_norm" if normalise else "")
    rec.expect(file == want == file2, "filename", lambda: f"{what}: file name {file}, {file2} instead of {want}")
    t = fig.data[0]
    got = np.asarray(t.intensity)
    rec.expect(np.array_equal(got, np.asarray(fig2.data[0].intensity)), "repeat", f"{what}: the second figure differs")
    rec.expect(t.intensitymode == "cell", "mesh/mode", f"{what}: values are for {t.intensitymode}")
    for a, b in ((t.x, v[:, 0]), (t.y, v[:, 2]), (t.z, v[:, 1])):
        rec.close(a, b, 1e-12, "mesh/vertices", f"{what}: coordinates")
    for a, b in zip((t.i, t.j, t.k), faces.T):
        rec.expect(np.array_equal(a, b), "mesh/faces", f"{what}: faces")
    average = f[faces].mean(axis=1)
    inside = None
    if kw.get("region"):
        inside = meshref.region(name, v)[faces].all(axis=1)
        rec.expect(((got == MESH_UNSEEN) == ~inside).all(), "mesh/region",
                   lambda: f"{what}: {int(((got == MESH_UNSEEN) != ~inside).sum())} faces wrongly marked")
    nontrivial = prepared(rec, got, average, normalise, what, inside)
    colours(rec, t, average, normalise, kw.get("amplitude"), np.abs(f).max(), what)
    rec.case(key if nontrivial else None)
    return fig


def _mesh(sc, rec):
    import plotly.graph_objects as go
    import sleplet

    name = sc["mesh"]
    mesh = sleplet.meshes.Mesh(name, number_basis_functions=4, zoom=sc["zoom"])
    v, faces = mesh.vertices, mesh.faces
    n = len(v)
    d = slep.dense(n).real
    fields = {"dense": d, "negative": d - 9, "positive": d + 9, "zero": np.zeros(n), "one": np.ones(n), "minus": np.full(n, -3.0),
              "tiny": 1e-13 * d, "x": v[:, 0].copy(), "z": v[:, 2].copy(), "big": 1e6 * d, "index": np.arange(n, dtype=float)}
    for fname, f in fields.items():
        for normalise, region, amplitude in itertools.product((True, False), (True, False), (None, 2.5)):
            kw = {"normalise": normalise, "region": region, "amplitude": amplitude}
            fig = show_mesh(rec, mesh, name, f, f"{name} {fname} {kw}", (name, fname, str(kw), sc["zoom"]), **kw)
    # single vertices: inside, on the boundary of and outside the region
    r = meshref.region(name, v)
    mixed = faces[r[faces].any(axis=1) & ~r[faces].all(axis=1)]
    picks = {int(np.argmax(r)), int(np.argmin(r)), *map(int, mixed[:3].ravel()), n - 1, 0}
    for k in sorted(picks):
        f = np.zeros(n)
        f[k] = 1.7
        for region in (True, False):
            show_mesh(rec, mesh, name, f, f"{name} vertex {k} region={region}", (name, k, region), normalise=False, region=region)
    c = meshref.config(name)
    cam = fig.layout.scene.camera
    zoom = c["REGION_ZOOM"] if sc["zoom"] else c["DEFAULT_ZOOM"]
    rec.close([cam.eye.x, cam.eye.y, cam.eye.z], np.array([c["CAMERA_X"], c["CAMERA_Y"], c["CAMERA_Z"]]) / zoom, 1e-12, "mesh/camera", f"{name}: camera")
    centre = [c["CENTRE_X"], c["CENTRE_Y"], c["CENTRE_Z"]] if sc["zoom"] else [0, 0, 0]
    rec.close([cam.center.x or 0, cam.center.y or 0, cam.center.z or 0], centre, 1e-12, "mesh/camera", f"{name}: centre of the view")
    from sleplet.plotting import PlotMesh

    for colour in ("ice", "haline"):
        vh.SHOWN.take()
        PlotMesh(mesh, "name", d).execute(colour=colour)
        got = vh.SHOWN.take()[0][0].data[0].colorscale
        rec.expect(got == go.Mesh3d(colorscale=colour).colorscale, "mesh/colour", f"{name}: colour scale is not {colour}")


def _mesh_functions(sc, rec):
    import sleplet

    name = sc["mesh"]
    mesh = sleplet.meshes.Mesh(name, number_basis_functions=8)
    M = sleplet.meshes
    amp = sleplet.plot_methods.compute_amplitude_for_noisy_mesh_plots
    V, kinds = mesh.basis_functions, []
    for k in range(8):
        kinds.append((f"basis {k}", lambda k=k, **o: M.MeshBasisFunctions(mesh, rank=k, **o)))
    kinds += [("field", lambda **o: M.MeshField(mesh, **o)), ("noise field", lambda **o: M.MeshNoiseField(mesh, **o))]
    ms = M.MeshSlepian(mesh)
    N = int(ms.N)
    if N:
        kinds += [("slepian field", lambda **o: M.MeshSlepianField(mesh, **o)), ("slepian", lambda **o: M.MeshSlepianFunctions(mesh, **o)),
                  ("wavelets", lambda **o: M.MeshSlepianWavelets(mesh, **o))]
    for kind, make in kinds:
        f = make()
        sl = hasattr(f, "mesh_slepian")
        # field from the eigenfunctions of the mesh
        c = f.coefficients
        field = V[: len(c)].T @ c if not sl else V.T @ (ms.slepian_functions[:N].T @ c[:N])
        if not np.abs(field).max() > 1e-9:
            continue
        what = f"{name} {kind}"
        for normalise in (True, False):
            show_mesh(rec, mesh, name, field, what, (what, normalise), normalise=normalise, region=sl)
        if "noise" in kind:
            continue
        rec.expect(amp(f) is None, "noisy/none", f"{what}: amplitude without noise")
        g = make(noise=2.0)
        if np.abs(field).max() > 1e-9:
            rec.close(amp(g), np.abs(field).max(), 1e-9 * np.abs(field).max(), "noisy/amplitude", f"{what}: amplitude of the unnoised field")
