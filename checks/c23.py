"""Histories within one process: what was done before never changes what an
operation gives.  Every operation is run after every other one (and again after
the caller has overwritten all it received), each compared with the same
operation in a new process; a digest of all module-level state of sleplet says
which process states there are and whether longer histories could add any."""

import contextlib
import fractions
import gc
import hashlib
import io
import os
import pickle
import random
import re
import signal
import sys
import threading
import types

import numpy as np
import scipy.sparse.linalg

import c20
import datafiles
import funcs
import slep
import vh

ID = "C23"
LEVEL = "model_checking"
RULE = (
    "a tree of histories: transitions are the operations of the alphabet, run on "
    "the real code in forked processes, states are the processes reached. After "
    "every operation A every operation B, then (all results overwritten) B and A "
    "again; process_states counts the distinct contents of everything sleplet keeps "
    "at module level (globals, class attributes, defaults, closures, caches), from "
    "each of which all operations were run when there are just two (before and "
    "after the list of published files is read)"
)
ASSUMPTIONS = [
    "eigensolutions are in the data directory already (C01 explores the other case)",
    "state inside compiled extensions and third-party packages is seen through results only",
]
TIMEOUT = 850
KEYS_AS = "process_states"
WORKERS = 8


# ------------------------------------------------------------------ alphabet
def alphabet():
    P = lambda L, deg, *a: ["region", "polar", L, deg, *a]
    ops = [
        P(4, 60.2), P(4, 60.4), P(4, 60.2, True), P(3, 60.2), P(4, 60.2, False, 1), P(4, 60.2, False, -1), P(4, 60.2, True, 1),
        ["region", "rect", 4, 30, 100, 40, 200], ["region", "rect", 4, 30.4, 100, 40, 200], ["region", "rect", 4, 30, 100, 40.4, 200.4],
        ["region", "rect", 3, 30, 100, 40, 200], ["region", "rect", 4, 0, 60.2, 0, 360],
        ["region", "mask", 3, "blob"], ["region", "mask", 3, "blob2"], ["region", "mask", 2, "blob"], ["region", "mask", 3, "africa"],
        ["mesh", "homer", 5], ["mesh", "homer", 6], ["mesh", "homer", 7], ["mesh", "cheetah", 5], ["mesh", "homer", 5, True],
    ]
    f = lambda name, L=4, region=None, angles=None, **kw: ops.append(["function", name, L, region, kw, *([list(angles)] if angles else [])])
    for kw in ({}, {"sigma": 0.1}, {"noise": 5.0}, {"noise": 10.0}, {"region": ["polar", 40]}, {"region": ["polar", 40.3]}, {"smoothing": 2}):
        kw = dict(kw)
        f("Gaussian", 4, kw.pop("region", None), **kw)
    f("Gaussian", 3)
    f("HarmonicGaussian", l_sigma=1.0, m_sigma=10.0)
    f("HarmonicGaussian", l_sigma=10.0, m_sigma=1.0)
    f("SquashedGaussian", t_sigma=0.1, freq=1.0)
    f("SquashedGaussian", t_sigma=0.7, freq=1.0)
    f("SquashedGaussian", t_sigma=0.7, freq=0.5)
    f("ElongatedGaussian", t_sigma=1.0, p_sigma=0.1)
    f("ElongatedGaussian", t_sigma=0.7, p_sigma=2.0)
    for ell, m in ((1, 0), (1, 1), (1, -1), (2, 1)):
        f("SphericalHarmonic", ell=ell, m=m)
    f("DiracDelta")
    f("DiracDelta", 5)
    f("Identity")
    for B, j_min, j in ((3, 0, None), (3, 0, 0), (3, 0, 1), (3, 1, 0), (2, 0, 0), (2, 1, 0)):
        f("AxisymmetricWavelets", B=B, j_min=j_min, j=j)
    for spin, j in ((0, 1), (2, 1), (2, 2), (1, 1)):
        f("Ridgelets", B=2, j_min=0, spin=spin, j=j)
    f("Earth")
    f("Earth", 5)
    f("Earth", smoothing=2)
    f("Earth", smoothing=3)
    f("Earth", noise=5.0)
    f("Wmap")
    f("Africa")
    f("SouthAmerica")
    f("NoiseEarth", SNR=5.0)
    f("NoiseEarth", SNR=10.0)
    for where in ("Africa", "Earth", "SouthAmerica"):
        f(f"AxisymmetricWaveletCoefficients{where}", B=2, j_min=0, j=1)
    f("AxisymmetricWaveletCoefficientsEarth", B=2, j_min=0, j=0)
    f("AxisymmetricWaveletCoefficientsEarth", B=3, j_min=0, j=1)
    r1, r2, r3, r4 = ["polar", 60.2], ["polar", 60.4], ["mask", "blob"], ["mask", "blob2"]
    for r in (r1, r2, ["polar", 60.2, True]):
        f("Slepian", 4, r, rank=0)
        f("SlepianIdentity", 4, r)
        f("SlepianDiracDelta", 4, r)
        f("SlepianWavelets", 4, r, B=2, j_min=0, j=0)
    for r in (r3, r4):
        f("Slepian", 3, r, rank=0)
        f("SlepianDiracDelta", 3, r)
    f("Slepian", 4, r1, rank=1)
    f("SlepianWavelets", 4, r1, B=3, j_min=0, j=0)
    f("SlepianWavelets", 4, r1, B=2, j_min=0, j=1)
    f("SlepianIdentity", 4, r1, noise=5.0)
    for name in ("Africa", "SouthAmerica"):
        r = ["mask", {"Africa": "africa", "SouthAmerica": "south_america"}[name]]
        f(f"Slepian{name}", 3, r)
        f(f"SlepianNoise{name}", 3, r, SNR=5.0)
        f(f"SlepianWaveletCoefficients{name}", 3, r, B=2, j_min=0, j=0)
    f("SlepianNoiseAfrica", 3, ["mask", "africa"], SNR=10.0)
    f("SlepianAfrica", 3, ["mask", "africa"], noise=5.0)
    f("SlepianAfrica", 3, ["mask", "africa"], smoothing=2)
    for angles in ((0.5, 0.6, 0.7), (0.5, 1.6, 0.7), (1.5, 0.6, 0.7), (0.5, 0.6, 1.7), (0.6, 0.5, 0.7), (0.504, 0.604, 0.7)):
        f("HarmonicGaussian", angles=angles)
        f("SlepianIdentity", 4, r1, angles=angles)
    f("HarmonicGaussian", 3, angles=(0.5, 1.6, 0.7))
    m = lambda name, mesh=("homer", 6), region=False, noise=None, **kw: ops.append(["meshfunction", name, list(mesh), region, noise, kw])
    for r in (1, 2):
        m("BasisFunctions", rank=r)
    for b in (5, 6, 7):
        m("Field", ("homer", b))
    m("Field", ("cheetah", 6))
    m("Field", region=True)
    m("Field", noise=5.0)
    m("NoiseField", SNR=5.0)
    m("NoiseField", SNR=10.0)
    for b in (24, 25):
        m("SlepianField", ("homer", b))
        m("SlepianFunctions", ("homer", b), rank=0)
        m("SlepianNoiseField", ("homer", b), SNR=5.0)
        m("SlepianWavelets", ("homer", b), B=2, j_min=0, j=0)
        m("SlepianWaveletCoefficients", ("homer", b), B=2, j_min=0, j=0)
    m("SlepianField", ("homer", 24), noise=5.0)
    m("SlepianWavelets", ("homer", 24), B=3, j_min=0, j=0)
    for xlim, B, j_min in ((9, 2, 0), (9, 2, 1), (9, 3, 0), (16, 2, 0)):
        ops.append(["wavelets", xlim, B, j_min])
    for x in ("real", "imag", "abs", "sum"):
        ops.append(["plot", 4, {"plot_type": x}])
    for kw in ({"normalise": False}, {"upsample": False}, {"spin": 1}, {"region": ["polar", 60]}, {"region": ["polar", 60.4]}, {"region": ["polar", 120]}, {"amplitude": 2.0}, {"notes": True}):
        ops.append(["plot", 4, kw])
    ops.append(["plot", 3, {}])
    for kw in ({}, {"normalise": False}, {"region": True}, {"amplitude": 2.0}):
        ops.append(["plotmesh", ["homer", 5], kw])
    ops.append(["plotmesh", ["cheetah", 5], {}])
    c = lambda line, tool="sphere", **env: ops.append(["cli", tool, line.split(), env])
    c("earth -L 3")
    c("earth -L 3 -p africa")
    c("earth -L 3 -m rotate -a 0.4 -g 1.2")
    c("gaussian -L 3 -m translate -a 0.4")
    c("gaussian -L 3 -m translate -a 0.4 -o")
    c("gaussian -L 3 -c earth")
    c("gaussian -L 3 -r", THETA_MAX="40")
    c("gaussian -L 3 -r", THETA_MAX="40", POLAR_GAP="True")
    c("gaussian -L 3 -r", SLEPIAN_MASK="africa")
    c("gaussian -L 3 -r")
    c("slepian -L 3 -e 0", THETA_MAX="40")
    c("slepian -L 3 -e 1", THETA_MAX="60")
    c("slepian -L 3 -e 0", THETA_MIN="30", THETA_MAX="100")
    c("slepian_africa -L 3", SLEPIAN_MASK="africa")
    c("dirac_delta -L 4")
    c("nosuch -L 4")
    c("cheetah -m slepian_functions -e 0", "mesh")
    c("cheetah -m field -n 5", "mesh")
    c("cheetah -m field -r -u", "mesh")
    return ops


def group(op):
    """Operations that are likelier to be mistaken for each other."""
    if op[0] == "region" or op[0] == "function" and op[1].startswith("Slepian"):
        return "slepian"
    return {"mesh": "mesh", "meshfunction": "mesh"}.get(op[0], op[0])


def BOUNDS(tier):
    return {"operations": len(alphabet()), "depth": "all pairs within kinds, with overwritten results and repetition; the other kinds one after another" if tier == "quick" else "all pairs, with overwritten results and repetition; all triples within kinds"}


# ------------------------------------------------------------------ running
def reg(spec):
    from sleplet.slepian import Region

    if spec is None:
        return None
    if spec[0] == "polar":
        return Region(theta_max=float(np.deg2rad(spec[1])), gap=len(spec) > 2 and spec[2])
    return Region(mask_name=spec[1])


def arrays(x, out, name):
    """Flatten what a user can see into name -> value."""
    if isinstance(x, dict):
        for k, v in x.items():
            arrays(v, out, f"{name}.{k}")
    elif isinstance(x, (list, tuple)):
        for k, v in enumerate(x):
            arrays(v, out, f"{name}[{k}]")
    else:
        out[name] = x


def attempt(fn):
    try:
        return fn()
    except Exception as e:  # noqa: BLE001
        return f"raised {type(e).__name__}"


def figures(figs):
    out = {"count": len(figs)}
    for k, (fig, name) in enumerate(figs):
        t = fig.data[0]
        get = lambda key: getattr(t, key, None) if key in t else None
        out[f"{k}"] = {
            "name": name,
            "values": [np.asarray(get(key), dtype=float) for key in ("x", "y", "z", "surfacecolor", "intensity") if get(key) is not None],
            "range": [get("cmin"), get("cmid"), get("cmax")],
            "layout": repr(fig.layout.to_plotly_json()),
            "colorbar": repr(t.colorbar.to_plotly_json()),
        }
    return out


def call(tool, argv):
    figs, end = c20.call(tool, argv)
    return figures(figs) | {"end": "" if end is None else type(end).__name__ + str(getattr(end, "code", ""))}


def perform(op):
    """Run an operation; the live results, as a user gets them."""
    try:
        return _perform(op)
    except Exception as e:  # noqa: BLE001
        return {"raised": type(e).__name__ + ": " + str(e)}


def _perform(op):
    import sleplet
    from sleplet import meshes, slepian, slepian_methods as sm

    kind, *a = op
    if kind == "region":
        what, L, *b = a
        if what == "polar":
            s = slepian.SlepianPolarCap(L, float(np.deg2rad(b[0])), **dict(zip(("gap", "order"), b[1:])))
        elif what == "rect":
            t = [float(x) for x in np.deg2rad(b)]
            s = slepian.SlepianLimitLatLon(L, theta_min=t[0], theta_max=t[1], phi_min=t[2], phi_max=t[3])
        else:
            s = slepian.SlepianArbitrary(L, b[0])
        n = min(int(s.N), len(s.eigenvectors))
        d = slep.dense(L * L)
        out = {"N": s.N, "name": s.name, "ev": s.eigenvalues, "V": s.eigenvectors, "mask": s.mask, "region": repr(s.region)}
        if len(s.eigenvectors) == L * L:
            out["s_p"] = sm.compute_s_p_omega(L, s)
            out["inverse"] = sm.slepian_inverse(slep.dense(n, 1), L, s)
            out["field"] = sm.slepian_forward(L, s, f=out["inverse"].copy())
            t = sm.choose_slepian_method(L, s.region)
            out["chosen"] = [type(t).__name__, t.name, t.N, t.eigenvalues, t.mask]
        out["forward"] = sm.slepian_forward(L, s, flm=d, n_coeffs=n)
        if what != "mask":
            out["masked"] = sm.slepian_forward(L, s, f=d[: L + 1, None] + np.arange(2 * L), mask=s.mask, n_coeffs=n)
        return out
    if kind == "mesh":
        name, b, *z = a
        m = meshes.Mesh(name, number_basis_functions=b, zoom=bool(z))
        s = meshes.MeshSlepian(m)
        u = slep.dense(b).real
        return {
            "mesh": [m.vertices, m.faces, m.mesh_eigenvalues, m.basis_functions, m.mesh_region, m.number_basis_functions, repr(getattr(m, "_camera_view", None))],
            "slepian": [s.N, s.slepian_eigenvalues, s.slepian_functions],
            "inverse": sleplet.harmonic_methods.mesh_inverse(m, u),
            "forward": sleplet.harmonic_methods.mesh_forward(m, np.cos(np.arange(len(m.vertices)))),
            "sp": [sm.slepian_mesh_inverse(s, u), sm.slepian_mesh_forward(s, u_i=u), sm.slepian_mesh_forward(s, u=np.sin(np.arange(len(m.vertices))), mask=True)],
        }
    if kind == "function":
        name, L, r, kw = a[:4]
        al, be, ga = a[4] if len(a) > 4 else (0.5, 0.6, 0.7)
        f = funcs.make(name, L, region=reg(r), **kw)
        out = {"name": f.name, "coefficients": f.coefficients, "reality": f.reality, "spin": f.spin}
        out["unnoised"] = getattr(f, "_unnoised_coefficients", None)
        shannon = {"shannon": int(f.slepian.N)} if name.startswith("Slepian") else {}
        out["translate"] = attempt(lambda: f.translate(al, be, **shannon))
        out["rotate"] = attempt(lambda: f.rotate(al, be, gamma=ga))
        out["convolve"] = attempt(lambda: f.convolve(f.coefficients, np.array(f.coefficients) * 1j, **shannon))
        out["amplitude"] = attempt(lambda: sleplet.plot_methods.find_max_amplitude(f))
        out["noise_amplitude"] = attempt(lambda: sleplet.plot_methods.compute_amplitude_for_noisy_sphere_plots(f))
        out["wavelets"] = getattr(f, "wavelets", None)
        return out
    if kind == "meshfunction":
        name, (mesh, b), region, noise, kw = a
        f = getattr(meshes, "Mesh" + name)(meshes.Mesh(mesh, number_basis_functions=b), noise=noise, region=region, **kw)
        return {"name": f.name, "coefficients": f.coefficients, "amplitude": attempt(lambda: sleplet.plot_methods.compute_amplitude_for_noisy_mesh_plots(f)), "wavelets": getattr(f, "wavelets", None)}
    if kind == "wavelets":
        from sleplet import noise, wavelet_methods as w

        k = w.create_kappas(*a)
        x = slep.dense(a[0], 4)
        c = w.slepian_wavelet_forward(x, k, a[0])
        out = {"kappas": k, "forward": c, "inverse": w.slepian_wavelet_inverse(c, k, a[0]), "nonzero": w.find_non_zero_wavelet_coefficients(c, axis=1)}
        if a[0] == 9:
            y = np.zeros((len(k), 9), dtype=complex)
            y[:, [0, 2, 6]] = k[:, :3]
            d = w.axisymmetric_wavelet_forward(3, x, y)
            out |= {"axi": d, "axi_inverse": w.axisymmetric_wavelet_inverse(3, d, y)}
            out["hard"] = noise.harmonic_hard_thresholding(3, d.copy(), np.full(len(d), 0.2), 3)
        out["power"] = [noise.compute_sigma_noise(x, 5), noise.compute_sigma_noise(x, 10, denominator=7), noise.compute_snr(x, 0.1 * x + 1, "Harmonic")]
        return out
    if kind == "plot":
        from sleplet.plotting import PlotSphere

        L, kw = a
        kw = dict(kw)
        if "region" in kw:
            kw["region"] = reg(kw["region"])
        if kw.pop("notes", False):
            kw["annotations"] = [{"x": 0.1, "y": 0.2, "z": 0.3, "text": "x"}]
        import ref

        field = ref.synth(slep.dense(L * L), L)
        vh.SHOWN.take()
        p = PlotSphere(field, L, "file", **kw)
        p.execute()
        p.execute()  # shows the same again
        return figures(vh.SHOWN.take()) | {"given": field}
    if kind == "plotmesh":
        from sleplet.plotting import PlotMesh

        (name, b), kw = a
        m = meshes.Mesh(name, number_basis_functions=b)
        vh.SHOWN.take()
        PlotMesh(m, "file", m.basis_functions[2] * 3.7, **kw).execute()
        return figures(vh.SHOWN.take())
    tool, argv, env = a
    with c20.environment(env):
        before = dict(os.environ)
        out = call(tool, argv)
        out["environment"] = [k for k in before.keys() | os.environ.keys() if before.get(k) != os.environ.get(k)]
        if env:
            out["again"] = call(tool, argv)
    return out


def flat(live):
    out = {}
    arrays(live, out, "")
    return out


def freeze(view):
    return {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in view.items()}


def scribble(view):
    """What a caller may do to the arrays it received."""
    for v in view.values():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = v + 3 if v.dtype != bool else ~v
    return None


def same(a, b):
    """The first difference between two observations, or None."""
    if a.keys() != b.keys():
        return f"{sorted(a.keys() ^ b.keys())} only in one"
    for k, x in a.items():
        y = b[k]
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape:
                return f"{k}: shape {x.shape} instead of {y.shape}"
            if x.dtype.kind in "fciub" and y.dtype.kind in "fciub":
                x, y = (z if z.dtype.kind == "c" else z.astype(float) for z in (x, y))
                bad = ~((np.abs(x - y) <= 1e-9 * max(1.0, float(np.nanmax(np.abs(y), initial=0)) if y.size and np.isfinite(y).any() else 1.0)) | (x == y) | (np.isnan(x) & np.isnan(y)))
                if bad.any():
                    i = tuple(int(z[0]) for z in np.nonzero(bad))
                    return f"{k}: {x[i]!r} instead of {y[i]!r} at {i}"
            elif not np.array_equal(x, y):
                return f"{k} differs"
        elif isinstance(x, float) and isinstance(y, float):
            if not (abs(x - y) <= 1e-9 * max(1, abs(y)) or x == y or (x != x and y != y)):
                return f"{k}: {x!r} instead of {y!r}"
        elif isinstance(x, str) and isinstance(y, str):
            # numbers within text agree up to rounding
            num = r"-?\d+\.\d+(?:e-?\d+)?"
            u, v = re.findall(num, x), re.findall(num, y)
            if re.sub(num, "#", x) != re.sub(num, "#", y) or len(u) != len(v) or any(abs(float(p) - float(q)) > 1e-9 * max(1, abs(float(q))) for p, q in zip(u, v)):
                return f"{k}: {x[:200]!r} instead of {y[:200]!r}"
        elif not (type(x) is type(y) and (x is y or x == y)):
            return f"{k}: {x!r} instead of {y!r}"
    return None


# -------------------------------------------------------- state of the process
def ambient():
    """State of the process that belongs to everyone."""
    import multiprocess

    return {
        "NumPy's random state": hashlib.sha256(pickle.dumps(np.random.get_state())).hexdigest(),
        "Python's random state": hashlib.sha256(pickle.dumps(random.getstate())).hexdigest(),
        "NumPy's error handling": str(np.geterr()),
        "NumPy's print options": str(np.get_printoptions()),
        "the environment": str(sorted(os.environ.items())),
        "the working directory": os.getcwd(),
        "the import path": str(sys.path),
        "signal handlers": str([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)]),
        "running threads": str(sorted(t.name for t in threading.enumerate() if t.is_alive() and not t.daemon)),
        "child processes": str(len(multiprocess.active_children())),
        "standard output": str(sys.stdout is sys.__stdout__),
        "open files": str(sorted(x for x in map(link, os.listdir("/proc/self/fd")) if x.startswith("/") and not x.startswith("/proc") and str(vh.data_dir()) in x)),
    }


def link(fd):
    try:
        return os.readlink(f"/proc/self/fd/{fd}")
    except OSError:
        return ""


def module_state():
    """Digest of everything sleplet keeps at module level."""
    h = hashlib.sha256()
    seen = {}  # keeps the objects alive, so that no identity is used twice

    def put(x, depth):
        if isinstance(x, (str, bytes, int, float, complex, bool, type(None), fractions.Fraction, np.generic)):
            h.update(repr(x).encode())
        elif isinstance(x, np.ndarray):
            h.update(str(x.shape).encode() + (x.tobytes() if x.dtype != object else b""))
        elif id(x) in seen or depth > 8:
            h.update(b"again")
        elif isinstance(x, dict):
            seen[id(x)] = x
            for k, v in sorted(x.items(), key=lambda kv: str(kv[0])):
                put(k, depth + 1)
                put(v, depth + 1)
        elif isinstance(x, (list, tuple, set, frozenset)):
            seen[id(x)] = x
            for v in x if isinstance(x, (list, tuple)) else sorted(x, key=str):
                put(v, depth + 1)
        elif isinstance(x, types.ModuleType):
            h.update(x.__name__.encode())
        elif hasattr(x, "cache_info") and callable(x.cache_info):
            h.update(str(x.cache_info().currsize).encode())
            put(getattr(x, "__wrapped__", None), depth + 1)
        elif isinstance(x, types.FunctionType):
            seen[id(x)] = x
            if str(getattr(x, "__module__", "")).startswith("sleplet"):
                for y in (x.__defaults__, x.__kwdefaults__, x.__dict__):
                    put(y, depth + 1)
                for cell in x.__closure__ or ():
                    with contextlib.suppress(ValueError):
                        put(cell.cell_contents, depth + 1)
        elif isinstance(x, type):
            seen[id(x)] = x
            if str(getattr(x, "__module__", "")).startswith("sleplet"):
                for k, v in sorted(vars(x).items()):
                    if not k.startswith(("__pydantic", "__signature", "_abc_", "__weakref", "__dict__", "__doc__")):
                        h.update(k.encode())
                        put(v, depth + 1)
        elif isinstance(x, (staticmethod, classmethod)):
            put(x.__func__, depth + 1)
        else:
            seen[id(x)] = x
            h.update(type(x).__name__.encode())
            if type(x).__module__.startswith(("sleplet", "pooch")):
                put({k: v for k, v in getattr(x, "__dict__", {}).items()}, depth + 1)

    for name in sorted(m for m in sys.modules if m == "sleplet" or m.startswith("sleplet.")):
        mod = sys.modules[name]
        h.update(name.encode())
        for k, v in sorted(vars(mod).items()):
            if not k.startswith("__"):
                h.update(k.encode())
                put(v, 0)
    return h.hexdigest()[:16]


# ------------------------------------------------------------------ exploration
OPS, REF, SNAP, NEXT = [], [], {}, []
START = None


def once(op):
    before = ambient()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        view = freeze(flat(perform(op)))
    after = ambient()
    return view, {k: (before[k], after[k]) for k in before if before[k] != after[k]}, module_state()


def prepare():
    """What each operation gives in a new process."""
    global START
    OPS[:] = alphabet()
    vh.clear_data()
    for L in (2, 3, 4, 5):
        funcs.provide(L)
    import multiprocess  # noqa: F401

    import sleplet._scripts.plotting_on_mesh  # noqa: F401
    import sleplet._scripts.plotting_on_sphere  # noqa: F401

    warm()
    gc.collect()
    gc.freeze()
    REF[:] = refs()
    SNAP.update(vh.snapshot())
    START = module_state()


def warm():
    """Import what the third-party packages import on first use."""
    import PIL.ExifTags  # noqa: F401
    import plotly.graph_objects as go

    note = {"x": 0.1, "y": 0.2, "z": 0.3, "arrowcolor": "black", "arrowhead": 6, "ax": 5, "ay": 5}
    scene = {"camera": {"eye": {"x": 1, "y": 1, "z": 1}, "center": {"x": 0}}, "annotations": [note], "xaxis": {"visible": False}}
    for t in (go.Surface, go.Mesh3d):
        kw = {"surfacecolor": np.eye(2)} if t is go.Surface else {"intensity": [1.0, 2.0, 3.0], "i": [0], "j": [1], "k": [2]}
        x = np.eye(2) if t is go.Surface else np.arange(3.0)
        fig = go.Figure(data=[t(x=x, y=x, z=x, colorbar={"tickfont": {"size": 3}, "x": 0.5}, colorscale="ice", cmin=0, cmax=1, cmid=0.5, reversescale=True, lighting={"ambient": 1}, **kw)], layout={"scene": scene, "margin": {"l": 0}})
        repr(fig.layout.to_plotly_json())
        repr(fig.data[0].colorbar.to_plotly_json())
    for f in (scipy.sparse.linalg.eigsh,):
        f(np.diag(np.arange(1.0, 9.0)), k=2)


def refs():
    out = []
    for _ in range(2):  # the first round fills the data directory
        out = [vh.in_child(once, op) for op in OPS]
    return out


def scenarios(tier):
    for op in OPS:
        yield {"first": op} if tier == "quick" else {"first": op, "full": True, "triples": True}


def later(live_a, frozen_a, a, op_b, ref_b, deep, digest=False):
    """The rest of a history that began with A; what went wrong, and the state."""
    wrong = []

    def run(op, want, what):
        before = ambient()
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            view = flat(perform(op))
        after = ambient()
        wrong.extend(("ambient", f"{what}: {k} changed from {before[k][:200]} to {after[k][:200]}") for k in before if before[k] != after[k])
        diff = same(view, want)
        if diff:
            wrong.append(("result", f"{what}: {diff}"))
        return view

    b = run(op_b, ref_b, f"{op_b} after {a}")
    state = module_state() if digest else None
    diff = same(live_a, frozen_a)
    if diff:
        wrong.append(("alias", f"the results of {a} changed when {op_b} was run: {diff}"))
    if deep:
        scribble(live_a)
        scribble(b)
        run(op_b, ref_b, f"{op_b} after {a}, {op_b}, whose results the caller has overwritten")
        run(a, frozen_a, f"{a} after {a}, {op_b}, {op_b}, whose results the caller has overwritten")
    return wrong, state


def chain(live_a, frozen_a, a, far):
    """A, then all of the others after each other."""
    wrong, before = [], a
    start = OPS.index(a)
    far = [k for k in far if k > start] + [k for k in far if k < start]
    for n, k in enumerate(far):
        w, _ = later(live_a, frozen_a, [a, f"{n} others", before], OPS[k], REF[k][1][0], False)
        wrong += w
        before = OPS[k]
        if len(wrong) > 3:
            break
    return wrong, module_state()


def history(a, ref_a, others, full, triples):
    """Run A, then everything after it."""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        live = flat(perform(a))
    frozen = freeze(live)
    out = []
    if not full:
        # those of other kinds one after another, in a single process
        far = [k for k in others if group(OPS[k]) != group(a)]
        r = vh.in_child(chain, live, frozen, a, far)
        out += [(far[0], r)]
        others = [k for k in others if group(OPS[k]) == group(a)]
    for k in others:
        r = vh.in_child(later, live, frozen, a, OPS[k], REF[k][1][0], True, full)
        out.append((k, r))
        if r[0] != "ok" or len([x for x in out if x[1][0] != "ok" or x[1][1][0]]) > 3:
            break
        if triples and group(OPS[k]) == group(a):
            r = vh.in_child(third, a, k, timeout=600)
            out += r[1] if r[0] == "ok" else [(k, r)]
    return module_state(), out


def third(a, k):
    """A was run; run B, then every C of the kind."""
    perform(OPS[k])
    out = []
    for c, op in enumerate(OPS):
        if group(op) == group(a):
            out.append((c, vh.in_child(later, {}, {}, [a, OPS[k]], op, REF[c][1][0], False)))
    return out


def run(sc, rec):
    vh.restore(SNAP)
    i = OPS.index(sc["first"])
    a = OPS[i]
    if not rec.expect(REF[i][0] == "ok", "raises", f"{a} in a new process: {REF[i][1:]}"):
        return
    view, changed, end = REF[i][1]
    for k, (x, y) in changed.items():
        rec.fail("ambient", f"{a}: {k} changed from {x[:200]} to {y[:200]}")
    left = [v for k, v in view.items() if k.startswith(".environment")]
    rec.expect(not left, "ambient", f"{a}: {left} changed in the environment")
    second = {k.removeprefix(".again"): v for k, v in view.items() if k.startswith(".again")}
    if second:
        diff = same(second, {k: view[k] for k in view if not k.startswith((".again", ".environment"))})
        rec.expect(diff is None, "repeat", f"{a} twice: {diff}")
    # a second run in a new process: the reference is one
    again = vh.in_child(once, a)
    diff = same(again[1][0], view) if again[0] == "ok" else str(again)
    if not rec.expect(diff is None, "repeat", f"{a} in two new processes: {diff}"):
        return
    others = [k for k in range(len(OPS)) if REF[k][0] == "ok"]
    full, triples = sc.get("full", False), sc.get("triples", False)
    r = vh.in_child(history, a, view, others, full, triples, timeout=800)
    if not rec.expect(r[0] == "ok", "history", f"{a}: {r}"):
        return
    again, results = r[1]
    states = {START, end, again}
    if not full:
        rec.count("transitions", len([k for k in others if group(OPS[k]) != group(a)]) - 1)
    for k, out in results:
        rec.count("transitions", 3)
        rec.count("traces_validated_against_impl")
        if not rec.expect(out[0] == "ok", "history", lambda: f"{OPS[k]} after {a}: {out}"):
            continue
        for key, msg in out[1][0]:
            rec.fail(key, msg)
        states.add(out[1][1] or end)
    rec.count("assertions", 4 * len(results))
    rec.keys |= states
    rec.count("states", 1 + len(results))
    rec.sample = {"first": a, "second": OPS[results[-1][0]] if results else None, "module_states": len(states)}
