"""Command-line tools: every function and method x every option alone and in
pairs; the figure handed to plotly is compared with one built from the library."""

import contextlib
import io
import itertools
import os
import sys

import numpy as np

import funcs
import ref
import slep
import vh
from c19 import table

ID = "C20"
LEVEL = "exploration"
RULE = (
    "every function name x argument list x method x every option alone and "
    "every pair of options (short and long spelling), every grid of angles, "
    "every mesh x method x option subset, every kind of wrong argument; "
    "non-trivial are the figures shown, distinct by their command line"
)
ASSUMPTIONS = [
    "either argument of the convolution may be the conjugated one",
    "angles are not exactly half way between sampling points, nor beyond the last one",
]
TIMEOUT = 850
ARGS = {  # class -> argument lists with their keywords
    "Africa": [], "DiracDelta": [], "Earth": [], "Identity": [], "SouthAmerica": [], "Wmap": [],
    "NoiseEarth": [([5], {"SNR": 5.0}), ([-3], {"SNR": -3.0})],
    "Gaussian": [([0], {"sigma": 1.0}), ([-1], {"sigma": 0.1})],
    "HarmonicGaussian": [([0, 1], {"l_sigma": 1.0, "m_sigma": 10.0}), ([1, 0], {"l_sigma": 10.0, "m_sigma": 1.0})],
    "SquashedGaussian": [([-1, 0], {"t_sigma": 0.1, "freq": 1.0})],
    "ElongatedGaussian": [([0, -1], {"t_sigma": 1.0, "p_sigma": 0.1})],
    "SphericalHarmonic": [([2, -1], {"ell": 2, "m": -1}), ([1, 1], {"ell": 1, "m": 1})],
    "Ridgelets": [([2, 0, 2, 1], {"B": 2, "j_min": 0, "spin": 2, "j": 1})],
    "AxisymmetricWavelets": [([3, 0, 1], {"B": 3, "j_min": 0, "j": 1})],
    "AxisymmetricWaveletCoefficientsAfrica": [([2, 1, 0], {"B": 2, "j_min": 1, "j": 0})],
    "AxisymmetricWaveletCoefficientsEarth": [([2, 0, 1], {"B": 2, "j_min": 0, "j": 1})],
    "AxisymmetricWaveletCoefficientsSouthAmerica": [([2, 0, 0], {"B": 2, "j_min": 0, "j": 0})],
    "Slepian": [([1], {"rank": 1})],
    "SlepianAfrica": [], "SlepianDiracDelta": [], "SlepianIdentity": [], "SlepianSouthAmerica": [],
    "SlepianNoiseAfrica": [([5], {"SNR": 5.0})],
    "SlepianNoiseSouthAmerica": [([5], {"SNR": 5.0})],
    "SlepianWavelets": [([2, 0, 0], {"B": 2, "j_min": 0, "j": 0})],
    "SlepianWaveletCoefficientsAfrica": [([2, 0, 0], {"B": 2, "j_min": 0, "j": 0})],
    "SlepianWaveletCoefficientsSouthAmerica": [([2, 0, 0], {"B": 2, "j_min": 0, "j": 0})],
}
MAPS = {"earth": "Earth", "south_america": "SouthAmerica", "wmap": "Wmap"}
MESH_ARGS = {
    "BasisFunctions": [([3], {"rank": 3})], "Field": [], "NoiseField": [([5], {"SNR": 5.0})],
    "SlepianField": [], "SlepianFunctions": [([2], {"rank": 2})], "SlepianNoiseField": [([5], {"SNR": 5.0})],
    "SlepianWaveletCoefficients": [([3, 1, 1], {"B": 3, "j_min": 1, "j": 1})],
    "SlepianWavelets": [([3, 1, 1], {"B": 3, "j_min": 1, "j": 1})],
}
# option group -> (short spelling, long spelling, effect)
OPTIONS = {
    "convolve": [(["-c", m], ["--convolve", m], {"convolve": m}) for m in MAPS],
    "noise": [(["-n", x], [f"--noise={x}"], {"noise": float(x)}) for x in ("5", "-3", "0")],
    "smoothing": [(["-s", "2"], ["--smoothing", "2"], {"smoothing": 2})],
    "region": [(["-r"], ["--region"], {"region": True})],
    "outline": [(["-o"], ["--outline"], {"outline": False})],
    "perspective": [(["-p", x], ["--perspective", x], {"view": x}) for x in ("africa", "south_america")] + [(["-p"], ["--perspective"], {})],
    "type": [(["-t", x], ["--type", x], {"type": x}) for x in ("abs", "imag", "sum", "real")] + [(["-t"], ["--type"], {})],
    "unnormalise": [(["-u"], ["--unnormalise"], {"normalise": False})],
    "unzeropad": [(["-z"], ["--unzeropad"], {"upsample": False})],
    "alpha": [(["-a", "0.4"], ["--alpha", "0.4"], {"alpha": 0.4}), (["-a", "1.4"], ["--alpha", "1.4"], {"alpha": 1.4}), (["-a", "0"], ["--alpha", "0"], {"alpha": 0})],
    "beta": [(["-b", "0.6"], ["--beta", "0.6"], {"beta": 0.6}), (["-b", "1"], ["--beta", "1"], {"beta": 1}), (["-b", "0"], ["--beta", "0"], {"beta": 0})],
    "gamma": [(["-g", "0.3"], ["--gamma", "0.3"], {"gamma": 0.3}), (["-g", "1.2"], ["--gamma", "1.2"], {"gamma": 1.2}), (["-g=-0.6"], ["--gamma=-0.6"], {"gamma": -0.6})],
}
ENVS = [
    {}, {"SLEPIAN_MASK": "africa"}, {"THETA_MAX": "40"}, {"THETA_MAX": "70", "POLAR_GAP": "True"},
    {"THETA_MIN": "30", "PHI_MAX": "200"},
]


def snake(name):
    out = "".join(("_" + c.lower()) if c.isupper() else c for c in name)
    return out.lstrip("_")


def BOUNDS(tier):
    return {"L": Ls(tier), "options": {k: len(v) for k, v in OPTIONS.items()}, "functions": len(ARGS), "meshes": meshes(tier)}


def Ls(tier):
    return [3] if tier == "quick" else [2, 3, 4, 5]


def meshes(tier):
    return ["cheetah", "bird", "teapot"] if tier == "quick" else ["cheetah", "bird", "teapot", "dragon", "homer", "cube"]


def scenarios(tier):
    for L in Ls(tier):
        for name in ARGS:
            for method in ("north", "rotate", "translate"):
                yield {"part": "sphere", "name": name, "L": L, "method": method, "cost": 150}
        for name in (x for x in ARGS if x.startswith("Slepian")):
            for k in range(1, len(ENVS)):
                yield {"part": "regions", "name": name, "L": L, "env": k, "cost": 30}
    if tier != "quick":
        for name in ARGS:
            for method in ("north", "rotate", "translate"):
                yield {"part": "triples", "name": name, "L": 2, "method": method, "cost": 800}
    for L in (2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7):
        for method in ("rotate", "translate"):
            yield {"part": "angles", "L": L, "method": method, "cost": 20 * L * L}
    yield {"part": "default"}
    yield {"part": "refused", "L": 3, "cost": 50}
    for mesh in meshes(tier):
        full = mesh == "cheetah" or (tier != "quick" and mesh in ("bird", "teapot"))
        yield {"part": "mesh", "mesh": mesh, "full": full, "cost": {"cube": 10**6, "homer": 10**5, "dragon": 10**5}.get(mesh, 10**4)}
    yield {"part": "mesh_refused", "cost": 40}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


@contextlib.contextmanager
def environment(env):
    try:
        os.environ.update(env)
        yield
    finally:
        for k in env:
            os.environ.pop(k, None)


def call(tool, argv):
    """Run a tool; its figures and how it ended."""
    import importlib

    main = importlib.import_module(f"sleplet._scripts.plotting_on_{tool}").main
    old = sys.argv
    sys.argv = [tool, *argv]
    vh.SHOWN.take()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            main()
        end = None
    except (Exception, SystemExit) as e:  # noqa: BLE001
        end = e
    finally:
        sys.argv = old
    return vh.SHOWN.take(), end


def provide(L):
    funcs.provide(L)
    for n in ("africa", "south_america"):
        for res in (table(L),):
            np.save(vh.data_dir() / f"slepian_masks_{n}_L{res}.npy", funcs.region_mask(n, res))


def default_region(env):
    from sleplet.slepian import Region

    d = {k.lower(): float(np.deg2rad(int(env[k]))) for k in ("THETA_MIN", "THETA_MAX", "PHI_MIN", "PHI_MAX") if k in env}
    return Region(gap=env.get("POLAR_GAP") == "True", mask_name=env.get("SLEPIAN_MASK", "south_america"), **d)


def frac(x):
    import fractions

    f = fractions.Fraction(x).limit_denominator()
    return f.numerator, f.denominator


def angle_name(**angles):
    out = ""
    for name, x in angles.items():
        n, d = frac(x)
        if name == "gamma" and n == 0:
            continue
        out += f"_{name}" + (f"{n}pi{d if d != 1 else ''}" if n else "0")
    return out[1:]


def nearest(L, a, b):
    """Grid point for fractions of pi."""
    i = min(range(2 * L), key=lambda k: abs(k / L - a))
    j = min(range(L + 1), key=lambda k: abs(k / L - b))
    return i * np.pi / L, j * np.pi / L


def expected(name, kw, L, method, env, o):
    """(candidate fields, file name, plot keywords) from the library."""
    import pyssht as ssht
    import sleplet

    region = default_region(env) if o.get("region") or name.startswith("Slepian") else None
    f = funcs.make(name, L, region=region, noise=o.get("noise"), smoothing=o.get("smoothing"), **kw)
    is_slepian = name.startswith("Slepian")
    if is_slepian:
        rec_n = int(f.slepian.N)
    file, notes = f.name, []
    spin, reality = f.spin, f.reality
    c = f.coefficients
    amplitude = None
    if o.get("noise") is not None:
        clean = funcs.make(name, L, region=region, smoothing=o.get("smoothing"), **kw)
        amplitude = np.abs(to_field(clean, clean.coefficients, L, is_slepian)).max()
    alpha, beta = nearest(L, o.get("alpha", 0.75), o.get("beta", 0.125))
    if method == "rotate":
        if is_slepian:
            raise NotImplementedError
        c = ssht.rotate_flms(np.asarray(c, dtype=complex), alpha, beta, o.get("gamma", 0) * np.pi, L)
        file += "_rotate_" + angle_name(alpha=o.get("alpha", 0.75), beta=o.get("beta", 0.125), gamma=o.get("gamma", 0))
    elif method == "translate":
        g = funcs.make(name, L, region=region, noise=o.get("noise"), smoothing=o.get("smoothing"), **kw)
        c = g.translate(alpha, beta, **({"shannon": rec_n} if is_slepian else {}))
        file += "_translate_" + angle_name(alpha=o.get("alpha", 0.75), beta=o.get("beta", 0.125))
        if o.get("outline", True):
            notes = [(np.sin(beta) * np.cos(alpha), np.sin(beta) * np.sin(alpha), np.cos(beta))]
        reality = False
    results = [c]
    if "convolve" in o:
        g = funcs.make(MAPS[o["convolve"]], L)
        gc = g.coefficients
        if is_slepian:
            gc = sleplet.slepian_methods.slepian_forward(L, f.slepian, flm=gc)
            gc, c = gc[:rec_n], c[:rec_n]
        results = [gc * np.conj(c), c * np.conj(gc)]
        file += f"_convolved_{g.name}"
        reality = False
    if "earth" in file and not is_slepian:
        angles = {"africa": (44, 87, 341), "south_america": (54, 108, 63)}[o.get("view", "south_america")]
        results = [ssht.rotate_flms(np.ascontiguousarray(x, dtype=complex), *np.deg2rad(angles), L) for x in results]
        if o.get("view") == "africa":
            file += "_africa"
    fields = [to_field(f, x, L, is_slepian) for x in results]
    if reality:
        fields = [x.real.copy() for x in fields]
    return fields, file, notes, dict(
        amplitude=amplitude, normalise=o.get("normalise", True), plot_type=o.get("type", "real"), reality=reality,
        region=region if is_slepian else None, spin=spin, upsample=o.get("upsample", True))


def to_field(f, c, L, is_slepian):
    import pyssht as ssht

    if is_slepian:
        n = min(int(f.slepian.N), len(c))
        return ref.synth(c[:n] @ f.slepian.eigenvectors[:n], L)
    return ssht.inverse(np.ascontiguousarray(c, dtype=complex), L, Method="MWSS", Spin=f.spin)


def figure(field, L, file, kw):
    from sleplet.plotting import PlotSphere

    vh.SHOWN.take()
    PlotSphere(field, L, file, **kw).execute()
    return vh.SHOWN.take()[0]


def values_agree(a, b, raw_scale, normalise):
    """Plotted values, None when the comparison would be of rounding noise."""
    if a.shape != b.shape:
        return False
    hidden = a <= -1e20
    if not np.array_equal(hidden, b <= -1e20):
        return False
    if not normalise:
        return bool(np.abs(a - b)[~hidden].max(initial=0) <= 1e-9 * raw_scale)
    return bool(np.abs(a - b)[~hidden].max(initial=0) <= 1e-6)


def check(rec, name, kw, L, method, env, argv, o):
    what = "sphere " + " ".join(argv)
    with environment(env):
        figs, end = call("sphere", argv)
    try:
        fields, file, notes, pk = expected(name, kw, L, method, env, o)
    except Exception as e:  # noqa: BLE001
        rec.expect(end is not None and not figs, "refused", lambda: f"{what}: {len(figs)} figures, the library gives {e!r}")
        return rec.case()
    if not rec.expect(end is None and len(figs) == 1, "shown", lambda: f"{what}: {len(figs)} figures, ended by {end!r}"):
        return None
    fig, got_name = figs[0]
    trace = fig.data[0]
    got = np.asarray(trace.surfacecolor)
    ok, want = False, None
    part = {"real": np.real, "imag": np.imag, "abs": np.abs, "sum": lambda x: x.real + x.imag}[pk["plot_type"]]
    for field in fields:
        scale = np.abs(field).max()
        want_fig, want_name = figure(field, L, file, pk)
        want = want_fig.data[0]
        # a part that vanishes (or is constant) up to rounding
        fine = want_fig if not pk["normalise"] else figure(field, L, file, {**pk, "normalise": False, "amplitude": None, "region": None})[0]
        v = np.asarray(fine.data[0].surfacecolor)
        v = v[v > -1e20]
        flat = np.ptp(v) < 1e-7 * max(scale, 1e-300)
        w = np.asarray(want.surfacecolor)
        if flat and pk["normalise"]:
            ok |= got.shape == w.shape and np.array_equal(got <= -1e20, w <= -1e20)
        else:
            ok |= values_agree(got, w, scale, pk["normalise"])
        if ok:
            break
    rec.expect(ok, "values", lambda: f"{what}: the figure shows other values")
    rec.expect(got_name == want_name, "filename", lambda: f"{what}: file name {got_name} instead of {want_name}")
    tol = 1e-9 * max(scale, abs(pk["amplitude"] or 0), 1e-300)
    rec.close([trace.cmin, trace.cmid, trace.cmax], [want.cmin, want.cmid, want.cmax], tol, "range", f"{what}: colour range")
    ann = fig.layout.scene.annotations
    if rec.expect(len(ann) == len(notes), "annotations", lambda: f"{what}: {len(ann)} annotations instead of {len(notes)}"):
        for a, p in zip(ann, notes):
            rec.close([a.x, a.y, a.z], p, 1e-9, "annotations", f"{what}: annotated point")
    rec.case(what + str(sorted(env.items())))
    return None


def choices(group):
    """Every option of a group, alternating the spelling."""
    return [(x[k % 2], x[2]) for k, x in enumerate(OPTIONS[group])]


def combinations(size, light):
    """Every combination of up to `size` options of different groups."""
    for n in range(size + 1):
        for groups in itertools.combinations(OPTIONS, n):
            for picks in itertools.product(*(choices(g)[: 1 if light and n > 1 and g != "convolve" else None] for g in groups)):
                yield [a for x, _ in picks for a in x], {k: v for _, e in picks for k, v in e.items()}


def _sphere(sc, rec, size=2):
    name, L, method = sc["name"], sc["L"], sc["method"]
    provide(L)
    env = {"SLEPIAN_MASK": "africa"} if name.startswith("Slepian") and "Africa" in name else {}
    for k, (args, kw) in enumerate([([], {}), *ARGS[name]]):
        extra = ["-e" if k % 2 else "--extra_args", *map(str, args)] if args else []
        for long in (False, True):
            for argv, o in combinations(size if not args and not long else 1, True):
                spelled = argv
                if long:  # the other spelling
                    spelled = next((x[(i + 1) % 2] for g in OPTIONS.values() for i, x in enumerate(g) if x[i % 2] == argv), argv)
                line = [snake(name), "-L" if not long else "--bandlimit", str(L), *spelled]
                if method != "north":
                    line += ["-m" if not long else "--method", method]
                elif long:
                    line += ["-m"]
                check(rec, name, kw, L, method, env, line + extra, o)


def _triples(sc, rec):
    _sphere(sc, rec, size=3)


def _regions(sc, rec):
    name, L, env = sc["name"], sc["L"], ENVS[sc["env"]]
    provide(L)
    for method in ("north", "translate"):
        for argv, o in (([], {}), (["-r"], {"region": True}), (["-u", "-z"], {"normalise": False, "upsample": False}), (["-c", "wmap"], {"convolve": "wmap"})):
            line = [snake(name), "-L", str(L), *argv, "-m", method]
            check(rec, name, {}, L, method, env, line, o)


def _angles(sc, rec):
    L, method = sc["L"], sc["method"]
    provide(L)
    step = 1 / L
    points = sorted({round(k * step + d, 6) for k in range(2 * L) for d in (-0.3 * step, 0, 0.35 * step)})
    for name, kw, args in (("HarmonicGaussian", {"l_sigma": 1.0, "m_sigma": 10.0}, ["-e", "0", "1"]), ("SlepianIdentity", {}, []), ("DiracDelta", {}, [])):
        if method == "rotate" and name == "SlepianIdentity":
            continue
        for a in points:
            for b in points:
                if b > 1 + step:
                    continue
                for g in (0, 0.5, 1.25, -0.2) if method == "rotate" and a in points[::3] else (0,):
                    line = [snake(name), "-L", str(L), "-m", method, f"-a={a}", f"-b={b}", "-z", "-u", "-t", "sum", *args]
                    o = {"alpha": a, "beta": b, "normalise": False, "upsample": False, "type": "sum"}
                    if g:
                        line.append(f"-g={g}")
                        o["gamma"] = g
                    check(rec, name, kw, L, method, {}, line, o)


def _default(sc, rec):
    """The bandlimit when none is given is 16."""
    provide(16)
    for name in ("Gaussian", "DiracDelta", "Wmap"):
        check(rec, name, {}, 16, "north", {}, [snake(name)], {})
        check(rec, name, {}, 16, "translate", {}, [snake(name), "-m", "translate"], {})


def nothing(rec, tool, argv, env=None):
    with environment(env or {}):
        figs, end = call(tool, argv)
    bad = isinstance(end, Exception) or (isinstance(end, SystemExit) and end.code not in (None, 0))
    rec.expect(bad and not figs, "wrong", lambda: f"{tool} {' '.join(argv)}: {len(figs)} figures, ended by {end!r}")
    rec.case()


def _refused(sc, rec):
    L = str(sc["L"])
    provide(sc["L"])
    good = ["gaussian", "-L", L]
    for bad in ["", "Gaussian", "gauss", "nosuch", "flm", "fp", "coefficients", "mesh_field", "basis_functions", "earth2", "slepian_earth", "Slepian", "cube"]:
        nothing(rec, "sphere", [bad, "-L", L])
    nothing(rec, "sphere", [])
    nothing(rec, "sphere", ["gaussian", "earth", "-L", L])
    for bad in (["-c", "africa"], ["-c", "gaussian"], ["-c", "slepian"], ["-c", ""], ["-c"], ["-m", "spin"], ["-m", "South"], ["-t", "phase"], ["-t", "Real"],
                ["-p", "europe"], ["-p", "earth"], ["-n", "low"], ["-n", "1.5"], ["-n"], ["-s", "x"], ["-s", "0.5"], ["-a", "pi"], ["-b", "east"], ["-g", "z"],
                ["-e", "a"], ["-e", "0.5"], ["-e"], ["-L", "4.5"], ["-L", "-1"], ["-L", "big"], ["--nosuch"], ["-y"]):
        nothing(rec, "sphere", good + bad)
    for name, args in ARGS.items():
        env = {"SLEPIAN_MASK": "africa"} if name.startswith("Slepian") and "Africa" in name else {}
        n = len(args[0][0]) if args else 0
        for k in range(1, 6):
            if k != n:
                for fill in ("0", "1"):
                    nothing(rec, "sphere", [snake(name), "-L", L, "-e", *[fill] * k], env)
    for line in (["spherical_harmonic", "-e", "3", "0"], ["spherical_harmonic", "-e", "-1", "0"], ["spherical_harmonic", "-e", "1", "2"],
                 ["axisymmetric_wavelets", "-e", "2", "0", "9"], ["ridgelets", "-e", "2", "0", "2", "-1"], ["slepian", "-e", "9"], ["slepian", "-e", "-1"],
                 ["slepian_wavelets", "-e", "2", "0", "12"]):
        nothing(rec, "sphere", [*line, "-L", L])
    for flag in ("--version", "--help", "-v", "-h"):
        for tool in ("sphere", "mesh"):
            figs, end = call(tool, [flag])
            rec.expect(isinstance(end, SystemExit) and end.code in (None, 0) and not figs, "information", f"{tool} {flag} ended by {end!r}")
            rec.case()


# ------------------------------------------------------------------- meshes
def _mesh(sc, rec):
    import sleplet
    from sleplet.plotting import PlotMesh

    M = sleplet.meshes
    name = sc["mesh"]
    switches = [("-r", "--region", {"region": True}), ("-u", "--unnormalise", {"normalise": False}), ("-z", "--zoom", {"zoom": True})]
    for method, lists in MESH_ARGS.items():
        if not sc["full"] and "Wavelet" in method:
            continue
        for k, (args, kw) in enumerate([([], {}), *lists]):
            for subset in itertools.product((0, 1), repeat=3):
                if not sc["full"] and sum(subset) != 3 * k:
                    continue
                for noise in (None, "5", "-3") if sum(subset) in (0, 1) else (None,):
                    o = {}
                    line = [name]
                    for on, (s, l, e) in zip(subset, switches):
                        if on:
                            line.append(l if k else s)
                            o |= e
                    if method != "BasisFunctions" or k or subset[0]:
                        line += ["--method" if subset[2] else "-m", snake(method)]
                    elif subset[2]:
                        line += ["-m"]
                    if args:
                        line += ["-e", *map(str, args)]
                    if noise:
                        line += ["-n", noise]
                    what = "mesh " + " ".join(line)
                    figs, end = call("mesh", line)
                    mesh = M.Mesh(name, zoom=o.get("zoom", False))
                    rec.expect(mesh.basis_functions.shape[0] == mesh.vertices.shape[0] // 4, "mesh/default", f"{name}: default number of basis functions")
                    build = lambda n: getattr(M, "Mesh" + method)(mesh, noise=n, region=o.get("region", False), **kw)
                    f, clean = build(None if noise is None else float(noise)), build(None)
                    if not rec.expect(end is None and len(figs) == 1, "mesh/shown", lambda: f"{what}: {len(figs)} figures, ended by {end!r}"):
                        continue
                    is_slepian = method.startswith("Slepian")
                    field, base = (mesh_field(mesh, x, is_slepian) for x in (f, clean))
                    pk = {"normalise": o.get("normalise", True), "region": is_slepian, "amplitude": np.abs(base).max() if noise else None}
                    vh.SHOWN.take()
                    PlotMesh(mesh, f.name, field, **pk).execute()
                    want, want_name = vh.SHOWN.take()[0]
                    fig, got_name = figs[0]
                    a, b = fig.data[0], want.data[0]
                    rec.expect(got_name == want_name, "mesh/filename", lambda: f"{what}: file name {got_name} instead of {want_name}")
                    u, w = np.asarray(a.intensity), np.asarray(b.intensity)
                    scale = 1e-6 * (1 if pk["normalise"] else np.abs(field).max())
                    rec.close(u, w, scale, "mesh/values", f"{what}: values")
                    tol = 1e-9 * max(np.abs(field).max(), np.abs(base).max())
                    rec.close([a.cmin, a.cmax], [b.cmin, b.cmax], tol, "mesh/range", f"{what}: colour range")
                    rec.expect(np.array_equal(a.x, b.x) and np.array_equal(a.i, b.i), "mesh/shape", f"{what}: other mesh")
                    rec.expect(fig.layout.scene.camera == want.layout.scene.camera, "mesh/view", f"{what}: other view")
                    rec.case(what)


def mesh_field(mesh, f, is_slepian):
    c = f.coefficients
    if not is_slepian:
        return mesh.basis_functions.T @ c
    s = f.mesh_slepian
    n = min(int(s.N), len(c))
    return mesh.basis_functions.T @ (s.slepian_functions[:n].T @ c[:n])


def _mesh_refused(sc, rec):
    for bad in ("", "Cube", "sphere", "cubes", "cube.off", "earth"):
        nothing(rec, "mesh", [bad])
    nothing(rec, "mesh", [])
    name = "cheetah"
    for bad in (["-m", "earth"], ["-m", "mesh_field"], ["-m", "Field"], ["-m", ""], ["-m", "slepian"], ["-n", "x"], ["-n", "0.5"], ["-n"],
                ["-e", "a"], ["-e", "1.5"], ["-e"], ["--nosuch"], ["-t", "abs"], ["teapot"]):
        nothing(rec, "mesh", [name, *bad])
    for method, args in MESH_ARGS.items():
        n = len(args[0][0]) if args else 0
        for k in range(1, 5):
            if k != n:
                nothing(rec, "mesh", [name, "-m", snake(method), "-e", *["1"] * k])
    for method, args in (("basis_functions", ["-1"]), ("basis_functions", ["100000"]), ("slepian_functions", ["100000"]), ("slepian_functions", ["-1"]),
                         ("slepian_wavelets", ["2", "0", "90"]), ("slepian_wavelets", ["2", "0", "-1"])):
        nothing(rec, "mesh", [name, "-m", method, "-e", *args])
