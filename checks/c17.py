"""Function arguments: every class x every list of integers around its range,
against the same object built from keywords."""

import itertools

import numpy as np

import funcs
import slep
import vh

ID = "C17"
LEVEL = "exploration"
RULE = (
    "every class x every list length from none to one too many x every value "
    "within and just outside the ranges, as a list and as keywords; non-trivial "
    "are the accepted argument lists, distinct by class, bandlimit and values"
)
ASSUMPTIONS = [
    "a scale of Slepian wavelet coefficients is in range when its wavelet does not vanish on the coefficients up to the Shannon number",
]
POW = [-6, -5, -4, -3, -2, -1, 0, 1, 2, 3]
SNRS = [-20, -7, -1, 0, 1, 5, 10, 40]
NONE = ["Africa", "DiracDelta", "Earth", "Identity", "SouthAmerica", "Wmap"]
WAV_H = ["AxisymmetricWavelets"] + [f"AxisymmetricWaveletCoefficients{x}" for x in ("Africa", "Earth", "SouthAmerica")]
SLEPIAN_NONE = ["SlepianDiracDelta", "SlepianIdentity", "SlepianAfrica", "SlepianSouthAmerica"]
SLEPIAN_SNR = ["SlepianNoiseAfrica", "SlepianNoiseSouthAmerica"]
WAV_S = ["SlepianWavelets", "SlepianWaveletCoefficientsAfrica", "SlepianWaveletCoefficientsSouthAmerica"]
MESH_NONE = ["MeshField", "MeshSlepianField"]
MESH_SNR = ["MeshNoiseField", "MeshSlepianNoiseField"]
MESH_RANK = ["MeshBasisFunctions", "MeshSlepianFunctions"]
MESH_WAV = ["MeshSlepianWavelets", "MeshSlepianWaveletCoefficients"]
WAVELET_DEFAULTS = {"B": 3, "j_min": 2, "j": None}
# what a function is when nothing is said
DEFAULTS = {
    **{name: WAVELET_DEFAULTS for name in [*WAV_H, *WAV_S, *MESH_WAV]},
    "Ridgelets": {**WAVELET_DEFAULTS, "spin": 2},
    "Gaussian": {"sigma": 10.0}, "HarmonicGaussian": {"l_sigma": 10.0, "m_sigma": 10.0},
    "SquashedGaussian": {"t_sigma": 1.0, "freq": 0.1}, "ElongatedGaussian": {"t_sigma": 1.0, "p_sigma": 0.1},
    "NoiseEarth": {"SNR": 10.0}, "MeshNoiseField": {"SNR": 10.0}, "MeshSlepianNoiseField": {"SNR": -5.0},
    **{name: {"SNR": -10.0} for name in SLEPIAN_SNR},
    "SphericalHarmonic": {"ell": 0, "m": 0}, "Slepian": {"rank": 0}, **{name: {"rank": 0} for name in MESH_RANK},
}
FIELDS = {
    "Gaussian": ["sigma"], "HarmonicGaussian": ["l_sigma", "m_sigma"],
    "SquashedGaussian": ["t_sigma", "freq"], "ElongatedGaussian": ["t_sigma", "p_sigma"],
}


def BOUNDS(tier):
    return {"L": Ls(tier), "powers_of_ten": POW, "SNR": SNRS, "B": [2, 3, 4], "j_min": [0, 1, 2, 3]}


def Ls(tier):
    return [1, 2, 3, 4, 5, 8] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8, 9]


def scenarios(tier):
    for L in Ls(tier):
        for name in [*NONE, "NoiseEarth", *FIELDS, *WAV_H, "Ridgelets", "SphericalHarmonic"]:
            yield {"part": "sphere", "name": name, "L": L, "cost": L**3}
    for L in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 6):
        for name in [*SLEPIAN_NONE, *SLEPIAN_SNR, *WAV_S, "Slepian"]:
            own = "africa" if "Africa" in name else "south_america" if "SouthAmerica" in name else None
            for region in [own] if own else ["polar40", "polar170", "gap70", "box", "blob"]:
                yield {"part": "sphere", "name": name, "L": L, "region": region, "cost": L**5}
    for mesh, b in (("cube", 4), ("cube", 9), ("teapot", 6)) if tier == "quick" else (
            ("cube", 4), ("cube", 9), ("cube", 17), ("teapot", 6), ("homer", 5), ("bird", 7), ("cheetah", 4), ("dragon", 5)):
        for name in [*MESH_NONE, *MESH_SNR, *MESH_RANK, *MESH_WAV]:
            yield {"part": "mesh", "name": name, "mesh": mesh, "b": b, "cost": 500}
    for L in (1, 2, 3, 5) if tier == "quick" else (1, 2, 3, 4, 5, 8, 17):
        yield {"part": "cap", "L": L, "cost": 50 * L**3}
    yield {"part": "own_region"}
    for region in ("box", "blob"):
        yield {"part": "reload", "region": region, "L": 4}
    yield {"part": "reload_mesh", "mesh": "cube", "b": 9, "cost": 500}


def run(sc, rec):
    globals()["_" + sc["part"]](sc, rec)
    rec.sample = sc


def attempt(fn):
    try:
        return fn(), None
    except Exception as e:  # noqa: BLE001
        return None, e


def arguments(name, L, N, n_ranks):
    """(list of integers, keywords, valid) over the range and just outside."""
    if name in NONE + SLEPIAN_NONE + MESH_NONE:
        return []
    if name in ["NoiseEarth", *SLEPIAN_SNR, *MESH_SNR]:
        return [([x], {"SNR": float(x)}, True) for x in SNRS]
    if name in FIELDS:
        f = FIELDS[name]
        return [(list(x), dict(zip(f, (10.0**k for k in x))), True) for x in itertools.product(POW, repeat=len(f))]
    if name == "SphericalHarmonic":
        return [
            ([ell, m], {"ell": ell, "m": m}, 0 <= ell < L and abs(m) <= ell)
            for ell in range(-2, L + 2) for m in range(-abs(ell) - 2, abs(ell) + 3)
        ]
    if name == "Slepian" or name in MESH_RANK:
        return [([r], {"rank": r}, 0 <= r < n_ranks) for r in [*range(-2, n_ranks), L, L + 1]]
    out = []
    size = L if name in WAV_H + ["Ridgelets"] else L * L if name in WAV_S else L
    for B, j_min in itertools.product((2, 3, 4), (0, 1, 2, 3)):
        top = funcs.j_max(B, size) - j_min
        for j in range(-2, max(top, 0) + 3):
            valid = 0 <= j <= top
            if valid and "Coefficients" in name and "Slepian" in name:
                reach = B ** (j + j_min - 1) < N - 1  # support of the scale
                valid = True if reach else None
            if name == "Ridgelets":
                for spin in (0, 1, 2, 3, -1, -2) if B == 2 else (2,):
                    out.append(([B, j_min, spin, j], {"B": B, "j_min": j_min, "spin": spin, "j": j}, valid))
            else:
                out.append(([B, j_min, j], {"B": B, "j_min": j_min, "j": j}, valid))
    return out


def same(rec, a, b, what):
    for k in ("coefficients", "wavelets", "wavelet_coefficients"):
        rec.close(getattr(a, k), getattr(b, k), 1e-12, "list/values", f"{what}: {k}")
    for k in ("name", "spin", "reality", "L"):
        if hasattr(a, k) or hasattr(b, k):
            rec.expect(getattr(a, k) == getattr(b, k), "list/attribute",
                       lambda k=k: f"{what}: {k} is {getattr(a, k)!r}, from keywords {getattr(b, k)!r}")


def explore(rec, name, make, args, n_args, bounds, named):
    """make(**kw) builds the object."""
    names = {}
    for values, kw, valid in args:
        what = f"{name}{values} {bounds}"
        a, ea = attempt(lambda: make(extra_args=list(values)))
        b, eb = attempt(lambda: make(**kw))
        if valid is None:  # nothing is stored for it, an error is as good
            rec.case()
            if a is not None and b is not None:
                same(rec, a, b, what)
            continue
        if not valid:
            rec.expect(ea is not None, "range/list", f"{what} was accepted as a list")
            rec.expect(eb is not None, "range/keyword", f"{what} was accepted as keywords")
            rec.case()
            continue
        if not rec.expect(ea is None, "inrange/list", lambda: f"{what} rejected as a list: {ea!r}"):
            continue
        if not rec.expect(eb is None, "inrange/keyword", lambda: f"{what} rejected as keywords: {eb!r}"):
            continue
        same(rec, a, b, what)
        for k, v in kw.items():
            got = getattr(a, k)
            rec.expect(abs(got - v) <= 1e-12 * abs(v), "list/parameter", lambda k=k, v=v: f"{what}: {k} is {getattr(a, k)} instead of {v}")
        other = names.setdefault(a.name, values)
        rec.expect(other == values, "name/shared", lambda: f"{what} has the name {a.name} of {other}")
        rec.case((what,))
        if "j" in kw:  # the scaling function is no scale of the wavelets
            low = {k: v for k, v in kw.items() if k != "j"}
            c, e = attempt(lambda: make(**low))
            if e is None:
                key = ("scaling", *sorted(low.items()))
                other = names.setdefault(c.name, key)
                rec.expect(other == key, "name/shared", lambda: f"{name}({low}) {bounds} has the name {c.name} of {other}")
                rec.case((name, str(low), "scaling"))
    # lists of every other length
    for n in range(n_args + 2):
        if n == n_args and n_args:
            continue
        for fill in (0, 1, 2):
            _, e = attempt(lambda: make(extra_args=[fill] * n))
            rec.expect(e is not None, "length", f"{name} {bounds} accepted {n} arguments ({fill}) instead of {n_args}")
            rec.case()
    if n_args:
        _, e = attempt(lambda: make(extra_args=[0.5] * n_args))
        rec.expect(e is not None, "type", f"{name} {bounds} accepted fractional arguments")
    # nothing given
    a, e = attempt(make)
    b, _ = attempt(lambda: make(extra_args=None))
    if a is not None and b is not None:
        same(rec, a, b, f"{name} {bounds} without arguments")
    if name in DEFAULTS:
        c, ec = attempt(lambda: make(**DEFAULTS[name]))
        rec.expect((a is None) == (c is None), "default/error", lambda: f"{name} {bounds} without arguments: {a is not None}, with {DEFAULTS[name]}: {ec!r}")
        if a is not None and c is not None:
            same(rec, a, c, f"{name} {bounds} without arguments and with {DEFAULTS[name]}")
            for k, v in DEFAULTS[name].items():
                rec.expect(getattr(a, k) == v, "default/parameter", lambda k=k, v=v: f"{name} {bounds}: {k} is {getattr(a, k)} instead of {v}")
        rec.case((name, bounds, "defaults"))
    # the same with the options shared by all functions
    if named:
        for values, kw, valid in [x for x in args if x[2]][:3]:
            for option in named:
                a, ea = attempt(lambda: make(extra_args=list(values), **option))
                b, eb = attempt(lambda: make(**kw, **option))
                rec.expect((ea is None) == (eb is None), "option/error", lambda: f"{name}{values} {option}: {ea!r} and {eb!r}")
                if ea is None and eb is None:
                    same(rec, a, b, f"{name}{values} {option}")


def _sphere(sc, rec):
    import sleplet

    name, L = sc["name"], sc["L"]
    funcs.provide(L)
    options = [{"noise": 7.0}, {"smoothing": 2}]
    kw, N, n_ranks = {}, 0, 0
    if "region" in sc:
        from sleplet.slepian import Region
        from sleplet.slepian_methods import choose_slepian_method

        where = sc["region"]
        kw = {"region": slep.region(where) if where in slep.REGIONS else Region(mask_name=where)}
        N = int(choose_slepian_method(L, kw["region"]).N)
        n_ranks = L * L if where.startswith(("polar", "gap")) else N
        if N == 0:
            rec.case()
            return
    cls = getattr(sleplet.functions, name)
    args = arguments(name, L, N, n_ranks)
    if name == "Slepian":  # the limit is the number of functions
        args += [([r], {"rank": r}, False) for r in (L * L, L * L + 1, L * L + 7, -1)]
        args = [x for x in args if x[2] or not 0 <= x[0][0] < L * L]
    n_args = len(args[0][0]) if args else 0
    explore(rec, name, lambda **k: cls(L, **kw, **k), args, n_args, f"L={L} {sc.get('region', '')}", options)


def _mesh(sc, rec):
    import sleplet

    name, b = sc["name"], sc["b"]
    mesh = sleplet.meshes.Mesh(sc["mesh"], number_basis_functions=b)
    N = int(sleplet.meshes.MeshSlepian(mesh).N)
    n = N if name == "MeshSlepianFunctions" else b
    args = arguments(name, b, N, n)
    if name in MESH_RANK:
        args = [x for x in args if x[2] or not 0 <= x[0][0] < b]
        args += [([r], {"rank": r}, False) for r in (b, b + 1, b + 5)]
    if not N and "Slepian" in name:
        rec.case()
        return
    cls = getattr(sleplet.meshes, name)
    n_args = len(args[0][0]) if args else 0
    explore(rec, name, lambda **k: cls(mesh, **k), args, n_args, f"{sc['mesh']} b={b}", [{"noise": 7.0}])


def _cap(sc, rec):
    from sleplet.slepian import SlepianPolarCap

    L = sc["L"]
    up = float(np.nextafter(np.pi, 4))
    for t in (-1.0, -5e-324, 0.0, 0.3, 1.5, 3.1, float(np.pi), up, 4.0):
        for order in (None, *range(-L - 2, L + 3)):
            for gap in (False, True):
                if gap and t > np.pi / 2:
                    continue
                ok = 0 < t < np.pi and (order is None or abs(order) < L)
                s, e = attempt(lambda: SlepianPolarCap(L, t, order=order, gap=gap))
                what = f"SlepianPolarCap({L}, {t}, order={order}, gap={gap})"
                if ok:
                    rec.expect(e is None, "inrange/cap", lambda: f"{what} rejected: {e!r}")
                    rec.case((what,))
                else:
                    rec.expect(e is not None, "range/cap", f"{what} accepted")
                    rec.case()


def _own_region(sc, rec):
    """Functions of Africa and South America take no other region."""
    import sleplet
    from sleplet.slepian import Region

    L = 3
    funcs.provide(L)
    regions = {"africa": Region(mask_name="africa"), "south_america": Region(mask_name="south_america"),
               "blob": slep.region("blob"), "polar40": slep.region("polar40"), "box": slep.region("box")}
    for name in (*SLEPIAN_NONE[2:], *SLEPIAN_SNR, *WAV_S[1:]):
        own = "africa" if "Africa" in name else "south_america"
        for r, region in regions.items():
            o, e = attempt(lambda: getattr(sleplet.functions, name)(L, region=region))
            if r == own:
                rec.expect(e is None, "region/own", lambda: f"{name} of its own region: {e!r}")
            else:
                rec.expect(e is not None, "region/other", f"{name} accepted the region {r}")
            rec.case((name, r))


def _reload(sc, rec):
    """Ranks beyond the Shannon number, before and after being saved."""
    import sleplet

    L = sc["L"]
    funcs.provide(L)
    region = slep.region(sc["region"])
    for r in range(L * L):
        vh.clear_data()
        funcs.provide(L)
        first, e = attempt(lambda: sleplet.functions.Slepian(L, region=region, rank=r))
        rec.expect(e is None, "inrange/fresh", lambda: f"rank {r} of {sc['region']} L={L}: {e!r}")
        again, e = attempt(lambda: sleplet.functions.Slepian(L, region=region, rank=r))
        beyond = first is not None and r >= int(first.slepian.N)
        rec.expect(e is None, f"inrange/reloaded/{'beyond-shannon' if beyond else 'leading'}",
                   lambda: f"rank {r} of {sc['region']} L={L} (Shannon number {first.slepian.N}) after it was saved: {e!r}")
        if again is not None:
            same(rec, again, first, f"rank {r} of {sc['region']} reloaded")
        rec.case((sc["region"], r))


def _reload_mesh(sc, rec):
    import sleplet

    b = sc["b"]
    for r in range(b):
        vh.clear_data()
        mesh = sleplet.meshes.Mesh(sc["mesh"], number_basis_functions=b)
        first, e = attempt(lambda: sleplet.meshes.MeshSlepianFunctions(mesh, rank=r))
        rec.expect(e is None, "inrange/fresh", lambda: f"rank {r} of {sc['mesh']} b={b}: {e!r}")
        again, e = attempt(lambda: sleplet.meshes.MeshSlepianFunctions(mesh, rank=r))
        beyond = first is not None and r >= int(first.mesh_slepian.N)
        rec.expect(e is None, f"inrange/reloaded/{'beyond-shannon' if beyond else 'leading'}",
                   lambda: f"rank {r} of {sc['mesh']} b={b} (Shannon number {first.mesh_slepian.N}) after it was saved: {e!r}")
        if again is not None:
            same(rec, again, first, f"rank {r} of {sc['mesh']} reloaded")
        rec.case((sc["mesh"], r))
