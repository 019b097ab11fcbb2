"""Mesh transforms on a complete basis of inputs for every supplied mesh."""

import itertools

import numpy as np

import meshref
import slep
import vh

ID = "C11"
LEVEL = "exploration"
RULE = (
    "every supplied mesh x number of basis functions x (every unit Fourier "
    "vector | every unit vertex field of the explored stride | dense vectors) x "
    "method x number of coefficients; non-trivial are inputs with a non-zero "
    "transform"
)
ASSUMPTIONS = []
TIMEOUT = 850


def BOUNDS(tier):
    return {"meshes": meshref.NAMES, "basis_functions": Ns(tier), "vertex_stride": stride(tier)}


def Ns(tier):
    return [1, 2, 4, 7, 11, 24, 40] if tier == "quick" else [1, 2, 3, 7, 16, 24, 40, 64]


def stride(tier):
    return 23 if tier == "quick" else 5


def scenarios(tier):
    for name in meshref.NAMES:
        for n in Ns(tier):
            yield {"mesh": name, "n": n, "stride": stride(tier), "cost": n * n}
    for walk in walks(tier):
        yield {"walk": walk, "cost": 10**4}


def walks(tier):
    """Meshes that are easily mistaken for each other, used in one process."""
    for name in meshref.NAMES if tier != "quick" else ("homer", "cheetah"):
        yield [[name, n] for n in range(3, 11)]
    yield [[name, 8] for name in meshref.NAMES]


def _walk(sc, rec):
    """Transforms of meshes after each other, in every order of two."""
    from sleplet.harmonic_methods import mesh_forward, mesh_inverse
    from sleplet.meshes import Mesh, MeshSlepian
    from sleplet.slepian_methods import slepian_mesh_forward, slepian_mesh_inverse

    for pair in itertools.permutations(sc["walk"], 2):
        for name, n in pair:
            what = f"{name} with {n} basis functions, in {pair}"
            mesh = Mesh(name, number_basis_functions=n)
            s = MeshSlepian(mesh)
            B, V, ev, N = np.array(mesh.basis_functions), np.array(s.slepian_functions), np.array(s.slepian_eigenvalues), int(s.N)
            c = slep.dense(n).real
            u = c @ B
            rec.close(mesh_inverse(mesh, c), u, 1e-9, "walk", f"inverse for {what}")
            rec.close(mesh_forward(mesh, u), c, 1e-8, "walk", f"forward for {what}")
            rec.close(slepian_mesh_inverse(s, c), c[:N] @ (V @ B)[:N], 1e-8, "walk", f"Slepian inverse for {what}")
            rec.close(slepian_mesh_forward(s, u_i=c), (V @ c)[:N], 1e-8, "walk", f"Slepian coefficients for {what}")
            rec.close(slepian_mesh_forward(s, u=u), (V @ c)[:N], 1e-8, "walk", f"Slepian coefficients of a field for {what}")
            ok = ev[:N] > 1e-6
            got = slepian_mesh_forward(s, u=u, mask=True)
            if rec.expect(len(got) == N, "walk", f"{len(got)} coefficients for {what}"):
                rec.close(got[ok], (V @ c)[:N][ok], 1e-6, "walk", f"coefficients in the region for {what}")
            rec.case(f"{name} {n}")
    rec.sample = {"walk": sc["walk"]}


def run(sc, rec):
    if "walk" in sc:
        return _walk(sc, rec)
    from sleplet.harmonic_methods import mesh_forward, mesh_inverse
    from sleplet.meshes import Mesh, MeshSlepian
    from sleplet.slepian_methods import slepian_mesh_forward, slepian_mesh_inverse

    n = sc["n"]
    mesh = Mesh(sc["mesh"], number_basis_functions=n)
    s = MeshSlepian(mesh)
    B = np.array(mesh.basis_functions)
    nv = B.shape[1]
    region = meshref.region(sc["mesh"], np.array(mesh.vertices)).astype(float)
    V, ev, N = np.array(s.slepian_functions), np.array(s.slepian_eigenvalues), int(s.N)
    S = V @ B
    tol = 1e-9

    def guard(fn, *arrays, **kw):
        before = [np.array(a, copy=True) for a in (*arrays, *kw.values()) if isinstance(a, np.ndarray)]
        out = fn(*arrays, **kw)
        after = [a for a in (*arrays, *kw.values()) if isinstance(a, np.ndarray)]
        rec.expect(all(np.array_equal(a, b) for a, b in zip(before, after)), "input", "a transform changed its input")
        return out

    mf = lambda u: guard(lambda x: mesh_forward(mesh, x), u)
    mi = lambda c: guard(lambda x: mesh_inverse(mesh, x), c)
    sf = lambda **kw: guard(lambda **k: slepian_mesh_forward(s, **k), **kw)
    si = lambda c: guard(lambda x: slepian_mesh_inverse(s, x), c)

    coeffs = [np.eye(n)[i] for i in range(n)] + [slep.dense(n).real, slep.dense(n, 2).imag]
    for i, c in enumerate(coeffs):
        u = mi(c)
        rec.close(u, c @ B, tol, "inverse", f"field of coefficients {i}")
        rec.close(mf(u), c, tol * n, "roundtrip", f"coefficients {i}")
        rec.close((u**2).sum(), (c**2).sum(), tol * n, "energy", f"energy of coefficients {i}")
        want = V @ c
        for k in (None, 0, 1, N, len(V)):
            if k is not None and k > len(V):
                continue
            kk = {} if k is None else {"n_coeffs": k}
            m = N if k is None else k
            rec.close(sf(u_i=c, **kk), want[:m], tol * n, "slepian/u_i", f"coefficients {i}, n_coeffs={k}")
            rec.close(sf(u=u, **kk), want[:m], tol * n, "slepian/u", f"field {i}, n_coeffs={k}")
            got = sf(u=u, mask=True, **kk)
            # energy in the region divided by the eigenvalue: equal on band-limited fields
            # where the eigenvalue is not negligible
            ok = ev[:m] > 1e-6
            if rec.expect(len(got) == m, "slepian/region", f"{len(got)} coefficients of {m}"):
                rec.close(got[ok], want[:m][ok], 1e-6, "slepian/region", f"masked field {i}, n_coeffs={k}")
            rec.case((sc["mesh"], n, i, k) if m and np.abs(want[:m]).max() > 1e-9 else None)
        other = slep.dense(n, 5).real
        rec.close(sf(u_i=other, u=u), (V @ other)[:N], tol * n, "slepian/precedence", "u and u_i given")
        rec.close(sf(u_i=other, u=u, mask=True), (V @ other)[:N], tol * n, "slepian/precedence", "u, u_i and mask given")
        f_p = c
        back = si(f_p)
        rec.close(back, f_p[:N] @ S[:N], tol * n, "slepian/inverse", f"coefficients {i}")
        if N:
            rec.close(sf(u=back), f_p[:N], tol * n, "slepian/roundtrip", f"coefficients {i}")
    rec.raises(lambda: slepian_mesh_forward(s), Exception, "slepian/nothing", "no input")
    rec.raises(lambda: slepian_mesh_forward(s, mask=True), Exception, "slepian/nothing", "a mask only")
    rec.raises(lambda: slepian_mesh_forward(s, u_i=coeffs[0], n_coeffs=n + 1), Exception, "slepian/too_many", "too many coefficients")
    # the transforms are linear, whatever the units and the type of the signal
    c0, ok = coeffs[-1], ev[:N] > 1e-6
    for scale in (1e-150, 1e-14, 1e-5, 1e9):
        c, at = c0 * scale, f"coefficients times {scale}"
        u = mi(c)
        rec.close(u / scale, c0 @ B, tol * n, "scale", f"inverse of {at}")
        rec.close(mf(u) / scale, c0, tol * n, "scale", f"forward of {at}")
        rec.close(sf(u_i=c) / scale, (V @ c0)[:N], tol * n, "scale", f"Slepian {at}")
        rec.close(sf(u=u) / scale, (V @ c0)[:N], tol * n, "scale", f"Slepian field of {at}")
        rec.close((sf(u=u, mask=True) / scale)[ok], (V @ c0)[:N][ok], 1e-6, "scale", f"Slepian field in the region of {at}")
        rec.close(si(c) / scale, c0[:N] @ S[:N], tol * n, "scale", f"Slepian inverse of {at}")
        rec.case((sc["mesh"], n, "scale", scale))
    for kind in (int, np.int32, bool, np.float32):
        u = (np.arange(nv) * 7 % 5 - 1.75).astype(kind)
        want = B @ u.astype(float)
        rec.close(mf(u), want, tol * n, "types", f"field of type {np.dtype(kind)}")
        rec.close(sf(u=u), (V @ want)[:N], tol * n, "types", f"Slepian field of type {np.dtype(kind)}")
        inner = S[:N] @ (region * u.astype(float))
        rec.close((sf(u=u, mask=True) * ev[:N])[ok], inner[ok], tol * n, "types", f"field of type {np.dtype(kind)} in the region")
        e = np.arange(n).astype(kind)
        rec.close(mi(e), e.astype(float) @ B, tol * n * n, "types", f"coefficients of type {np.dtype(kind)}")
        rec.close(si(e), e.astype(float)[:N] @ S[:N], tol * n * n, "types", f"Slepian coefficients of type {np.dtype(kind)}")
        rec.close(sf(u_i=e), (V @ e.astype(float))[:N], tol * n * n, "types", f"harmonics of type {np.dtype(kind)}")
        rec.case((sc["mesh"], n, "type", str(kind)))
    # complex fields: both parts are transformed
    for i, c in enumerate((slep.dense(n), 1j * np.eye(n)[0], np.eye(n)[-1] * (2 - 1j), slep.dense(n, 3) * 1e-9)):
        size = np.abs(c).max()
        u = mi(c)
        want = V @ c
        rec.close(u / size, c @ B / size, tol, "complex", f"field of complex coefficients {i}")
        rec.close(mf(c @ B) / size, c / size, tol * n, "complex", f"complex coefficients {i}")
        rec.close(sf(u_i=c, n_coeffs=len(V)) / size, want / size, tol * n, "complex", f"Slepian coefficients of complex coefficients {i}")
        rec.close(sf(u=c @ B) / size, want[:N] / size, tol * n, "complex", f"Slepian coefficients of the complex field {i}")
        rec.close((sf(u=c @ B, mask=True) / size)[ok], want[:N][ok] / size, 1e-6, "complex", f"coefficients in the region of the complex field {i}")
        rec.close(si(c) / size, c[:N] @ S[:N] / size, tol * n, "complex", f"Slepian field of complex coefficients {i}")
        rec.case((sc["mesh"], n, "complex", i))
    # unit vertex fields: outside the span of the basis
    inside = np.flatnonzero(region)[:: sc["stride"]]
    for v in sorted({0, nv - 1, *range(0, nv, sc["stride"]), *inside.tolist()}):
        u = np.zeros(nv)
        u[v] = -1.5
        c = mf(u)
        rec.close(c, -1.5 * B[:, v], tol, "forward", f"unit vertex {v}")
        rec.close(mi(c), B.T @ (-1.5 * B[:, v]), tol, "projection", f"unit vertex {v}")
        rec.close(sf(u=u, n_coeffs=len(V)), -1.5 * S[:, v], tol, "slepian/u", f"unit vertex {v}")
        ok = ev[: len(V)] > 1e-6
        got = sf(u=u, mask=True, n_coeffs=len(V))
        rec.close((got * ev[: len(V)])[ok], (-1.5 * region[v] * S[:, v])[ok], 1e-9, "slepian/region", f"unit vertex {v}")
        rec.case((sc["mesh"], n, "vertex", v) if np.abs(c).max() > 1e-9 else None)
    rec.sample = {"mesh": sc["mesh"], "n": n, "N": N, "eigenvalues": ev[:3].tolist()}
