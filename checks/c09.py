"""Meshes: every supplied mesh x number of basis functions."""

import numpy as np

import meshref
import vh

ID = "C09"
LEVEL = "exploration"
RULE = (
    "every supplied mesh x every number of basis functions of the range, each "
    "computed and reloaded; non-trivial when an eigenvalue lies strictly "
    "between 1e-3 and 1 - 1e-3"
)
ASSUMPTIONS = ["the reference spectrum comes from an independently assembled cotangent Laplacian and another spectral shift"]
TIMEOUT = 850


def BOUNDS(tier):
    return {"meshes": meshref.NAMES, "basis_functions": sorted({n for s in scenarios(tier) for n in s["n"]}, key=lambda x: x or 0)}


def scenarios(tier):
    for name in meshref.NAMES:
        hi = 32 if tier == "quick" else 64
        for start in range(1, hi, 4):
            yield {"mesh": name, "n": list(range(start, start + 4)), "cost": start}
        for n in (40, 80, 250) if tier == "quick" else (100, 150, 250):
            yield {"mesh": name, "n": [n], "cost": n}
    for name in ["cheetah"] if tier == "quick" else ["cheetah", "bird", "teapot"]:
        yield {"mesh": name, "n": [None], "cost": 1000}


def _mesh(rec, name, n, key, lap):
    from sleplet.meshes import Mesh

    m = Mesh(name, number_basis_functions=n) if n is not None else Mesh(name)
    v, f = np.array(m.vertices), np.array(m.faces).astype(int)
    ev, B = np.array(m.mesh_eigenvalues), np.array(m.basis_functions)
    k = len(v) // 4 if n is None else n
    if not rec.expect(len(ev) == len(B) == k == m.number_basis_functions, key + "/count", f"{len(ev)} eigenvalues, {len(B)} functions, {k} requested"):
        return m
    rec.close(B @ B.T, np.eye(k), 1e-9, key + "/orthonormal", "inner products of basis functions")
    rec.close(lap @ B.T, (B * ev[:, None]).T, 1e-8, key + "/eigen", "Laplacian of the basis functions")
    rec.expect((np.diff(ev) >= -1e-9).all(), key + "/order", "eigenvalues not increasing")
    rec.close(ev, meshref.smallest(lap, k + 2 if n else k)[:k], 1e-7, key + "/smallest", "smallest eigenvalues")
    region = meshref.region(name, v)
    rec.expect((np.array(m.mesh_region).astype(bool) == region).all(), key + "/region", "vertices of the region")
    return m


def run(sc, rec):
    from sleplet.meshes import Mesh, MeshSlepian

    name = sc["mesh"]
    v0, f0 = meshref.original(name)
    lap = None
    for n in sc["n"]:
        vh.clear_data()
        if lap is None:
            m = Mesh(name, number_basis_functions=2)
            v, f = np.array(m.vertices), np.array(m.faces).astype(int)
            ups = meshref.config(name)["UPSAMPLE"]
            rec.expect(len(f) == len(f0) * 4**ups, "mesh/faces", f"{len(f)} faces")
            rec.close(v[: len(v0)], v0, 1e-12, "mesh/vertices", "vertices of the file")
            area = lambda v, f: np.linalg.norm(np.cross(v[f[:, 1]] - v[f[:, 0]], v[f[:, 2]] - v[f[:, 0]]), axis=1).sum() / 2
            rec.close(area(v, f), area(v0, f0), 1e-9 * area(v0, f0), "mesh/area", "surface area")
            lap = meshref.laplacian(v, f)
            vh.clear_data()
        for when in ("computed", "saved"):
            key = f"mesh/{when}"
            m = _mesh(rec, name, n, key, lap)
            B = np.array(m.basis_functions)
            k = len(B)
            region = meshref.region(name, np.array(m.vertices))
            s = MeshSlepian(m)
            x = region.mean() * k
            rec.expect(abs(s.N - x) <= 0.5 + 1e-9, key + "/shannon", f"N={s.N} for {x}")
            ev, S = np.array(s.slepian_eigenvalues), np.array(s.slepian_functions)
            rec.expect(len(ev) == k, key + "/slepian_count", f"{len(ev)} eigenvalues for {k} basis functions")
            rec.expect(len(S) >= s.N if when == "saved" else len(S) == k, key + "/slepian_functions", f"{len(S)} functions")
            D = (B * region) @ B.T
            rec.close(S @ S.conj().T, np.eye(len(S)), 1e-8, key + "/slepian_orthonormal", "inner products")
            rec.close(S.conj() @ D @ S.T, np.diag(ev[: len(S)]), 1e-8, key + "/slepian_energy", "region inner products")
            rec.expect((np.diff(ev) <= 1e-9).all(), key + "/slepian_order", "eigenvalues not decreasing")
            rec.expect((ev >= -1e-9).all() and (ev <= 1 + 1e-9).all(), key + "/slepian_range", "eigenvalues outside [0, 1]")
            rec.close(ev.sum(), np.trace(D), 1e-8, key + "/slepian_sum", "sum of eigenvalues")
            rec.case((name, n, when) if ((ev > 1e-3) & (ev < 0.999)).any() else None)
    rec.sample = {"mesh": name, "n": n, "N": int(s.N), "eigenvalues": ev[:3].tolist()}
