"""The parallel matrix assemblies, run under a controlled scheduler (C04, C05)."""

import os

import numpy as np

import sched
import slep
import vh

CREATED = set()


def watch_shared_memory():
    """Record the name of every shared-memory block this process creates."""
    import _posixshmem

    real = _posixshmem.shm_open
    if getattr(real, "_vh", False):
        return

    def shm_open(name, flags, mode=0o777, **k):
        fd = real(name, flags, mode=mode, **k)
        if flags & os.O_CREAT:
            CREATED.add(name)
        return fd

    shm_open._vh = True
    _posixshmem.shm_open = shm_open


def leaked():
    """Blocks created since the last call that still exist (and remove them)."""
    out = []
    for name in list(CREATED):
        path = "/dev/shm/" + name.lstrip("/")
        if os.path.exists(path):
            out.append(name)
            os.unlink(path)
    CREATED.clear()
    return out


_MESHES = {}


def body(sub):
    """The construction of a subject, in an empty data directory."""
    from sleplet.meshes import Mesh, MeshSlepian
    from sleplet.slepian import SlepianArbitrary, SlepianPolarCap

    kind = sub["k"]
    if kind == "mesh":
        key = (sub["name"], sub["b"])
        if key not in _MESHES:
            _MESHES[key] = Mesh(sub["name"], number_basis_functions=sub["b"])

    def run():
        vh.clear_data()
        if kind == "polar":
            s = SlepianPolarCap(sub["L"], float(np.deg2rad(sub["deg"])), gap=sub.get("gap", False), order=sub.get("order"))
        elif kind == "mask":
            slep.provide_masks(sub["L"])
            s = SlepianArbitrary(sub["L"], sub["name"])
        else:
            s = MeshSlepian(_MESHES[key])
            return {"N": s.N, "ev": np.array(s.slepian_eigenvalues), "V": np.array(s.slepian_functions)}
        out = {"N": s.N, "ev": np.array(s.eigenvalues), "V": np.array(s.eigenvectors)}
        if kind == "polar" and sub.get("order") is None:
            out["orders"] = np.array(s.order)
        return out

    return run


def same(rec, got, want, key, what):
    """Equal eigensolutions, up to the basis among equal eigenvalues."""
    rec.expect(got["N"] == want["N"], key + "/shannon", f"{what}: N={got['N']} instead of {want['N']}")
    if not rec.close(got["ev"], want["ev"], 1e-9, key + "/eigenvalues", what):
        return
    V, W = got["V"], want["V"]
    if not rec.expect(V.shape == W.shape, key + "/count", f"{what}: {V.shape} instead of {W.shape}"):
        return
    rec.close(V.conj() @ V.T, np.eye(len(V)), 1e-9, key + "/orthonormal", what)
    rec.close((V.T * got["ev"]) @ V.conj(), (W.T * want["ev"]) @ W.conj(), 1e-9, key + "/functions", what)
    if "orders" in want:
        m = np.array([mm for ell in range(int(round(V.shape[1] ** 0.5))) for mm in range(-ell, ell + 1)])
        if rec.expect(got["orders"].shape == want["orders"].shape, key + "/orders", what):
            off = np.where(m[None, :] != got["orders"][:, None], np.abs(V), 0)
            rec.close(off.max(initial=0), 0, 1e-9, key + "/orders", what)


def persisted():
    """Files in the data directory other than the masks put there."""
    return sorted(n for n in vh.snapshot() if not n.startswith("slepian_masks_"))


def serial(sub):
    os.environ["NCPU"] = "1"
    s, out = sched.run_one(body(sub))
    if out[0] != "ok":
        raise RuntimeError(f"serial computation of {sub}: {out}")
    return out[1]
