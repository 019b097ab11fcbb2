"""Reference model of the supplied meshes: own parser and cotangent Laplacian."""

import functools
import pathlib
import tomllib

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl

import vh

NAMES = ["bird", "cheetah", "cube", "dragon", "homer", "teapot"]
DATA = pathlib.Path(vh.REPO) / "src" / "sleplet" / "_data"


@functools.lru_cache
def config(name):
    return tomllib.loads((DATA / f"meshes_regions_{name}.toml").read_text())


@functools.lru_cache
def original(name):
    tokens = []
    for line in (DATA / f"meshes_polygons_{config(name)['FILENAME']}").read_text().splitlines():
        line = line.split("#")[0].strip()
        if line and line != "OFF":
            tokens += line.replace("OFF", "").split()
    nv, nf = int(tokens[0]), int(tokens[1])
    v = np.array(tokens[3 : 3 + 3 * nv], dtype=float).reshape(-1, 3)
    f = np.array(tokens[3 + 3 * nv : 3 + 3 * nv + 4 * nf], dtype=int).reshape(-1, 4)[:, 1:]
    return v, f


def region(name, vertices):
    c = config(name)
    lo = [c["XMIN"], c["YMIN"], c["ZMIN"]]
    hi = [c["XMAX"], c["YMAX"], c["ZMAX"]]
    return ((vertices >= lo) & (vertices <= hi)).all(axis=1)


def laplacian(v, f):
    """Positive semi-definite cotangent Laplacian."""
    n = len(v)
    rows, cols, vals = [], [], []
    for k in range(3):
        i, j, o = f[:, k], f[:, (k + 1) % 3], f[:, (k + 2) % 3]
        a, b = v[i] - v[o], v[j] - v[o]
        cot = (a * b).sum(1) / np.linalg.norm(np.cross(a, b), axis=1)
        rows += [i, j]
        cols += [j, i]
        vals += [cot / 2, cot / 2]
    W = sp.coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))), shape=(n, n)).tocsr()
    return sp.diags(np.asarray(W.sum(1)).ravel()) - W


def smallest(lap, k):
    """The k smallest eigenvalues, by a factorisation at another shift."""
    v0 = np.linspace(1, 2, lap.shape[0]) ** 3
    ev = spl.eigsh(lap.tocsc(), k=k, sigma=-0.01, which="LM", v0=v0, ncv=max(2 * k + 20, 60), return_eigenvectors=False)
    return np.sort(ev)
