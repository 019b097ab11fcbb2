"""Arbitrary masks: every mask of the smallest grid, and complete families of
masks (all pixels, pixel pairs, complements, rings, columns, rectangles) above."""

import itertools

import numpy as np

import ref
import vh

ID = "C08"
LEVEL = "exploration"
RULE = (
    "all masks of the grid of bandlimit 1 (4096), and above it every single "
    "pixel, complement of a pixel, pair of pixels, union of rings, union of "
    "meridians and block; the eigenproblem is linear in the mask, so that the "
    "single pixels fix every matrix entry; non-trivial when the mask has area"
)
ASSUMPTIONS = ["double precision", "masks are boolean or 0/1 floats on the MWSS grid of twice the bandlimit"]
TIMEOUT = 850


def BOUNDS(tier):
    return {"L": [1, 2, 3, 4, 5, 6] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8]}


def _shape(L):
    return 2 * L + 1, 4 * L


def _masks(L, family):
    rows, cols = _shape(L)
    n = rows * cols
    if family == "all":
        for bits in range(2**n):
            yield [i for i in range(n) if bits >> i & 1]
    elif family == "pixel":
        for i in range(n):
            yield [i]
    elif family == "complement":
        for i in range(n):
            yield [j for j in range(n) if j != i]
    elif family == "pair":
        yield from (list(c) for c in itertools.combinations(range(n), 2))
    elif family == "rings":
        for bits in range(2**rows):
            yield [i for i in range(n) if bits >> (i // cols) & 1]
    elif family == "meridians":
        for bits in range(2**cols):
            yield [i for i in range(n) if bits >> (i % cols) & 1]
    elif family == "block":
        for r0, r1 in itertools.combinations(range(rows + 1), 2):
            for c0, c1 in itertools.combinations(range(cols + 1), 2):
                yield [r * cols + c for r in range(r0, r1) for c in range(c0, c1)]
    elif family == "corner":
        for r in range(1, rows + 1):
            for c in range(1, cols + 1):
                yield [i * cols + j for i in range(r) for j in range(c)]


def scenarios(tier):
    fam = {1: ["all"], 2: ["pixel", "complement", "rings", "corner", "meridians"], 3: ["pixel", "complement", "rings", "corner"], 4: ["pixel"]}
    if tier == "thorough":
        fam = {
            1: ["all"],
            2: ["pixel", "complement", "pair", "rings", "meridians", "block"],
            3: ["pixel", "complement", "rings", "corner"],
            4: ["pixel", "rings"],
        }
    for L, fs in fam.items():
        for f in fs:
            total = sum(1 for _ in _masks(L, f))
            step = {1: 256, 2: 16, 3: 6, 4: 4}[L]
            for i in range(0, total, step):
                yield {"L": L, "family": f, "from": i, "to": min(total, i + step), "cost": step * L**5}
    for L in [4, 5, 6] if tier == "quick" else [5, 6, 7, 8]:
        for k in range(3):
            yield {"L": L, "family": "shape", "from": k, "to": k + 1, "cost": 4 * L**5}


def _shape_mask(L, k):
    th, ph = ref.grid(2 * L)
    if k == 0:
        return (th < 1.1) & (np.cos(ph) > -0.2)
    if k == 1:
        return np.sin(3 * ph + th) * np.cos(th) > 0.1
    return ((th > 1) & (th < 1.6)) | (ph > 5)


def run(sc, rec):
    from sleplet.slepian import SlepianArbitrary

    L, fam = sc["L"], sc["family"]
    Y = ref.ylm(L, *ref.grid(2 * L)).reshape(L * L, -1)
    w = ref.weight(2 * L).ravel()
    if fam == "shape":
        masks = [np.flatnonzero(_shape_mask(L, sc["from"]))]
    else:
        masks = itertools.islice(_masks(L, fam), sc["from"], sc["to"])
    for number, cells in enumerate(masks):
        vh.clear_data()
        mask = np.zeros(len(w), dtype=bool if number % 2 else float)
        mask[list(cells)] = 1
        np.save(vh.data_dir() / f"slepian_masks_blob_L{2 * L}.npy", mask.reshape(_shape(L)))
        D = (Y.conj() * (w * mask)) @ Y.T
        x = L * L * (w * mask).sum() / (4 * np.pi)
        s = SlepianArbitrary(L, "blob")
        ev, V = np.array(s.eigenvalues), np.array(s.eigenvectors)
        tag = "mask"
        rec.expect(len(V) == L * L, f"{tag}/full", f"{len(V)} eigenfunctions of {L * L}")
        ref.check_concentration(rec, tag, ev, V, D, 1e-8, L * L, hi=1.5)
        rec.expect(ref.shannon_ok(s.N, x), f"{tag}/shannon", f"N={s.N} for {x}")
        rec.close(np.array(s.mask, dtype=float), mask.reshape(_shape(L)), 0, f"{tag}/mask", "mask of the object")
        rec.case((L, tuple(np.flatnonzero(mask))) if x > 1e-9 else None)
        if number == 0:
            again = SlepianArbitrary(L, "blob")
            n = s.N
            ref.check_concentration(rec, f"{tag}/saved", np.array(again.eigenvalues)[:n], np.array(again.eigenvectors)[:n], D, 1e-8, hi=1.5)
    rec.sample = {"L": L, "family": fam, "cells": [int(c) for c in list(cells)[:12]], "N": int(s.N), "largest_eigenvalues": ev[:3].tolist()}
