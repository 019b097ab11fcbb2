"""Explicit-state exploration of the data directory: the state is its content,
the transitions are constructions by the real code, explored to closure."""

import numpy as np

import datafiles
import ref
import slep
import vh

ID = "C01"
LEVEL = "model_checking"
RULE = (
    "breadth-first search over states of the data directory (keyed by the hash "
    "of its content), applying every construction of the group's alphabet in "
    "every state reached until no new state appears or the depth bound is hit"
)
ASSUMPTIONS = [
    "the data directory is the only state shared between constructions in different processes; "
    "the search additionally keeps one process alive along all paths",
    "nobody else replaces a mask under the same name",
]
TIMEOUT = 840


def P(L, deg, gap=False, order=None):
    return {"k": "polar", "L": L, "deg": deg, "gap": gap, "order": order}


def R(L, *box):
    return {"k": "rect", "L": L, "box": list(box)}


def A(L, name):
    return {"k": "mask", "L": L, "name": name}


def M(name, b):
    return {"k": "mesh", "name": name, "b": b}


def S(name, b):
    return {"k": "meshslepian", "name": name, "b": b}


def groups(tier):
    g = {
        "angles": [P(4, 40), P(4, 40.3), P(4, 40.4), P(4, 39.6), P(4, 40, True), P(4, 40.3, True), P(4, 40, False, 1)],
        "close-caps": [P(4, 40), P(4, 40.0001), P(4, 40.01), P(4, 40.0101), P(4, 40.01, True), P(4, 40.0001, False, 1)],
        "close-boxes": [R(3, 30, 60, 40, 200), R(3, 30.0001, 60, 40, 200), R(3, 30, 60.0001, 40, 200), R(3, 30, 60, 40.0001, 200), R(3, 30, 60, 40, 200.0001)],
        "gap-orders": [P(5, 35), P(5, 35, True), P(5, 35, False, 0), P(5, 35, False, -2), P(5, 35, True, 0), P(5, 35, True, 3), P(5, 145)],
        "bandlimits": [P(2, 20), P(3, 20), P(4, 20), P(3, 20, True), P(3, 20.5), P(4, 20, False, -1), R(3, 0, 20, 10, 300), R(4, 0, 20, 10, 300)],
        "cap-as-rectangle": [P(4, 60), P(4, 60, True), P(4, 60, False, 0), R(4, 0, 60, 0, 360), P(4, 60.25), R(4, 0, 60.25, 0, 360), R(4, 0, 60, 0, 180)],
        "rectangles": [R(4, 30, 120, 40, 200), R(4, 30.4, 120, 40, 200), R(4, 30, 120, 40.4, 200), R(4, 30, 120, 40, 200.4), R(4, 30, 119.7, 40, 200), R(4, 40, 200 - 80, 30, 120)],
        "rectangles2": [R(3, 30, 120, 0, 360), R(3, 0, 180, 0, 100), R(3, 0, 180, 10, 110), R(3, 10, 100, 0, 360), R(3, 60, 150, 0, 360), R(4, 60, 150, 0, 360)],
        "masks": [A(2, "blob"), A(2, "stripe"), A(3, "blob"), A(3, "stripe"), P(2, 40), P(3, 40), R(3, 30, 120, 40, 200)],
        "world": [A(2, "africa"), A(2, "south_america"), A(3, "africa"), A(3, "south_america"), P(3, 40)],
        "mesh-b": [M("cube", 5), M("cube", 6), S("cube", 5), S("cube", 6), M("cube", 4), S("cube", 4)],
        "mesh-names": [S("homer", 5), S("cube", 5), S("bird", 5), M("homer", 5), M("bird", 5)],
        "mesh-names2": [S("teapot", 4), S("cheetah", 4), S("dragon", 4), M("dragon", 4), M("cheetah", 5)],
        # equal Shannon numbers: nothing but the one attribute tells these apart
        "same-N-caps": [P(3, 30), P(3, 30, True), P(3, 30, False, 1), P(3, 30, True, 1), P(2, 43), P(2, 43, True), P(3, 43), R(3, 0, 30, 0, 360)],
        "same-N-boxes": [R(3, 30, 60, 40, 200), R(3, 35, 60, 40, 200), R(3, 30, 65, 40, 200), R(3, 30, 60, 45, 200), R(3, 30, 60, 40, 205), R(3, 40, 60, 30, 200)],
        "same-N-masks": [A(3, "blob"), A(3, "blob2"), R(3, 30, 60, 40, 200), P(3, 30)],
        # too small for any function at all, next to ones that are not
        "no-functions": [P(3, 10), P(3, 10, False, 0), P(3, 170, True), R(3, 30, 33, 40, 45), R(3, 30, 60, 40, 200), R(2, 30, 33, 40, 45)],
        # Shannon numbers on a half, rounded one way or the other
        "halves": [R(3, 0, 180, 0, 60), R(3, 0, 180, 0, 100), R(2, 0, 90, 0, 270), R(2, 0, 180, 0, 135), P(3, 90), P(3, 90, True), P(3, 90, False, 1)],
        "above-16": [P(17, 15), P(17, 15, False, 0), P(17, 15, False, -3), P(17, 15, False, 16)],
        "above-16-gap": [P(17, 12, True), P(17, 12, False, 1), P(17, 12, True, 1), P(17, 12, True, 0)],
    }
    if tier == "thorough":
        g |= {
            "above-16-angles": [P(17, 15), P(17, 15.3), P(17, 15.3, False, 2), P(17, 15, False, 2), P(17, 15, True), P(17, 15, True, 2)],
            "around-16": [P(16, 10), P(17, 10), P(16, 10, False, 1), P(17, 10, False, 1), P(18, 10), P(18, 10, False, -17)],
            "many": [P(3, d, g) for d in (30, 30.2, 30.4, 29.8) for g in (False, True)] + [R(3, 0, 30, 0, 360), P(3, 30, False, 0), P(3, 30, False, -2)],
            "rect-many": [R(3, a, b, c, d) for a in (0, 30) for b in (100, 100.4, 180) for c, d in ((0, 360), (20, 200), (20.3, 200)) if (a, b, c, d) != (0, 180, 0, 360)][:11],
            "mesh-many": [S("homer", b) for b in (3, 4, 5, 6, 7)] + [M("homer", b) for b in (3, 4, 5, 6, 7)],
            "mixed": [P(3, 40), A(3, "blob"), R(3, 30, 120, 40, 200), S("homer", 4), M("homer", 4), A(3, "africa"), P(3, 40, True), P(3, 40, False, 1)],
            "single": [P(6, 50)] + [P(6, 50, False, m) for m in range(-5, 6)] + [P(6, 50, True, 2)],
        }
    return g


MAX_STATES = 3000
TASKS_PER_PROCESS = 1  # every group starts in a new process
DEPTH = {"quick": 9, "thorough": 14}


def BOUNDS(tier):
    return {"groups": {k: len(v) for k, v in groups(tier).items()}, "depth": DEPTH[tier]}


def scenarios(tier):
    for name, ops in groups(tier).items():
        big = max(op.get("L", 3) for op in ops)
        yield {"group": name, "ops": ops, "depth": DEPTH[tier], "cost": big**3 * len(ops)}


def make(op):
    """Run the construction; observe what a user sees."""
    from sleplet.meshes import Mesh, MeshSlepian
    from sleplet.slepian import SlepianArbitrary, SlepianLimitLatLon, SlepianPolarCap

    kind = op["k"]
    if kind in ("mesh", "meshslepian"):
        m = Mesh(op["name"], number_basis_functions=op["b"])
        out = {
            "N": m.number_basis_functions,
            "mask": np.array(m.mesh_region),
            "ev": np.array(m.mesh_eigenvalues),
            "V": np.array(m.basis_functions),
            "lead": op["b"],
        }
        if kind == "meshslepian":
            s = MeshSlepian(m)
            out |= {"ev": np.array(s.slepian_eigenvalues), "V": np.array(s.slepian_functions), "N": s.N, "lead": s.N}
        return out
    if kind == "polar":
        s = SlepianPolarCap(op["L"], float(np.deg2rad(op["deg"])), gap=op["gap"], order=op["order"])
    elif kind == "rect":
        b = [float(x) for x in np.deg2rad(op["box"])]
        s = SlepianLimitLatLon(op["L"], theta_min=b[0], theta_max=b[1], phi_min=b[2], phi_max=b[3])
    else:
        s = SlepianArbitrary(op["L"], op["name"])
    out = {"N": s.N, "mask": np.array(s.mask), "ev": np.array(s.eigenvalues), "V": np.array(s.eigenvectors), "lead": s.N}
    if kind == "polar":
        if op["order"] is None:
            out["orders"] = np.array(s.order)
        else:
            out["lead"] = len(out["ev"])  # every function of that order
            out["orders"] = np.array(int(s.order))
    return out


def is_cap(op):
    return op["k"] == "rect" and op["box"][0] == 0 and op["box"][2:] == [0, 360]


def compare(rec, op, got, want, key):
    ok = rec.expect(got["N"] == want["N"], key + "/shannon", f"{op}: N={got['N']}, in an empty directory {want['N']}")
    if not rec.expect(got["mask"].shape == want["mask"].shape and bool((got["mask"] == want["mask"]).all()), key + "/mask", f"{op}: other mask"):
        return
    if not ok or not rec.close(got["ev"], want["ev"], 1e-9, key + "/eigenvalues", f"{op} eigenvalues"):
        return
    if "orders" in want:
        rec.close(got["orders"], want["orders"], 0, key + "/orders", f"{op} orders")
    n = want["lead"]
    if not rec.expect(len(got["V"]) >= n, key + "/count", f"{op}: {len(got['V'])} functions, {n} expected"):
        return
    if is_cap(op):
        # any basis within equal eigenvalues is as good
        L, b = op["L"], np.deg2rad(op["box"])
        K = ref.region_gram(L, b[0], b[1], b[2], b[3])
        V, ev = got["V"][:n], got["ev"][:n]
        rec.close(V.conj() @ V.T, np.eye(n), 1e-8, key + "/functions", f"{op} orthonormality")
        rec.close(K @ V.T, V.T * ev, 1e-7, key + "/functions", f"{op} eigenfunctions")
        return
    rec.close(got["V"][:n], want["V"][:n], 1e-8, key + "/functions", f"{op} functions")


def files():
    """Every file of the data directory with what changes when it is rewritten."""
    return sorted(
        (str(p), p.stat().st_ino, p.stat().st_size, p.stat().st_mtime_ns)
        for p in vh.data_dir().rglob("*") if p.is_file()
    )


def make_again(op):
    """Run the construction twice; what it left, and what the second changed."""
    out = make(op)
    before = files()
    make(op)
    return out, len(before), sorted({x[0] for x in before} ^ {x[0] for x in files()} | {x[0] for x in set(before) ^ set(files())})


def initial():
    vh.clear_data()
    datafiles.write(cmb=False)
    for L in (2, 3):
        slep.provide_masks(L)


def needs_files(ops):
    return any(op["k"] == "mask" for op in ops)


def run(sc, rec):
    ops = sc["ops"]
    if needs_files(ops):
        initial()
    root = vh.snapshot()
    want = []
    for op in ops:
        vh.restore(root)
        out = vh.in_child(make_again, op)
        if out[0] != "ok":
            rec.fail(f"{op['k']}/raises", f"in an empty directory: {op}: {out}", path=[])
            return
        value, left, rewritten = out[1]
        if op.get("order") is None:  # those of one order are not saved
            rec.expect(left > len(root), f"{op['k']}/saved", lambda op=op: f"{op} saved nothing in an empty directory")
        rec.expect(not rewritten, f"{op['k']}/resaved", lambda op=op, rewritten=rewritten: f"{op} solved again: a second construction rewrote {rewritten}")
        want.append(value)
        rec.count("references")
    seen = {vh.digest(root): []}
    frontier = [(root, [])]
    depth = 0
    closed = True
    while frontier:
        if depth == sc["depth"] or len(seen) > MAX_STATES:
            closed = False
            break
        depth += 1
        nxt = []
        for snap, path in frontier:
            for i, op in enumerate(ops):
                vh.restore(snap)
                rec.count("transitions")
                rec.count("traces_validated_against_impl")
                here = [ops[j] for j in path]
                try:
                    got = make(op)
                except Exception as e:  # noqa: BLE001
                    rec.fail(f"{op['k']}/raises", f"after {here}: {op} raised {type(e).__name__}: {e}", path=path + [i])
                    continue
                before = len(rec.fails)
                compare(rec, op, got, want[i], op["k"])
                for f in rec.fails[before:]:
                    f["msg"] = f"after {here}: " + f["msg"]
                    f["detail"]["path"] = path + [i]
                if len(rec.fails) > 5:
                    return
                new = vh.snapshot()
                d = vh.digest(new)
                if d not in seen:
                    seen[d] = path + [i]
                    nxt.append((new, path + [i]))
        frontier = nxt
    rec.count("states", len(seen))
    rec.count("groups_explored_to_closure" if closed else "groups_cut_at_depth")
    rec.sample = {"group": sc["group"], "states": len(seen), "depth": depth, "longest_path": max(seen.values(), key=len)}
