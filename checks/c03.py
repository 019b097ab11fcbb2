"""Where data files come from: all registry/local/download states, all lookup
histories, and all interleavings of two threads, on the real lookup code with
the network replaced by an in-memory registry."""

import itertools
import os
import pathlib
import threading

import numpy as np

import c01
import sched
import slep
import vh

ID = "C03"
LEVEL = "model_checking"
RULE = (
    "product of network states, file states and operation sequences, each run "
    "in a new process against a three-line model of the lookup order "
    "(transitions = operations compared with the model, states = distinct "
    "model states entered); plus all schedules of two threads with the stated "
    "number of preemptions (each schedule adds its operations)"
)
ASSUMPTIONS = [
    "the network is represented by pooch's two entry points (load the registry, fetch a file), which are replaced",
    "the registry cannot be downloaded = any requests.RequestException",
]
TIMEOUT = 860
A, B = "alpha.npy", "beta.npy"
ERRORS = ["ConnectionError", "Timeout", "HTTPError", "SSLError", "ConnectTimeout", "ReadTimeout", "ChunkedEncodingError", "TooManyRedirects"]
FETCH = ["OSError", "ConnectionError", "ValueError", "HTTPError"]


def depth(tier):
    return 3 if tier == "quick" else 4


def bound(tier):
    return 1 if tier == "quick" else 2


def BOUNDS(tier):
    return {"sequence_length": depth(tier), "files": 2, "preemptions": bound(tier), "threads": 2, "load_errors": ERRORS, "download_errors": FETCH}


OPS = ["A", "B", "save A", "save B", "net", "del A"]


def scenarios(tier):
    # each file: (listed, local copy)
    for reach in [True, *ERRORS]:
        for a in itertools.product((0, 1), (0, 1)):
            yield {"mode": "histories", "reach": reach, "a": list(a), "depth": depth(tier), "cost": 3}
    for a in itertools.product((0, 1), (0, 1)):
        for b in itertools.product((0, 1), (0, 1)):
            for reach in (True, "ConnectionError"):
                parts = 1 if tier == "quick" else 4
                for part in range(parts):
                    yield {"mode": "threads", "reach": reach, "a": list(a), "b": list(b), "bound": bound(tier), "part": part, "parts": parts, "cost": 2}
    for reach in (True, "ConnectionError"):
        yield {"mode": "names", "reach": reach, "cost": 4}
    for kind in ("polar", "rect", "mask", "mesh", "meshslepian"):
        yield {"mode": "objects", "kind": kind, "cost": 9}


# ------------------------------------------------------------------ model
def model(reach, listed, local, broken, name):
    """What a lookup must give: ("published"|"local"|"absent"|"raises")."""
    if reach is True and listed[name]:
        return "raises" if broken else "published"
    return "local" if local[name] else "absent"


def setup(reach, files):
    """files: {name: (listed, local)}; the network and the data directory."""
    import requests

    vh.clear_data()
    vh.REG.reset()
    pub = vh.data_dir().parent / "published"
    pub.mkdir(exist_ok=True)
    for name, (listed, local) in files.items():
        if local:
            np.save(vh.data_dir() / name, np.array([1.0]))
        if listed:
            np.save(pub / name, np.array([2.0]))
            vh.REG.files[name] = pub / name
    if reach is not True:
        vh.REG.load_error = getattr(requests.exceptions, reach)("no network")


def lookup(name):
    from sleplet._data.setup_pooch import find_on_pooch_then_local

    try:
        got = find_on_pooch_then_local(name)
    except Exception as e:  # noqa: BLE001
        return "raises", type(e).__name__
    if got is None:
        return "absent", ""
    try:
        value = float(np.load(got)[0])
    except Exception as e:  # noqa: BLE001
        return f"unreadable {got}", repr(e)
    return {1.0: "local", 2.0: "published"}.get(value, f"value {value}"), str(got)


def history(reach, files, seq, error):
    """Run one sequence in this process; list of (op, got, expected)."""
    import requests

    setup(reach, files)
    listed = {n: f[0] for n, f in files.items()}
    local = {n: f[1] for n, f in files.items()}
    broken = False
    exc = getattr(requests.exceptions, error, None) or getattr(__builtins__, error, None)
    if exc is None:
        import builtins

        exc = getattr(builtins, error)
    out, states = [], set()
    for op in seq:
        if op in ("A", "B"):
            name = A if op == "A" else B
            out.append((op, lookup(name)[0], model(reach, listed, local, broken, name)))
        elif op == "net":
            broken = not broken
            vh.REG.fetch_error = exc("download failed") if broken else None
        elif op.startswith("save"):
            name = A if op[-1] == "A" else B
            np.save(vh.data_dir() / name, np.array([1.0]))
            local[name] = 1
        else:
            f = vh.data_dir() / A
            if f.exists():
                f.unlink()
            local[A] = 0
        states.add((reach is True, tuple(listed.items()), tuple(local.items()), broken, len(out) > 0))
    return out, states


def histories(sc, rec):
    reach = sc["reach"]
    first = reach in (True, "ConnectionError")
    seqs = [s for d in range(1, sc["depth"] + 1) for s in itertools.product(OPS, repeat=d) if s[-1] in ("A", "B")]
    if not first:
        seqs = [s for s in seqs if len(s) <= 2]
    states = set()
    for b in itertools.product((0, 1), (0, 1)):
        files = {A: tuple(sc["a"]), B: b}
        for seq in seqs:
            for error in FETCH if "net" in seq and reach is True and len(seq) <= 2 else FETCH[:1]:
                out = vh.in_child(history, reach, files, seq, error)
                what = f"registry reachable: {reach}; (listed, local) {files}; {seq} ({error})"
                if out[0] != "ok":
                    rec.fail("history/died", f"{what}: {out}")
                    return
                rec.count("traces_validated_against_impl")
                for op, got, want in out[1][0]:
                    rec.count("transitions")
                    rec.expect(got == want, "history", f"{what}: lookup {op} gave {got} instead of {want}")
                states |= {str(s) for s in out[1][1]}
        if rec.fails:
            return
    rec.count("states", len(states))


# ------------------------------------------------------------------ names
NAMES = [
    "alpha_L2_N1.npy", "alpha_L2_N11.npy", "alpha_L2_N1.npy.bak", "big_alpha_L2_N1.npy", "Alpha_L2_N1.npy",
    "alpha_L2_N1", "alpha-L2-N1.npy", "alpha_L20_N1.npy", "alpha_L2_N1.mat", "alpha_gap_L2_N1.npy",
]


def lookups(reach, published):
    """Every file looked up against every local copy; list of wrong ones."""
    import requests
    from sleplet._data.setup_pooch import find_on_pooch_then_local

    vh.clear_data()
    vh.REG.reset()
    pub = vh.data_dir().parent / "published"
    pub.mkdir(exist_ok=True)
    value = {n: float(i) for i, n in enumerate(NAMES)}
    for n in published:
        (pub / n).write_bytes(repr(value[n]).encode())
        vh.REG.files[n] = pub / n
    if reach is not True:
        vh.REG.load_error = requests.exceptions.ConnectionError("no network")
    bad, n = [], 0
    for local in [[]] + [[x] for x in NAMES] + [NAMES]:
        for x in NAMES:
            (vh.data_dir() / x).unlink(missing_ok=True)
        for x in local:
            (vh.data_dir() / x).write_bytes(repr(100 + value[x]).encode())
        for x in NAMES:
            got = find_on_pooch_then_local(x)
            if got is not None:
                with open(got) as f:
                    got = float(f.read())
            want = value[x] if reach is True and x in published else 100 + value[x] if x in local else None
            n += 1
            if got != want:
                bad.append(f"{x} with {published} published, {local} local: {got} instead of {want}")
    return bad, n


def names(sc, rec):
    """Names that are easily taken for each other."""
    for published in [[]] + [[x] for x in NAMES] + [NAMES] + [[y for y in NAMES if y != x] for x in NAMES]:
        out = vh.in_child(lookups, sc["reach"], published)
        if not rec.expect(out[0] == "ok", "names/died", f"{published}: {out}"):
            return
        bad, n = out[1]
        rec.count("transitions", n)
        rec.count("traces_validated_against_impl")
        rec.expect(not bad, "names/lookup", lambda: bad[0])
    rec.count("states", len(NAMES))


# ------------------------------------------------------------------ threads
def threads(sc, rec):
    """Two threads, two lookups each, in one new process per schedule."""
    files = {A: tuple(sc["a"]), B: tuple(sc["b"])}
    listed = {n: f[0] for n, f in files.items()}
    local = {n: f[1] for n, f in files.items()}
    want = {n: model(sc["reach"], listed, local, False, n) for n in (A, B)}

    def one(overrides):
        setup(sc["reach"], files)
        results = {}

        def work(tid, names):
            for n in names:
                results[tid, n] = lookup(n)[0]

        def on_load(pooch, items):
            # the registry arrives line by line
            sched.Executor.current.point()
            for name in items:
                pooch.registry[name] = "md5:0"
                sched.Executor.current.point()

        s = sched.Schedule(overrides)
        sched.Executor.current = s
        vh.REG.on_load = on_load
        s.spawn(lambda: work(1, (A, B)))
        s.spawn(lambda: work(2, (B, A)))
        s.finish()
        bad = {str(k): (v, want[k[1]]) for k, v in results.items() if v != want[k[1]]}
        return s.points, bad, len(results), s.deadlock, [t.done for t in s.threads[1:]]

    def visit(overrides):
        out = vh.in_child(one, overrides)
        rec.count("transitions")
        rec.count("traces_validated_against_impl")
        what = f"registry reachable: {sc['reach']}; (listed, local) {files}; schedule {overrides}"
        n = len(rec.fails)
        if out[0] != "ok":
            rec.fail("threads/died", f"{what}: {out}")
            points = []
        else:
            points, bad, count, dead, done = out[1]
            rec.count("states", len(points))
            rec.expect(not dead and all(done), "threads/deadlock", what)
            rec.expect(count == 4, "threads/lost", f"{what}: {count} of 4 lookups returned")
            rec.expect(not bad, "threads", f"{what}: (got, expected) {bad}")
        for f in rec.fails[n:]:
            f["detail"]["replay"] = {"only": {str(k): v for k, v in overrides.items()}}
        return points

    if "only" in sc:
        visit({int(k): v for k, v in sc["only"].items()})
        return

    class Shape:
        pass

    stack = [({}, 0)]
    firsts = True
    while stack:
        overrides, used = stack.pop()
        if firsts and sc["part"] != 0:
            out = vh.in_child(one, overrides)
            points = out[1][0] if out[0] == "ok" else []
        else:
            points = visit(overrides)
        s = Shape()
        s.points = points
        kids = list(sched.children(s, overrides, used, sc["bound"]))
        if firsts:
            kids = [k for i, k in enumerate(kids) if i % sc["parts"] == sc["part"]]
            firsts = False
        stack.extend(kids)
        if len(rec.fails) > 2:
            return


# ------------------------------------------------------------------ objects
OBJECTS = {
    "polar": c01.P(3, 40),
    "rect": c01.R(3, 20, 120, 30, 300),
    "mask": c01.A(2, "blob"),
    "mesh": c01.M("cube", 3),
    "meshslepian": c01.S("cube", 3),
}


def construct(op, subset, reach, broken, local):
    """Build op when `subset` of its files are published, marked or broken."""
    import requests

    for name in subset:
        vh.REG.files[name] = pathlib.Path(local) / name
    if reach is not True:
        vh.REG.load_error = requests.exceptions.ConnectionError("no network")
    if broken:
        vh.REG.fetch_error = OSError("download failed")
    got = c01.make(op)
    return got, [f for f in vh.REG.fetches], sorted(vh.snapshot())


def objects(sc, rec):
    """Every subset of the files of an object published, with marked content:
    the object is made of the published files, else the local, else computed."""
    op = OBJECTS[sc["kind"]]
    slep.provide_masks(2)
    masks = vh.snapshot()
    out = vh.in_child(c01.make, op)
    if not rec.expect(out[0] == "ok", "objects/plain", str(out)):
        return
    plain = out[1]
    files = {n: c for n, c in vh.snapshot().items() if n not in masks}
    # marked copies: eigenvalues shifted, so their origin can be told
    base = vh.data_dir().parent
    marks = {}
    for label, shift in (("pub", 0.25), ("loc", 0.5)):
        d = base / f"marked_{label}"
        d.mkdir(exist_ok=True)
        for name, content in files.items():
            (d / name).write_bytes(content)
            if name.endswith("eigenvalues.npy"):
                np.save(d / name, np.load(d / name) + shift)
        marks[label] = d
    evs = sorted(n for n in files if n.endswith("eigenvalues.npy"))
    names = sorted(files)
    own = [n for n in evs if ("slepian" in n.split("laplacians")[-1] or sc["kind"] != "meshslepian")][-1:]
    for r in range(len(names) + 1):
        for subset in itertools.combinations(names, r):
            for reach in (True, False):
                for broken in (False, True):
                    for have in (False, True):
                        vh.restore(masks)
                        if have:
                            for n in names:
                                (vh.data_dir() / n).write_bytes((marks["loc"] / n).read_bytes())
                        vh.REG.reset()
                        out = vh.in_child(construct, op, subset, reach, broken, str(marks["pub"]))
                        vh.REG.reset()
                        what = f"{op}: published {subset}, registry reachable {reach}, downloads broken {broken}, local copies {have}"
                        rec.count("transitions")
                        rec.count("states")
                        rec.count("traces_validated_against_impl")
                        hit = reach and subset
                        if hit and broken:
                            # (a file may turn out not to be needed)
                            tried = out[0] == "raised" or out[1][1]
                            rec.expect(not tried or out[0] == "raised", "objects/broken", f"{what}: built from other data")
                            continue
                        if not rec.expect(out[0] == "ok", "objects/raises", f"{what}: {out[:3]}"):
                            continue
                        got = out[1][0]
                        source = {n: "pub" if reach and n in subset else "loc" if have else None for n in names}
                        mine = own[0]
                        complete = all(source[n] for n in names if n.split("_eigen")[0].split("_orders")[0] == mine.split("_eigen")[0])
                        shift = 0.0
                        if complete:
                            shift = {"pub": 0.25, "loc": 0.5}[source[mine]]
                        rec.close(got["ev"], plain["ev"] + shift, 1e-9, "objects/source", what)
                if len(rec.fails) > 3:
                    return


def run(sc, rec):
    {"histories": histories, "names": names, "threads": threads, "objects": objects}[sc["mode"]](sc, rec)
    rec.sample = {k: v for k, v in sc.items() if k != "cost"}
