"""Crash and write-fault enumeration: the real code saves its files while the
process is killed, or the write fails, at every byte of every file and before
every file-system operation; later runs in the directory left behind are
compared with a run in an empty directory."""

import gc
import os
import resource
import signal
import sys

import numpy as np

import c01
import datafiles
import slep
import vh

ID = "C02"
LEVEL = "fault_enumeration"
RULE = (
    "one evaluation is one faulty run of a construction (killed by the kernel at "
    "byte k of its j-th written file, failing there with a write error, killed "
    "before its n-th file-system operation or having it fail) followed by "
    "recovery runs; distinct non-trivial ones are those where the fault "
    "really struck, keyed by construction, kind and position (and those of a "
    "second fault during the recovery)"
)
ASSUMPTIONS = [
    "kills and write errors are produced by the kernel's file-size limit, so a "
    "torn file is a prefix of what was being written; operations already "
    "completed survive (no loss of the page cache)",
]
TIMEOUT = 840
TASKS_PER_PROCESS = 8

P, R, A, M, S = c01.P, c01.R, c01.A, c01.M, c01.S
SUBJECTS = {
    "polar": (P(2, 50), [P(2, 50), P(2, 50, False, 0), P(2, 50, False, -1), R(2, 0, 50, 0, 360)]),
    "gap": (P(2, 50, True), [P(2, 50, True), P(2, 50, True, 1), P(2, 50)]),
    "rect": (R(2, 20, 120, 30, 300), [R(2, 20, 120, 30, 300)]),
    "cap-rect": (R(2, 0, 50, 0, 360), [R(2, 0, 50, 0, 360), P(2, 50), P(2, 50, False, 0)]),
    "mask": (A(2, "blob"), [A(2, "blob"), A(2, "stripe")]),
    "africa": (A(2, "africa"), [A(2, "africa"), A(2, "south_america")]),
    "america": (A(2, "south_america"), [A(2, "south_america"), A(2, "africa")]),
    "mesh": (M("cube", 3), [M("cube", 3), S("cube", 3)]),
    "meshslepian": (S("cube", 4), [S("cube", 4), M("cube", 4)]),
    "polar17": (P(17, 8), [P(17, 8), P(17, 8, False, 16)]),
}


def prepare():
    # compile before forking
    c01.initial()
    c01.make(R(2, 20, 120, 30, 300))
    vh.clear_data()
    gc.collect()
    gc.freeze()
    gc.disable()


def BOUNDS(tier):
    return {"subjects": {k: v[0] for k, v in SUBJECTS.items()}, "files_per_subject": "all", "bytes": "every byte of the sphere's files of bandlimit 2 (quick: every byte of the data and every fourth of the header for a polar cap, an eighth of those for the others); meshes: header, every 1021st byte and the last 16 (quick: ten positions per file); above bandlimit 16: file-system operations and a few bytes per file"}


def scenarios(tier):
    for name in SUBJECTS:
        if name == "polar17":
            yield {"s": name, "mode": "ops", "part": 0, "parts": 1, "tier": tier, "cost": 500}
            continue
        parts = (8 if name == "polar" else 5 if name.startswith("mesh") else 2) if tier == "quick" else 12
        for part in range(parts):
            yield {"s": name, "mode": "bytes", "part": part, "parts": parts, "tier": tier, "cost": 100}
        yield {"s": name, "mode": "ops", "part": 0, "parts": 1, "tier": tier, "cost": 50}
        yield {"s": name, "mode": "twice", "part": 0, "parts": 1, "tier": tier, "cost": 60}


# ------------------------------------------------------------ fault injection
WRITE = os.O_WRONLY | os.O_RDWR


def is_file(path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(path, os.PathLike):
        path = os.fspath(path)
    return isinstance(path, str) and (
        path.startswith("/dev/shm/vh_") or not path.startswith(("/dev/", "/proc/"))
    )


def event_kind(event, args):
    if event == "open":
        path, _, flags = args
        return "write" if is_file(path) and isinstance(flags, int) and flags & WRITE else None
    if event in ("os.rename", "os.link", "os.symlink", "os.truncate"):
        return "publish" if is_file(args[0]) or is_file(args[1]) else None
    if event in ("os.remove", "os.mkdir", "os.rmdir", "os.chmod", "os.utime"):
        return "other" if is_file(args[0]) else None
    return None


def limit(k):
    resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))


def faulty(op, kind, where, log=None):
    """Run op with one fault; executed in a child process."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    state = {"n": -1, "j": -1}
    if kind == "tear":
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
    else:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    armed = [True]

    def hook(event, args):
        if not armed[0]:
            return
        what = event_kind(event, args)
        if what is None:
            return
        limit(resource.RLIM_INFINITY)
        state["n"] += 1
        if what == "write":
            state["j"] += 1
        if kind in ("tear", "error"):
            if what == "write" and state["j"] == where[0]:
                limit(where[1])
        elif state["n"] == where:
            if kind == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            raise OSError(28, f"injected at {event}")

    sys.addaudithook(hook)
    try:
        c01.make(op)
    finally:
        armed[0] = False
        limit(resource.RLIM_INFINITY)
    return "done"


def trace(op):
    """The file-system operations of an undisturbed run."""
    ops = []
    armed = [True]

    def hook(event, args):
        if armed[0]:
            what = event_kind(event, args)
            if what:
                ops.append(what)

    sys.addaudithook(hook)
    c01.make(op)
    armed[0] = False
    sizes = {n: len(c) for n, c in vh.snapshot().items()}
    return ops, sizes


def recover(ops):
    return [c01.make(op) for op in ops]


class Subject:
    def __init__(self, name, rec):
        self.name, self.rec = name, rec
        self.op, self.after = SUBJECTS[name]
        c01.initial()
        self.root = vh.snapshot()
        self.want = []
        for op in self.after:
            vh.restore(self.root)
            out = vh.in_child(c01.make, op)
            if out[0] != "ok":
                rec.fail(f"{name}/reference", f"{op} in an empty directory: {out}")
                raise RuntimeError(out)
            self.want.append(out[1])

    def inject(self, kind, where):
        """One faulty run in the current directory; did the fault strike?"""
        out = vh.in_child(faulty, self.op, kind, where)
        self.rec.count("evaluations")
        struck = out[0] != "ok"
        if out[0] == "killed" and out[1] not in (signal.SIGXFSZ, signal.SIGKILL):
            self.rec.fail(f"{self.name}/{kind}/died", f"{kind} at {where}: {out}")
        return struck, out

    def recovered(self, key, what):
        # the object itself, reloaded, then those sharing files with it
        for order in ([0, 0] + list(range(1, len(self.after))),):
            out = vh.in_child(recover, [self.after[i] for i in order])
            self.rec.count("recoveries")
            if out[0] != "ok":
                self.rec.fail(key + "/recovery", f"after {what}: a later run failed: {out[1:]}", files=list_dir())
                return
            n = len(self.rec.fails)
            for i, got in zip(order, out[1]):
                c01.compare(self.rec, self.after[i], got, self.want[i], key + "/result")
            for f in self.rec.fails[n:]:
                f["msg"] = f"after {what}: " + f["msg"]


def list_dir():
    return {n: len(c) for n, c in vh.snapshot().items()}


def positions(size, tier, mesh, name):
    """Byte positions 0 <= k < size at which a file is cut."""
    if mesh and tier == "quick":
        return sorted({k for k in (0, 64, 127, 128, 131, size // 3, size // 2, 4096, size - 9, size - 1) if 0 <= k < size})
    if mesh:
        head = set(range(min(136, size)))
        return sorted(head | set(range(136, size, 1021)) | set(range(max(size - 16, 0), size)))
    if tier == "quick":
        step = 1 if name == "polar" else 8
        return sorted(set(range(0, min(128, size), 4 * step)) | {1, 127} | set(range(128, size, step)) | {size - 1})
    return list(range(size))


def run(sc, rec):
    s = Subject(sc["s"], rec)
    name, tier = sc["s"], sc["tier"]
    mesh = name.startswith("mesh")
    vh.restore(s.root)
    out = vh.in_child(trace, s.op)
    if not rec.expect(out[0] == "ok", f"{name}/trace", str(out)):
        return
    ops, _ = out[1]
    writes = ops.count("write")
    rec.expect(writes >= 2, f"{name}/saves", f"file-system operations {ops}")
    rec.sample = {"subject": name, "file_system_operations": ops}

    if sc["mode"] == "ops":
        for n, what in enumerate(ops):
            for kind in ("kill", "fail"):
                if name == "polar17" and tier == "quick" and (kind == "fail" or what != "publish"):
                    continue
                vh.restore(s.root)
                struck, out = s.inject(kind, n)
                if kind == "fail" and what in ("write", "publish"):
                    rec.expect(out[0] == "raised", f"{name}/fail/silent", f"operation {n} of {ops} failed but the construction returned")
                if kind == "kill" and not struck:
                    rec.fail(f"{name}/kill/lost", f"kill before operation {n} of {ops} did not happen")
                if struck:
                    rec.case(f"{name} {kind} {n}", 0)
                s.recovered(f"{name}/{kind}", f"{kind} at operation {n} ({what}) of {ops}")
                if rec.fails:
                    return
        if name != "polar17":
            return
        # a torn large file: a few positions per file, killed and failing
        for j in range(writes) if tier == "thorough" else (1,):
            for k in (0, 64, 128, 131, 700, 4097, 20000) if tier == "thorough" else (700,):
                for kind in ("tear", "error") if tier == "thorough" else ("tear",):
                    vh.restore(s.root)
                    struck, out = s.inject(kind, (j, k))
                    if struck:
                        rec.case(f"{name} {kind} {j} {k}", 0)
                        s.recovered(f"{name}/{kind}", f"{kind} of file {j} at byte {k}")
                    if rec.fails:
                        return
        return

    if sc["mode"] == "twice":
        # a second fault while recovering from the first
        spots = [("kill", n) for n in range(len(ops))] + [("tear", (j, k)) for j in range(writes) for k in (0, 100, 130)]
        for first in spots:
            vh.restore(s.root)
            s.inject(*first)
            mid = vh.snapshot()
            for second in spots if tier == "thorough" else spots[:: max(1, len(spots) // (2 if mesh else 5))]:
                vh.restore(mid)
                struck, _ = s.inject(*second)
                if struck:
                    rec.case(f"{name} {first} {second}", 0)
                s.recovered(f"{name}/twice", f"{first} then {second}")
                if rec.fails:
                    return
        return

    for j in range(writes):
        # measure the file by cutting it: beyond its end the fault cannot strike
        size = file_size(s, j)
        todo = positions(size, tier, mesh, name)
        for k in todo[sc["part"] :: sc["parts"]]:
            vh.restore(s.root)
            struck, out = s.inject("tear", (j, k))
            if not rec.expect(struck, f"{name}/tear/lost", f"cut of file {j} at byte {k} of {size} did not happen"):
                return
            rec.case(f"{name} tear {j} {k}", 0)
            s.recovered(f"{name}/tear", f"kill at byte {k} of {size} of file {j}")
            vh.restore(s.root)
            struck, out = s.inject("error", (j, k))
            rec.expect(out[0] == "raised", f"{name}/error/silent", f"write error at byte {k} of {size} of file {j}, but the construction returned")
            rec.case(f"{name} error {j} {k}", 0)
            s.recovered(f"{name}/error", f"write error at byte {k} of {size} of file {j}")
            if rec.fails:
                return


def file_size(s, j):
    """Smallest limit that lets the j-th file pass, by bisection."""
    lo, hi = 0, 1 << 20
    while lo < hi:
        mid = (lo + hi) // 2
        vh.restore(s.root)
        if vh.in_child(faulty, s.op, "tear", (j, mid))[0] == "ok":
            hi = mid
        else:
            lo = mid + 1
    return lo
