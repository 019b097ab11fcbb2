"""Parallel assembly: all interleavings of the workers up to a preemption
bound, explored on the real code under a controlled scheduler, and all worker
counts under the default and the reversed schedule."""

import os

import numpy as np

import assembly
import sched

ID = "C04"
LEVEL = "model_checking"
RULE = (
    "stateless exploration of the implementation: a schedule is a sequence of "
    "choices at the decision points (every line, or every bytecode, of a worker "
    "frame that can reach mutable state, and every blocking point); all "
    "schedules with at most the stated number of preemptions are executed. "
    "states = decision points visited, transitions = schedules executed"
)
ASSUMPTIONS = [
    "a line (in the bytecode scenarios, a bytecode) runs atomically, as does a call into compiled code",
    "frames whose locals and globals are all immutable cannot interfere and are not interrupted",
    "the thread pool is replaced by a stand-in with the same interface and at most max_workers running tasks",
]
TIMEOUT = 860

def pol(L, deg, order=None, gap=False):
    return {"k": "polar", "L": L, "deg": deg, "order": order, "gap": gap}


def arb(L, name):
    return {"k": "mask", "L": L, "name": name}


def mesh(b, name="cube"):
    return {"k": "mesh", "b": b, "name": name}


def spaces(tier):
    """(subject, ncpu, preemptions, bytecode granularity, parts)"""
    if tier == "quick":
        return [
            (pol(2, 50), 2, 1, False, 8),
            (pol(3, 50, 0), 2, 1, False, 4),
            (pol(3, 70, -1, True), 3, 1, False, 12),
            (pol(2, 50, 0), 2, 1, True, 8),
            (arb(2, "blob"), 2, 1, False, 4),
            (arb(2, "stripe"), 3, 1, False, 8),
            (arb(2, "blob"), 2, 1, True, 8),
            (mesh(3), 2, 2, False, 8),
            (mesh(3), 3, 1, True, 16),
            (mesh(4, "homer"), 3, 1, False, 4),
        ]
    return [
        (pol(2, 50), 2, 2, False, 64),
        (pol(3, 50), 3, 1, False, 24),
        (pol(3, 50, 0), 2, 2, False, 64),
        (pol(2, 50, 0, True), 2, 2, False, 16),
        (pol(2, 50, 0), 2, 1, True, 8),
        (pol(4, 40, 0), 3, 1, False, 16),
        (arb(2, "blob"), 2, 2, False, 64),
        (arb(2, "stripe"), 4, 1, False, 16),
        (arb(3, "stripe"), 2, 1, False, 32),
        (arb(2, "blob"), 2, 1, True, 8),
        (arb(2, "stripe"), 3, 1, True, 16),
        (mesh(3), 2, 3, False, 64),
        (mesh(3), 3, 2, False, 32),
        (mesh(4), 2, 2, False, 16),
        (mesh(4, "homer"), 4, 1, False, 4),
        (mesh(3), 3, 1, True, 8),
    ]


def sweeps(tier):
    big = tier == "thorough"
    for L in range(1, 7 if big else 5):
        for gap in (False, True):
            yield pol(L, 40, None, gap), L + 3
    for L in range(1, 4 if big else 3):
        for name in ("blob", "stripe"):
            yield arb(L, name), L * L + 3
    for b in range(1, 9 if big else 6):
        yield mesh(b), b + 3
    if not big:
        yield arb(3, "stripe"), 5
    yield mesh(6, "bird"), 9


def BOUNDS(tier):
    return {
        "schedules": [{"subject": a, "workers": b, "preemptions": c, "granularity": "bytecode" if d else "line"} for a, b, c, d, _ in spaces(tier)],
        "worker_counts": [{"subject": a, "workers": f"1..{n}"} for a, n in sweeps(tier)],
    }


def prepare():
    assembly.watch_shared_memory()
    sched.install()


def scenarios(tier):
    yield {"mode": "chunks", "n": 70 if tier == "quick" else 160}
    for sub, n in sweeps(tier):
        yield {"mode": "workers", "sub": sub, "max": n, "cost": 3}
    for sub, ncpu, bound, op, parts in spaces(tier):
        for part in range(parts):
            yield {"mode": "schedules", "sub": sub, "ncpu": ncpu, "bound": bound, "opcodes": op, "part": part, "parts": parts, "cost": 10}


def chunks(sc, rec):
    from sleplet._parallel_methods import split_arr_into_chunks

    for n in range(sc["n"]):
        for ncpu in range(1, sc["n"] + 8):
            got = split_arr_into_chunks(n, ncpu)
            flat = np.concatenate([np.asarray(c, dtype=float).ravel() for c in got]) if len(got) else np.zeros(0)
            rec.count("partitions")
            if not rec.expect(sorted(flat.tolist()) == list(range(n)), "chunks", f"rows of {n} among {ncpu} workers: {[list(map(int, c)) for c in got]}"):
                return
            rec.expect(len(got) <= ncpu, "chunks/workers", f"{len(got)} chunks for {ncpu} workers")


def run(sc, rec):
    if sc["mode"] == "chunks":
        chunks(sc, rec)
        return
    sub = sc["sub"]
    want = assembly.serial(sub)
    rec.expect(not assembly.leaked(), sub["k"] + "/leak", "serial computation left shared memory behind")
    body = assembly.body(sub)
    key = sub["k"]

    def judge(s, out, overrides, what):
        rec.count("transitions")
        rec.count("traces_validated_against_impl")
        rec.count("states", len(s.points))
        n = len(rec.fails)
        left = assembly.leaked()
        if s.deadlock:
            rec.fail(key + "/deadlock", what)
        elif out[0] != "ok":
            rec.fail(key + "/raises", f"{what}: {out[1]}")
        else:
            assembly.same(rec, out[1], want, key, what)
            rec.expect(not left, key + "/leak", f"{what}: shared memory {left} left behind")
        for f in rec.fails[n:]:
            f["detail"]["replay"] = {"only": {str(k): v for k, v in overrides.items()}, "ncpu": int(os.environ["NCPU"])}
        return len(rec.fails) < 3

    if sc["mode"] == "workers" and "only" not in sc:
        for ncpu in range(1, sc["max"] + 1):
            os.environ["NCPU"] = str(ncpu)
            for last_first in (False, True):
                # reversed: at every blocking point the last worker goes first
                s, out = sched.run_one(body, traced=False)
                over = {}
                while last_first:
                    nxt = next((j for j, (o, c, e) in enumerate(s.points) if j > max(over, default=-1) and not e and o and c != max(o)), None)
                    if nxt is None:
                        break
                    over[nxt] = max(s.points[nxt][0])
                    s, out = sched.run_one(body, over, traced=False)
                judge(s, out, over, f"{sub} with NCPU={ncpu}")
        return
    os.environ["NCPU"] = str(sc["ncpu"])
    if "only" in sc:
        over = {int(k): v for k, v in sc["only"].items()}
        s, out = sched.run_one(body, over, opcodes=sc.get("opcodes", False), traced=sc["mode"] == "schedules")
        judge(s, out, over, f"{sub}, NCPU={sc['ncpu']}, schedule {over}")
        return
    sched.explore(
        body,
        sc["bound"],
        lambda s, out, over: judge(s, out, over, f"{sub}, NCPU={sc['ncpu']}, schedule {over}"),
        part=sc["part"],
        parts=sc["parts"],
        opcodes=sc["opcodes"],
    )
    rec.sample = {"subject": sub, "workers": sc["ncpu"], "preemptions": sc["bound"]}
