"""A worker fails: an exception is thrown into a worker at every single
event (function entry, line or bytecode) of the parallel assembly."""

import os

import numpy as np

import assembly
import sched
import vh

ID = "C05"
LEVEL = "fault_enumeration"
RULE = (
    "one evaluation is one construction with an exception thrown at the k-th "
    "worker event (function entry or line), k running over all events of the "
    "run, for each worker count, schedule and exception type; distinct "
    "non-trivial ones are those where the exception was thrown, keyed by "
    "construction, workers, schedule and k"
)
ASSUMPTIONS = [
    "failures are exceptions raised in a worker; a killed process is C02's",
    "schedules: run the started worker on (default), last worker first, and in the preemption scenarios every single preemption",
]
TIMEOUT = 860
KINDS = {
    "Injected": sched.Injected,
    "TypeError": TypeError,
    "MemoryError": MemoryError,
    "FileNotFoundError": FileNotFoundError,
    "KeyError": KeyError,
    "StopIteration": StopIteration,
    "AssertionError": AssertionError,
    "ValueError": ValueError,
    "RuntimeError": RuntimeError,
    "OSError": OSError,
    "FloatingPointError": FloatingPointError,
    "ZeroDivisionError": ZeroDivisionError,
    "IndexError": IndexError,
    "AttributeError": AttributeError,
    "TimeoutError": TimeoutError,
    "LinAlgError": np.linalg.LinAlgError,
    "NotImplementedError": NotImplementedError,
}


def pol(L, deg, order=None, gap=False):
    return {"k": "polar", "L": L, "deg": deg, "order": order, "gap": gap}


def arb(L, name):
    return {"k": "mask", "L": L, "name": name}


def mesh(b, name="cube"):
    return {"k": "mesh", "b": b, "name": name}


def spaces(tier):
    """(subject, worker counts, stride of k, exceptions, parts)"""
    some = ["TypeError", "MemoryError", "FileNotFoundError"]
    every = list(KINDS)
    if tier == "quick":
        return [
            (pol(2, 50), [1, 2, 4], 1, ["Injected"], 6),
            (pol(2, 50, None, True), [2], 5, some, 2),
            (pol(3, 50, 0), [2, 3], 1, ["Injected"], 4),
            (arb(2, "blob"), [1, 2, 3, 6], 1, ["Injected"], 6),
            (arb(2, "stripe"), [2], 5, some, 2),
            (mesh(3), [1, 2, 3, 4], 1, ["Injected"], 2),
            (mesh(4, "homer"), [3], 2, some, 4),
            (pol(2, 50), [2], 19, every, 2),
            (arb(2, "blob"), [2], 19, every, 2),
            (mesh(3), [2], 11, every, 2),
        ]
    return [
        (pol(2, 50), [1, 2, 3, 4], 1, every, 32),
        (pol(3, 50), [1, 2, 4], 1, ["Injected"], 24),
        (pol(3, 50, 0), [1, 2, 3, 5], 1, every, 24),
        (pol(3, 70, -2, True), [2], 1, every, 8),
        (arb(2, "blob"), [1, 2, 3, 4, 6], 1, every, 32),
        (arb(3, "stripe"), [2, 5], 1, ["Injected"], 24),
        (mesh(3), [1, 2, 3, 4], 1, every, 16),
        (mesh(6), [1, 2, 4, 8], 1, ["Injected"], 8),
        (mesh(4, "homer"), [3], 1, every, 8),
    ]


def preempted(tier):
    if tier == "quick":
        return [(mesh(2), 2, 8)]
    return [(mesh(2), 2, 8), (mesh(3), 2, 24), (mesh(2), 3, 16)]


def BOUNDS(tier):
    return {"faults": [{"subject": a, "workers": b, "every": c, "exceptions": d} for a, b, c, d, _ in spaces(tier)], "with_one_preemption": [{"subject": a, "workers": b} for a, b, _ in preempted(tier)]}


def prepare():
    assembly.watch_shared_memory()
    sched.install()


def scenarios(tier):
    for sub, ncpus, stride, kinds, parts in spaces(tier):
        for part in range(parts):
            yield {"sub": sub, "ncpus": ncpus, "stride": stride, "kinds": kinds, "part": part, "parts": parts, "cost": 5}
    for sub, ncpu, parts in preempted(tier):
        for part in range(parts):
            yield {"sub": sub, "ncpus": [ncpu], "stride": 1, "kinds": ["Injected"], "part": part, "parts": parts, "preempt": True, "cost": 6}


def run(sc, rec):
    sub = sc["sub"]
    want = assembly.serial(sub)
    assembly.leaked()
    body = assembly.body(sub)
    key = sub["k"]

    def attempt(ncpu, over, k, kind):
        os.environ["NCPU"] = str(ncpu)
        what = f"{sub}, NCPU={ncpu}, {kind} at worker event {k}, schedule {over}"
        n = len(rec.fails)
        rec.count("evaluations")
        s, out = sched.run_one(body, over, fault=k, fault_exc=KINDS[kind])
        what += f" ({s.fault_where})"
        if not s.fault_hit:
            rec.count("faults_not_reached")
            if out[0] == "ok":
                assembly.same(rec, out[1], want, key + "/nofault", what)
            return
        rec.keys.add(f"{sub} {ncpu} {over} {k} {kind}")
        if s.deadlock:
            rec.fail(key + "/deadlock", what)
        else:
            rec.expect(out[0] == "raised", key + "/silent", f"{what}: the construction returned")
        left = assembly.leaked()
        rec.expect(not left, key + "/leak", f"{what}: shared memory {left} left behind")
        files = assembly.persisted()
        rec.expect(not files, key + "/persisted", f"{what}: {files} saved")
        # the same directory, without the fault
        snap = vh.snapshot()
        real = vh.clear_data
        vh.clear_data = lambda: None
        try:
            s, out = sched.run_one(body, traced=False)
        finally:
            vh.clear_data = real
        if out[0] != "ok":
            rec.fail(key + "/later", f"{what}: a later construction {out}", files=sorted(snap))
        else:
            assembly.same(rec, out[1], want, key + "/later", what)
        left = assembly.leaked()
        rec.expect(not left, key + "/later/leak", f"{what}: later construction left {left}")
        for f in rec.fails[n:]:
            f["detail"]["replay"] = {"only": [ncpu, {str(a): b for a, b in over.items()}, k, kind]}

    if "only" in sc:
        ncpu, over, k, kind = sc["only"]
        attempt(ncpu, {int(a): b for a, b in over.items()}, k, kind)
        return
    for ncpu in sc["ncpus"]:
        os.environ["NCPU"] = str(ncpu)
        base, out = sched.run_one(body)
        if not rec.expect(out[0] == "ok", key + "/raises", f"{sub}, NCPU={ncpu}: {out}"):
            return
        schedules = [{}]
        if sc.get("preempt"):
            schedules = [o for o, _ in sched.children(base, {}, 0, 1)]
        elif ncpu > 1:
            # last worker first
            first = next((j for j, (o, c, e) in enumerate(base.points) if not e and o and max(o) != c), None)
            if first is not None:
                schedules.append({first: max(base.points[first][0])})
        for i, over in enumerate(schedules):
            if sc.get("preempt") and i % sc["parts"] != sc["part"]:
                continue
            ks = range(0, base.events, sc["stride"])
            if not sc.get("preempt"):
                ks = list(ks)[sc["part"] :: sc["parts"]]
            for k in ks:
                for kind in sc["kinds"]:
                    attempt(ncpu, over, k, kind)
                if len(rec.fails) > 3:
                    return
    rec.sample = {"subject": sub, "workers": sc["ncpus"], "events": base.events}
