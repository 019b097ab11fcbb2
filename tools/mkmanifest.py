"""Writes MANIFEST.json from the check modules present (run from /verif)."""
import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent
TECH = {
    "C01": "explicit-state search over persisted data-directory states, run on the real code",
    "C02": "exhaustive crash and torn-write enumeration over the recorded file operations of real saves",
    "C03": "exhaustive exploration of lookup histories, and of two-thread interleavings under a controlled scheduler, on the real code",
    "C04": "stateless exploration of worker interleavings up to a preemption bound under a controlled scheduler, on the real code",
    "C05": "exhaustive fault injection at every elementary computation of every worker, under a controlled scheduler",
    "C22": "explicit-state search over all interleavings of the file operations of concurrent processes, and of threads up to a preemption bound, run on the real code",
    "C23": "exhaustive exploration of operation histories within one process, on the real code in forked processes, each compared with a new process",
    "C15": "explicit-state search over operation sequences on one object, against reference rotations",
}
DEFAULT = "bounded exhaustive enumeration of inputs and configurations on the real code, judged by an independent reference model"
NOTE = {
    "C01": "All construction histories within the bounds explored to closure of the persisted states (states are identified by the bytes saved); trusts that the constructors' only persistent state is the data directory. Values compared with a construction in an empty directory, up to sign and the basis of equal eigenvalues.",
    "C02": "Every cut of every write and every state between file operations that the real run performs, including a second crash; kill model is process death with completed system calls kept (no power-loss reordering).",
    "C03": "All fault combinations and lookup sequences to the depth and all two-thread schedules to the preemption bound at line granularity; the network is a stand-in for pooch's two entry points.",
    "C04": "All schedules to the preemption bound at line granularity of the Python code of the assembly (numba-compiled kernels are atomic); threads are controlled through a stand-in executor.",
    "C05": "A fault at every elementary computation for every worker count within the bounds, and every schedule around the fault to the preemption bound; faults are exceptions, not process kills (C02).",
    "C22": "All interleavings of the operations on shared files (states reached are identified by what each run has done and seen and by the directory); an operation is atomic, and a write is visible as an empty and as a complete file. Threads to a preemption bound.",
    "C23": "Every ordered pair of the alphabet (within a kind with overwriting and repetition, other kinds in one long history after each operation), all triples within a kind in the thorough tier; the digest of module-level state shows two process states, from both of which every operation was run. Eigensolutions are loaded (C01 explores computing them).",
    "C15": "All operation sequences to the depth on each function; angles on a grid; reference rotations evaluated independently of ssht.",
}
DEFAULT_NOTE = "Complete within the bounds stated in the evidence; oracle computed independently from the definitions (numpy/scipy, no sleplet code), tolerances far below any genuine effect. Nothing is claimed beyond the bounds."
NOT_YET = "no check registered yet"
ids = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for pid in ids:
    mod = root / "checks" / f"{pid.lower()}.py"
    if not mod.exists():
        na.append({"property": pid, "reason": NOT_YET})
        continue
    level = re.search(r'^LEVEL = "(\w+)"', mod.read_text(), re.M).group(1)
    checks.append({
        "property": pid,
        "quick_cmd": f"./check {pid} --tier quick",
        "thorough_cmd": f"./check {pid} --tier thorough",
        "technique": TECH.get(pid, DEFAULT),
        "level": level,
        "level_note": NOTE.get(pid, DEFAULT_NOTE),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks import sleplet from /repo/src as it is now; nothing is cached between runs. See DESIGN.md.",
}, open(root / "MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
