"""Harness shared by all checks: sandboxed import of sleplet, exhaustive
scenario engine, known findings, replay files and evidence.

A check is a module in /verif/checks with
  ID, LEVEL, RULE            constants
  scenarios(tier)            generator of JSON-able dicts: the bounded space
  run(sc, rec)               explores one scenario on the real code, reporting
                             through the Recorder `rec`
Optional: ASSUMPTIONS, TIMEOUT, WORKERS, BOUNDS(tier), prepare().
"""

import atexit
import fnmatch
import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import pathlib
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
_ROOT = None
STOP_AFTER = 400  # seconds, only once a violation was found


# --------------------------------------------------------------- sandbox
def _new_root():
    global _ROOT
    shm = pathlib.Path("/dev/shm")  # saving forces files to disk, which is slow
    try:
        fits = shutil.disk_usage(shm).free > 1 << 30 and os.access(shm, os.W_OK)
    except OSError:
        fits = False
    _ROOT = pathlib.Path(tempfile.mkdtemp(prefix="vh_", dir=shm if fits else None))
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(_ROOT, ignore_errors=True)

    atexit.register(clean)
    return _ROOT


def _point_home(base):
    for key in ("XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
        path = base / key.lower()
        path.mkdir(parents=True, exist_ok=True)
        os.environ[key] = str(path)


def boot():
    """Import sleplet from /repo with everything it writes redirected."""
    root = _new_root()
    _point_home(root / "main")
    for key in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[key] = "1"
    os.environ.setdefault("NUMBA_NUM_THREADS", "2")
    os.environ.setdefault("NUMBA_THREADING_LAYER", "workqueue")  # survives fork
    os.environ["PYTHONHASHSEED"] = "0"
    for key in (
        "NCPU POLAR_GAP SLEPIAN_MASK PHI_MAX PHI_MIN THETA_MAX THETA_MIN".split()
    ):
        os.environ.pop(key, None)
    sys.dont_write_bytecode = True
    sys.path.insert(0, str(REPO / "src"))
    import pooch

    REG.install(pooch)
    import sleplet

    assert str(REPO / "src") in sleplet.__file__, sleplet.__file__
    logging.getLogger("sleplet").setLevel(logging.CRITICAL)
    for name in list(logging.root.manager.loggerDict):
        if name.startswith("sleplet"):
            logging.getLogger(name).setLevel(logging.CRITICAL)
    logging.getLogger().setLevel(logging.ERROR)
    import warnings

    warnings.filterwarnings("ignore")
    import plotly.io as pio

    pio.show = SHOWN.show
    return sleplet


class _Registry:
    """Stand-in for the network behind pooch: the published registry."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}  # name -> path
        self.load_error = None
        self.fetch_error = None
        self.loads = 0
        self.fetches = []
        self.on_load = None

    def install(self, pooch):
        reg = self

        def load_registry_from_doi(this):
            reg.loads += 1
            if reg.load_error is not None:
                raise reg.load_error
            items = list(reg.files)
            if reg.on_load:
                reg.on_load(this, items)
            for name in items:
                this.registry[name] = "md5:0"

        def fetch(this, fname, *a, **k):
            reg.fetches.append(fname)
            if fname not in this.registry:
                raise ValueError(f"File '{fname}' is not in the registry.")
            if reg.fetch_error is not None:
                raise reg.fetch_error
            return str(reg.files[fname])

        pooch.Pooch.load_registry_from_doi = load_registry_from_doi
        pooch.Pooch.fetch = fetch


class _Shown:
    """Stand-in for plotly.io.show, recording the figure and its file name."""

    def __init__(self):
        self.figs = []

    def show(self, fig, *a, config=None, **k):
        name = ((config or {}).get("toImageButtonOptions") or {}).get("filename")
        self.figs.append((fig, name))

    def take(self):
        figs, self.figs = self.figs, []
        return figs


REG = _Registry()
SHOWN = _Shown()


def data_dir():
    return pathlib.Path(os.environ["XDG_DATA_HOME"])


def clear_data():
    path = data_dir()
    if path.exists():
        shutil.rmtree(path)
    path.mkdir(parents=True)


def snapshot():
    """The content of the data directory: the persisted state."""
    path = data_dir()
    if not path.exists():
        return {}
    return {
        str(f.relative_to(path)): f.read_bytes()
        for f in sorted(path.rglob("*"))
        if f.is_file()
    }


def restore(snap):
    clear_data()
    for name, content in snap.items():
        f = data_dir() / name
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_bytes(content)


def digest(obj):
    h = hashlib.sha256()
    if isinstance(obj, dict):
        for k in sorted(obj):
            h.update(k.encode() + b"\0" + obj[k] + b"\0")
    else:
        h.update(json.dumps(obj, sort_keys=True, default=str).encode())
    return h.hexdigest()[:16]


def reset_data_source():
    """Forget the module-level registry, as in a new process."""
    mod = importlib.import_module("sleplet._data.setup_pooch")
    importlib.reload(mod)


def in_child(fn, *args, timeout=600):
    """Run fn in a forked process; its result, or how it died, is returned as
    ("ok", value), ("raised", type name, text) or ("killed", signal)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            signal.alarm(timeout)
            try:
                out = ("ok", fn(*args))
            except BaseException as e:  # noqa: BLE001
                out = ("raised", type(e).__name__, str(e)[:600])
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return ("killed", os.WTERMSIG(status), "")
    if not data:
        return ("killed", 0, "no result")
    return pickle.loads(data)


# --------------------------------------------------------------- recording
class Recorder:
    def __init__(self, sc):
        self.sc = sc
        self.fails = []
        self.counts = {}
        self.keys = set()
        self.sample = None

    def fail(self, key, msg, **detail):
        if len(self.fails) < 20:
            self.fails.append({"key": key, "msg": str(msg)[:1500], "detail": detail})

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def case(self, nontrivial_key=None, n=1):
        """One evaluation; non-trivial ones are counted by distinct key."""
        self.count("evaluations", n)
        if nontrivial_key is not None:
            self.keys.add(str(nontrivial_key))

    def expect(self, ok, key, msg, **detail):
        self.count("assertions")
        if not ok:
            self.fail(key, msg() if callable(msg) else msg, **detail)
        return ok

    def close(self, a, b, tol, key, what, **detail):
        import numpy as np

        self.count("assertions")
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(key, f"{what}: shape {a.shape} instead of {b.shape}", **detail)
            return False
        if a.size == 0:
            return True
        with np.errstate(all="ignore"):
            err = np.abs(a - b)
        worst = err.max()
        if not worst <= tol:  # catches NaN
            idx = np.unravel_index(int(np.nanargmax(err)) if not np.isnan(err).all() else 0, a.shape)
            self.fail(
                key,
                f"{what}: {a[idx]!r} instead of {b[idx]!r} at {tuple(map(int, idx))} "
                f"(max difference {worst!r} > {tol})",
                **detail,
            )
            return False
        return True

    def raises(self, fn, exc, key, what):
        self.count("assertions")
        try:
            got = fn()
        except exc:
            return True
        except Exception as e:  # noqa: BLE001
            self.fail(key, f"{what}: raised {type(e).__name__}: {e}")
            return False
        self.fail(key, f"{what}: accepted, giving {str(got)[:200]}")
        return False


# --------------------------------------------------------------- engine
_CHECK = None


def _worker_init(counter):
    with counter.get_lock():
        counter.value += 1
        n = counter.value
    _point_home(_ROOT / f"w{n}_{os.getpid()}")
    random.seed(0)


class ScenarioTimeout(Exception):
    pass


def _alarm(*_):
    raise ScenarioTimeout


def _one(job):
    idx, sc = job
    rec = Recorder(sc)
    t = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(_CHECK, "TIMEOUT", 400))
    try:
        clear_data()
        REG.reset()
        SHOWN.take()
        _CHECK.run(sc, rec)
    except ScenarioTimeout:
        rec.fail("timeout", "scenario did not finish")
    except Exception as e:  # noqa: BLE001
        rec.fail(
            f"exception:{type(e).__name__}",
            f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-1200:]}",
        )
    finally:
        signal.alarm(0)
    return idx, rec.fails, rec.counts, rec.keys, rec.sample, time.time() - t


def load_known(pid):
    known, fixed = [], []
    path = VERIF / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                head, what = line.split(" :: ", 1)
                fields = dict(x.split("=", 1) for x in head.split()[1:])
                if fields["property"] == pid:
                    known.append((fields["key"], what))
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known


def unlisted(fails, pid):
    """Failures other than the known findings."""
    known = load_known(pid)
    return [x for x in fails if not any(fnmatch.fnmatchcase(x["key"], p) for p, _ in known)]


def main(argv=None):
    global _CHECK
    argv = sys.argv[1:] if argv is None else argv
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    verbose = False
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--tier":
            tier = rest.pop(0)
        elif a == "--replay":
            replay = rest.pop(0)
        elif a == "-v":
            verbose = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.environ["VERIF_TIER"] = tier
    boot()
    sys.path.insert(0, str(VERIF / "checks"))
    _CHECK = importlib.import_module(pid.lower())
    ctx = multiprocessing.get_context("fork")
    if hasattr(_CHECK, "prepare"):
        _CHECK.prepare()

    if replay:
        sc = json.loads(pathlib.Path(replay).read_text())["scenario"]
        scs = [sc]
    else:
        scs = list(_CHECK.scenarios(tier))
        assert scs, "empty space"
        random.Random(seed).shuffle(scs)
        # long scenarios first, order within a cost class is the seed's
        scs.sort(key=lambda s: -s.get("cost", 1))
    workers = min(getattr(_CHECK, "WORKERS", 8), len(scs))
    counter = ctx.Value("i", 0)
    jobs = list(enumerate(scs))
    counts, keys, samples, fails = {}, set(), [], []
    slow = []
    with ctx.Pool(workers, initializer=_worker_init, initargs=(counter,),
                  maxtasksperchild=getattr(_CHECK, "TASKS_PER_PROCESS", None)) as pool:
        for idx, f, c, k, s, dt in pool.imap_unordered(_one, jobs, chunksize=1):
            for name, n in c.items():
                counts[name] = counts.get(name, 0) + n
            keys |= k
            if s is not None and len(samples) < 4:
                samples.append(s)
            slow.append((dt, scs[idx]))
            for x in f:
                x["scenario"] = scs[idx]
                fails.append(x)
            # something is broken and the rest may be slow: report what is known
            if fails and (time.time() - t0 > STOP_AFTER or os.environ.get("VERIF_STOP") and unlisted(fails, pid)):
                print("stopping early, violations were found")
                pool.terminate()
                break
    if verbose:
        for dt, sc in sorted(slow, key=lambda x: -x[0])[:8]:
            print(f"  {dt:.1f}s {json.dumps(sc)[:200]}")

    known = load_known(pid)
    hit, new = set(), []
    for x in fails:
        for pattern, what in known:
            if fnmatch.fnmatchcase(x["key"], pattern):
                hit.add(what)
                break
        else:
            new.append(x)
    for what in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {what}")
    if not replay:
        for _, what in known:
            if what not in hit:
                print(f"note: listed finding not seen in this run: {what}")

    level = _CHECK.LEVEL
    cov = dict(counts)
    cov["scenarios"] = len(scs)
    cov["samples"] = samples or [scs[0]]
    cov["exhaustive"] = True
    if hasattr(_CHECK, "BOUNDS"):
        cov["bounds"] = _CHECK.BOUNDS(tier)
    cov["rule"] = _CHECK.RULE
    if level == "model_checking":
        for name in ("states", "transitions", "traces_validated_against_impl"):
            cov.setdefault(name, 0)
        if keys and hasattr(_CHECK, "KEYS_AS"):
            cov[_CHECK.KEYS_AS] = len(keys)
    else:
        cov.setdefault("evaluations", 0)
        cov["distinct_nontrivial"] = len(keys)
    new_by_key = {}
    for x in new:
        new_by_key.setdefault(x["key"], x)
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(_CHECK, "ASSUMPTIONS", []),
        "violations": len(new_by_key),
        "known_findings": sorted(hit),
        "wall_s": round(time.time() - t0, 2),
    }
    if not replay:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{pid}.json").write_text(
            json.dumps(evidence, indent=1, default=str) + "\n"
        )
    brief = {k: v for k, v in cov.items() if isinstance(v, int)}
    print(f"{pid} {tier}: {brief} wall={evidence['wall_s']}s")
    if new_by_key:
        for key, x in list(new_by_key.items())[:5]:
            name = hashlib.sha256((key + json.dumps(x["scenario"], sort_keys=True)).encode()).hexdigest()[:12]
            path = VERIF / "replays" / pid / f"{name}.json"
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(json.dumps(
                {"property": pid, "scenario": x["scenario"] | x["detail"].get("replay", {}), "key": key,
                 "msg": x["msg"], "detail": x["detail"],
                 "run": f"./check {pid} --replay {path}"}, indent=1, default=str))
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  [{key}] {x['msg']}")
            print(f"  scenario: {json.dumps(x['scenario'])[:400]}")
        return 1
    empty = "evaluations" if level != "model_checking" else "transitions"
    if not cov.get(empty) and not replay:
        print("the check explored nothing")
        return 2
    print("held on everything explored")
    return 0
