"""Concurrent runs: several processes (or threads) construct objects over one
data directory; every interleaving of their file-system operations is run."""

import builtins
import io
import multiprocessing
import os
import signal
import sys
import threading

import c01
import datafiles
import vh

ID = "C22"
LEVEL = "model_checking"
RULE = (
    "explicit-state search over interleavings: two or three runs stop before "
    "every operation on the data directory (and after opening a file for "
    "writing), each run being a process; a state is what each run has done and "
    "seen so far and the content of the directory, a transition lets one run "
    "carry on to its next operation; all states reachable from the initial "
    "directories are visited.  Threads of one process share memory, so for them "
    "all schedules up to the preemption bound are run instead"
)
ASSUMPTIONS = [
    "an operation (look at, open, rename, remove a file) is atomic, and so is reading a file that is open; "
    "a write is visible in two steps, an empty and a complete file",
    "operations on a temporary file only one run uses commute with those of the others "
    "(they are stopped at as well when a run lists the directory)",
]
TIMEOUT = 860

P, R, A, M, S = c01.P, c01.R, c01.A, c01.M, c01.S
PAIRS = {
    "cap": [P(2, 50), P(2, 50)],
    "cap-order": [P(2, 50), P(2, 50, False, 0)],
    "cap-gap": [P(2, 30), P(2, 30, True)],
    "gap": [P(2, 50, True), P(2, 50, True)],
    "rectangle": [R(2, 20, 120, 30, 300), R(2, 20, 120, 30, 300)],
    "cap-rectangle": [R(2, 0, 50, 0, 360), P(2, 50)],
    "mask": [A(2, "blob"), A(2, "blob")],
    "masks": [A(2, "blob"), A(2, "stripe")],
    "africa": [A(2, "africa"), A(2, "africa")],
    "america": [A(2, "south_america"), A(2, "africa")],
    "mesh": [M("cube", 3), M("cube", 3)],
    "meshes": [M("cube", 3), M("cube", 4)],
    "meshslepian": [S("cube", 4), S("cube", 4)],
    "mesh-meshslepian": [M("cube", 4), S("cube", 4)],
}
TRIPLES = {
    "three caps": [P(2, 50), P(2, 50), P(2, 50, False, 1)],
    "three rectangles": [R(2, 20, 120, 30, 300)] * 3,
    "three masks": [A(2, "blob")] * 3,
}
MAX_STATES = 20000
PARTS = 6
LISTING = "."


def prepare():
    os.environ["NCPU"] = "1"
    c01.initial()
    c01.make(R(2, 20, 120, 30, 300))  # compile before forking
    vh.clear_data()


def spaces(tier):
    out = dict(PAIRS)
    if tier == "thorough":
        out |= TRIPLES
    return out


def bound(tier):
    return 1 if tier == "quick" else 2


def BOUNDS(tier):
    return {"runs": spaces(tier), "interleavings": "all", "thread_preemptions": bound(tier),
            "initial_directories": "empty; for " + ("cap and mesh" if tier == "quick" else "all") + " also every one a killed run of the first leaves behind"}


def scenarios(tier):
    for name, ops in spaces(tier).items():
        # the basis functions of a mesh are only saved by its own scenarios
        ready = [M(*[ops[0][k] for k in ("name", "b")])] if name == "meshslepian" and tier == "quick" else []
        slow = 10 if name in ("mesh-meshslepian", "meshslepian") else 3 if name.startswith("mesh") else 1
        crashed = tier == "thorough" or name in ("cap", "mesh")
        for part in range(PARTS if crashed else 1):
            yield {"mode": "processes", "name": name, "ops": ops, "ready": ready, "crashed": crashed, "part": part, "cost": 50 * len(ops) * slow}
        if len(ops) == 2:
            yield {"mode": "threads", "name": name, "ops": ops, "bound": bound(tier), "cost": 20}


# ------------------------------------------------------------- one actor
def relative(path):
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(path, os.PathLike):
        path = os.fspath(path)
    if not isinstance(path, str):
        return None
    base = str(vh.data_dir())
    if path.rstrip(os.sep) == base:
        return LISTING
    base += os.sep
    return path[len(base):] if path.startswith(base) else None


def hook_files(link_of):
    """Stop the caller at each operation on the data directory."""
    inside = threading.local()

    def point(kind, *paths):
        link = link_of()
        names = [n for n in map(relative, paths) if n]
        if names == [LISTING] and kind not in ("os.listdir", "os.scandir"):
            return
        if link is None or not names or getattr(inside, "on", False):
            return
        inside.on = True
        try:
            link.send(("at", kind, names))
            link.recv()
        finally:
            inside.on = False

    def audit(event, args):
        if event == "open":
            kind = "write" if isinstance(args[2], int) and args[2] & (os.O_WRONLY | os.O_RDWR) else "read"
            point(kind, args[0])
        elif event in ("os.rename", "os.link", "os.symlink"):
            point(event, args[0], args[1])
        elif event in ("os.remove", "os.truncate", "os.listdir", "os.scandir"):
            point(event, args[0])

    real_open, real_stat = io.open, os.stat

    def opened(file, mode="r", *a, **k):
        f = real_open(file, mode, *a, **k)
        if set(mode) & set("wxa+"):
            point("opened", file)
        return f

    def stat(path, *a, **k):
        point("look", path)
        return real_stat(path, *a, **k)

    sys.addaudithook(audit)
    io.open = builtins.open = opened
    os.stat = stat


def attempt(op, link):
    try:
        out = ("ok", c01.make(op))
    except Exception as e:  # noqa: BLE001
        out = ("raised", type(e).__name__, str(e)[:400])
    link.send(("done", out))


def process_main(op, link):
    try:
        signal.alarm(120)
        hook_files(lambda: link)
        attempt(op, link)
    finally:
        os._exit(0)


def threads_main(ops, links):
    """All runs as threads of this process."""
    try:
        signal.alarm(120)
        mine = threading.local()
        hook_files(lambda: getattr(mine, "link", None))

        def body(op, link):
            mine.link = link
            attempt(op, link)

        todo = [threading.Thread(target=body, args=x) for x in zip(ops, links, strict=True)]
        for t in todo:
            t.start()
        for t in todo:
            t.join()
    finally:
        os._exit(0)


# ------------------------------------------------------------- controller
class Live:
    """One execution, advanced operation by operation."""

    def __init__(self, ops, root, private, threads, listed=False):
        self.listed = listed
        vh.restore(root)
        self.private = private
        n = len(ops)
        pairs = [multiprocessing.Pipe() for _ in ops]
        self.links = [p[0] for p in pairs]
        self.pids = []
        for a in range(1 if threads else n):
            pid = os.fork()
            if pid == 0:
                try:
                    if threads:
                        threads_main(ops, [p[1] for p in pairs])
                    else:
                        process_main(ops[a], pairs[a][1])
                finally:
                    os._exit(1)
            self.pids.append(pid)
        for p in pairs:
            p[1].close()
        self.at = [None] * n
        self.out = [None] * n
        self.trace = [[] for _ in range(n)]
        self.alias = [{} for _ in range(n)]
        for a in range(n):
            self.wait(a)

    def name(self, a, name):
        if name in self.private[a] or not self.private[a].stable(name):
            return f"own{a}.{self.alias[a].setdefault(name, len(self.alias[a]))}"
        return name

    def receive(self, a):
        if not self.links[a].poll(60):
            self.out[a] = ("stuck", "", "")
            return None
        try:
            return self.links[a].recv()
        except EOFError:
            self.out[a] = ("died", "", "")
            return None

    def wait(self, a):
        """Until the run is at an operation others can notice, or done."""
        while True:
            msg = self.receive(a)
            if msg is None:
                self.at[a] = None
                return
            if msg[0] == "done":
                self.out[a] = msg[1]
                self.at[a] = None
                return
            names = [self.name(a, x) for x in msg[2]]
            self.at[a] = (msg[1], names, msg[2])
            if not self.listed and all(x.startswith("own") for x in names):
                self.links[a].send(True)
                continue
            return

    def step(self, a):
        kind, names, real = self.at[a]
        seen = []
        for shown, name in zip(names, real, strict=True):
            if name == LISTING:
                seen.append(sorted(map(self.shown, os.listdir(vh.data_dir()))))
            elif not shown.startswith("own"):
                f = vh.data_dir() / name
                try:
                    seen.append(vh.digest({"": f.read_bytes()}))
                except OSError:
                    seen.append(None)
        self.trace[a].append((kind, tuple(names), tuple(seen)))
        self.links[a].send(True)
        self.wait(a)

    def shown(self, name):
        for a, alias in enumerate(self.alias):
            if name in alias:
                return f"own{a}.{alias[name]}"
        return name

    def enabled(self):
        return [a for a, x in enumerate(self.at) if x is not None]

    def key(self):
        files = {self.shown(n): c for n, c in vh.snapshot().items()}
        return vh.digest([self.trace, [x and x[:2] for x in self.at], vh.digest(files)])

    def close(self):
        for pid in self.pids:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        for link in self.links:
            link.close()


class Names(set):
    """The temporary names of a run: those that differ from run to run."""

    def __init__(self, first, second):
        super().__init__()
        self.always = set(first) & set(second)
        # a run that lists the directory can reach the files of the others
        self.listed = LISTING in self.always

    def stable(self, name):
        return name in self.always


def mentioned(op, root):
    """The file names an undisturbed run uses."""
    vh.restore(root)

    class Tape:
        names = []

        def send(self, msg):
            if msg[0] == "at":
                self.names += msg[2]
            else:
                self.out = msg[1]

        def recv(self):
            return True

    tape = Tape()
    hook_files(lambda: tape)
    attempt(op, tape)
    return tape.names


def run(sc, rec):
    ops, name = sc["ops"], sc["name"]
    if c01.needs_files(ops):
        c01.initial()
    for op in sc.get("ready", []):
        vh.in_child(c01.make, op)
    root = vh.snapshot()
    want, private = [], []
    roots = [root]
    for op in ops:
        vh.restore(root)
        out = vh.in_child(c01.make, op)
        if not rec.expect(out[0] == "ok", f"{name}/alone", f"{op} alone: {out}"):
            return
        want.append(out[1])
        two = [vh.in_child(mentioned, op, root)[1] for _ in range(2)]
        private.append(Names(*two))
    if sc.get("crashed"):
        roots = (roots + crashed(ops[0], root))[sc["part"] :: PARTS]
    judged = set()
    for start in roots:
        (threads if sc["mode"] == "threads" else processes)(sc, rec, start, want, private, judged)
        if rec.fails:
            return
    rec.sample = {"name": name, "mode": sc["mode"], "initial_directories": len(roots)}


def crashed(op, root):
    """The directories a run killed at any operation leaves behind."""
    vh.restore(root)

    class Camera:
        shots = []

        def send(self, msg):
            self.shots.append(vh.snapshot())

        def recv(self):
            return True

    def film():
        camera = Camera()
        hook_files(lambda: camera)
        attempt(op, camera)
        return camera.shots

    out = vh.in_child(film)
    seen, shots = {contents(root)}, []
    for s in out[1]:
        if contents(s) not in seen:
            seen.add(contents(s))
            shots.append(s)
    return shots


def contents(files):
    """A key of the directory that ignores the names of temporary files."""
    final = sorted(x for x in files if x.endswith(".npy"))
    return vh.digest({str(k): c for k, c in enumerate(sorted(files.values()))} | {"names": repr(final).encode()})


def processes(sc, rec, root, want, private, judged):
    ops = sc["ops"]
    seen = set()
    stack = [()]
    while stack:
        prefix = stack.pop()
        live = Live(ops, root, private, False, any(x.listed for x in private))
        try:
            path = []
            for a in prefix:
                if a not in live.enabled():
                    rec.fail(f"{sc['name']}/replay", f"schedule {prefix} cannot be repeated: run {a} is not ready after {path}")
                    return
                live.step(a)
                path.append(a)
                rec.count("steps")
            while True:
                key = live.key()
                if key in seen:
                    break
                seen.add(key)
                rec.count("states")
                ready = live.enabled()
                if not ready:
                    finish(sc, rec, live, path, want, judged)
                    break
                stack += [(*path, b) for b in ready[1:]]
                live.step(ready[0])
                rec.count("transitions")
                rec.count("steps")
                path.append(ready[0])
            if prefix:
                rec.count("transitions")
        finally:
            live.close()
        if rec.fails:
            return
        if len(seen) > MAX_STATES:
            rec.count("cut_at_state_limit")
            return


def threads(sc, rec, root, want, private, judged):
    ops = sc["ops"]
    stack = [((), 0)]
    while stack:
        prefix, used = stack.pop()
        live = Live(ops, root, private, True, any(x.listed for x in private))
        try:
            path = []
            last = None
            while live.enabled():
                ready = live.enabled()
                if len(path) < len(prefix):
                    a = prefix[len(path)]
                    if a not in ready:
                        rec.fail(f"{sc['name']}/threads/replay", f"schedule {prefix} cannot be repeated")
                        return
                else:
                    a = last if last in ready else ready[0]
                    for b in ready:
                        cost = used + (last in ready)
                        if b != a and cost <= sc["bound"]:
                            stack.append(((*path, b), cost))
                live.step(a)
                rec.count("transitions")
                path.append(a)
                last = a
            rec.count("states")
            finish(sc, rec, live, path, want, judged, "/threads")
        finally:
            live.close()
        if rec.fails:
            return


def finish(sc, rec, live, path, want, judged, suffix=""):
    name = sc["name"] + suffix
    rec.count("executions_judged")
    rec.count("traces_validated_against_impl")
    n = len(rec.fails)
    for a, (op, out) in enumerate(zip(sc["ops"], live.out, strict=True)):
        if rec.expect(out[0] == "ok", f"{name}/raises", f"run {a} ({op}): {out}"):
            c01.compare(rec, op, out[1], want[a], name)
    d = contents(vh.snapshot())
    if not rec.fails and d not in judged:
        judged.add(d)
        rec.count("final_directories")
        later = vh.in_child(again, sc["ops"])
        if rec.expect(later[0] == "ok", f"{name}/later", f"a later run: {later[1:]}"):
            for op, got, w in zip(sc["ops"], later[1], want, strict=True):
                c01.compare(rec, op, got, w, f"{name}/later")
    for f in rec.fails[n:]:
        f["msg"] = f"interleaving {path} (operations {[[(k, *x) for k, x, _ in t] for t in live.trace]}): "[:900] + f["msg"]
        f["detail"]["schedule"] = path


def again(ops):
    return [c01.make(op) for op in ops]
