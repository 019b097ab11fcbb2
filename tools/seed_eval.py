"""python3 tools/seed_eval.py ID... : judge planted bugs in scratch copies.
For each: stable tests pass, demo passes without and fails with it, which
checks catch it (the one of its property, or all with --all)."""
import json, os, pathlib, shutil, subprocess, sys, concurrent.futures as cf
V = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
def env(repo, home):
    e = dict(os.environ, PYTHONPATH=f"{repo}/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
             http_proxy="http://127.0.0.1:9", https_proxy="http://127.0.0.1:9")
    for k in ("DATA", "CACHE", "CONFIG"):
        d = pathlib.Path(home, k); d.mkdir(parents=True, exist_ok=True); e[f"XDG_{k}_HOME"] = str(d)
    return e
def judge(sid, checks=None, tests=True):
    seed = V / "seeded" / sid
    meta = json.load(open(seed / "meta.json"))
    root = pathlib.Path(f"/tmp/seed_{sid}"); shutil.rmtree(root, ignore_errors=True)
    repo = root / "repo"; root.mkdir(); out = {}
    try:
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        def demo(tag):
            d = root / f"demo{tag}"; shutil.copytree(seed, d); [p.unlink() for p in [*d.glob("*.diff"), d / "meta.json"] if p.exists()]
            return subprocess.run(["bash", str(d / "demo.sh")], cwd=repo, env=env(repo, root / f"h{tag}"), capture_output=True, text=True, timeout=300)
        r = demo("a"); out["clean_demo"] = r.returncode
        if r.returncode: out["clean_out"] = (r.stdout + r.stderr)[-800:]
        subprocess.run(["git", "apply", str(seed / "patch.diff")], cwd=repo, check=True)
        r = demo("b"); out["bug_demo"] = r.returncode; out["bug_out"] = (r.stdout + r.stderr)[-250:]
        if tests:
            subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "-p", "no:codeblocks", "--timeout=300", f"--junitxml={root}/j.xml", "tests"],
                           cwd=repo, env=env(repo, root / "ht"), capture_output=True)
            import xml.etree.ElementTree as ET
            ok = {f"{c.get('classname')}::{c.get('name')}" for c in ET.parse(root / "j.xml").iter("testcase") if not list(c)}
            out["stable_broken"] = [s for s in STABLE if s not in ok]
        shutil.copytree(V, root / "verif", ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
        caught = {}
        for c in checks or [meta["property"]]:
            r = subprocess.run([str(root / "verif" / "check"), c, "--tier", "quick"], cwd=root / "verif", env={**os.environ, "VERIF_REPO": str(repo)}, capture_output=True, text=True)
            caught[c] = (r.returncode, r.stdout[-700:] if r.returncode else "")
        out["checks"] = caught
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return sid, out
if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    al = [f"C{i:02d}" for i in range(1, 22)] if "--all" in sys.argv else None
    ids = args or sorted(p.name for p in (V / "seeded").iterdir())
    for sid in ids:
        sid, o = judge(sid, al, "--notests" not in sys.argv)
        good = o["clean_demo"] == 0 and o["bug_demo"] != 0 and not o.get("stable_broken")
        print(("VALID  " if good else "INVALID"), sid, {c: r[0] for c, r in o["checks"].items()}, flush=True)
        if not good or "-v" in sys.argv: print(json.dumps(o, indent=1))
