"""python3 tools/mkseeds.py : (re)write seeded/<id>/ from tools/seeds/*.py.
Each spec file defines ID, PROPERTY, EDITS=[(path, old, new)], NEEDS, BREAKS, DEMO
(python source run by demo.sh). Refuses edits of lines not in the original."""
import json, pathlib, runpy, shutil, subprocess, sys, tempfile
V = pathlib.Path(__file__).resolve().parent.parent
BASE = "563bdca"
PRE = '''import os, sys, tempfile, shutil, atexit, logging
_home = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, _home, True)
for _k in ("DATA", "CACHE", "CONFIG"):
    os.environ[f"XDG_{_k}_HOME"] = os.path.join(_home, _k.lower())
for _k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
    os.environ[_k] = "http://127.0.0.1:9"
for _k in "NCPU POLAR_GAP SLEPIAN_MASK PHI_MAX PHI_MIN THETA_MAX THETA_MIN".split():
    os.environ.pop(_k, None)
os.environ["MPLBACKEND"] = "Agg"
logging.disable(logging.CRITICAL)
import numpy as np
'''
SH = '''#!/bin/sh
# run in /repo after the build: exit 0 when the property holds
d=$(cd "$(dirname "$0")" && pwd)
for py in /opt/venv/bin/python python3; do
  if command -v "$py" >/dev/null 2>&1; then
    PYTHONPATH="$PWD/src${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1 exec "$py" "$d/demo.py"
  fi
done
'''
def orig_lines(path):
    out = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", path], capture_output=True, text=True, check=True).stdout
    fixes = set(subprocess.run(["git", "-C", "/repo", "rev-list", f"{BASE}..HEAD"], capture_output=True, text=True).stdout.split())
    return [l.split()[0].lstrip("^") not in fixes for l in out.splitlines()]
def main():
    ids = sys.argv[1:]
    for spec in sorted((V / "tools" / "seeds").glob("*.py")):
        if ids and spec.stem not in ids: continue
        s = runpy.run_path(str(spec)); sid = spec.stem
        files = {}
        touched = 0
        for path, old, new in s["EDITS"]:
            p = "src/sleplet/" + path
            text = files.get(p) or pathlib.Path("/repo", p).read_text()
            assert text.count(old) == 1, (sid, path, text.count(old), old)
            if p not in files:
                first = text[: text.index(old)].count("\n"); o = orig_lines(p)
                touched += sum(o[first + i] for i in range(old.strip("\n").count("\n") + 1))
            files[p] = text.replace(old, new)
        assert touched, (sid, "no original line")
        d = V / "seeded" / sid; shutil.rmtree(d, ignore_errors=True); d.mkdir(parents=True)
        tmp = pathlib.Path(tempfile.mkdtemp()); patch = ""
        for p, text in files.items():
            (tmp / "f").write_text(text)
            r = subprocess.run(["diff", "-u", "--label", "a/" + p, "--label", "b/" + p, "/repo/" + p, str(tmp / "f")], capture_output=True, text=True).stdout
            removed = [l for l in r.splitlines() if l.startswith("-") and not l.startswith("---")]
            patch += f"diff --git a/{p} b/{p}\n" + r
        shutil.rmtree(tmp)
        (d / "patch.diff").write_text(patch)
        (d / "demo.py").write_text(PRE + s["DEMO"])
        (d / "demo.sh").write_text(SH)
        (d / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        subprocess.run(["git", "-C", "/repo", "apply", "--check", str(d / "patch.diff")], check=True)
        print(sid, "written")
main()
