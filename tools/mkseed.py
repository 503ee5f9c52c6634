"""Author a planted bug: apply edits in a scratch worktree, check the demo both ways, store it.

usage: mkseed.py FILE.py  (the file defines SEEDS = [dict(id, prop, edits=[(path, old, new)], demo, needs, breaks)])
"""

import json, os, pathlib, runpy, shutil, subprocess, sys, tempfile

SEEDED = pathlib.Path(__file__).resolve().parent.parent / "seeded"
REPO = os.environ.get("FF_REPO", "/repo")
only = set(sys.argv[2:])
spec = runpy.run_path(sys.argv[1])["SEEDS"]
wt = tempfile.mkdtemp(prefix="seedwt")
subprocess.run(["git", "-C", REPO, "worktree", "add", "-q", "--force", wt, "HEAD"], check=True)
DEMO = """#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""
try:
    for s in spec:
        if only and s["id"] not in only:
            continue
        d = SEEDED / s["id"]
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
        d.mkdir(parents=True, exist_ok=True)
        (d / "demo.sh").write_text(DEMO)
        os.chmod(d / "demo.sh", 0o755)
        (d / "demo.py").write_text(s["demo"].lstrip())
        (d / "meta.json").write_text(json.dumps({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        clean = subprocess.run(["bash", str(d / "demo.sh")], cwd=wt, env=env, capture_output=True, text=True)
        for path, old, new in s["edits"]:
            p = pathlib.Path(wt) / path
            t = p.read_text()
            assert t.count(old) == 1, (s["id"], path, t.count(old), old)
            p.write_text(t.replace(old, new))
        diff = subprocess.run(["git", "-C", wt, "diff"], capture_output=True, text=True).stdout
        (d / "patch.diff").write_text(diff)
        bad = subprocess.run(["bash", str(d / "demo.sh")], cwd=wt, env=env, capture_output=True, text=True)
        ok = clean.returncode == 0 and bad.returncode != 0
        print(s["id"], "OK" if ok else "PROBLEM", clean.returncode, bad.returncode, bad.stderr.strip().splitlines()[-1:] )
        if not ok:
            print(clean.stderr[-1500:], bad.stdout[-500:])
finally:
    subprocess.run(["git", "-C", REPO, "worktree", "remove", "--force", wt])
    shutil.rmtree(wt, ignore_errors=True)
