"""usage: [SERIES=2] run.py [props...]: applies every edit of edits.py (edits2.py) to a scratch copy of /repo and runs tests and checks there."""
import importlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
EDITS = importlib.import_module("edits" + os.environ.get("SERIES", "")).EDITS

PY = "/opt/venv/bin/python"
props = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 30) if i != 23]
scratch = tempfile.mkdtemp(prefix="refactor-")
try:
    repo, verif = os.path.join(scratch, "repo"), os.path.join(scratch, "verif")
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replays", "evidence"))
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    for path, old, new in EDITS:
        full = os.path.join(repo, path)
        s = open(full).read()
        if s.count(old) != 1:
            print("INAPPLICABLE", s.count(old), repr(old[:120]))
            continue
        open(full, "w").write(s.replace(old, new))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, VERIF_REPO=repo)
    t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env, capture_output=True, text=True)
    print("tests", t.returncode, t.stdout[-300:] if t.returncode else "")
    for p in props:
        r = subprocess.run([PY, "check.py", p, "--seed", os.environ.get("SEED", "1")], cwd=verif, env=env, capture_output=True, text=True)
        lines = (r.stdout.strip() + "\n" + r.stderr.strip()).strip().splitlines()
        print("quiet" if r.returncode == 0 else "ALARM", lines[-1][:200] if r.returncode == 0 else "\n".join(lines[-25:]), flush=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
