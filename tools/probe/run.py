"""
usage: run.py OUT [ids...]: bugs that exist only as small edits (no demonstration): tests, then the check of their
property in a scratch copy. Shows which are missed.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from probes import PROBES  # noqa: E402
import probes2  # noqa: E402,F401
import probes3  # noqa: E402,F401
import probes4  # noqa: E402,F401
import probes5  # noqa: E402,F401
import probes6  # noqa: E402,F401
import probes7  # noqa: E402,F401
import probes8  # noqa: E402,F401
import probes9  # noqa: E402,F401

PY = "/opt/venv/bin/python"
out, wanted = sys.argv[1], sys.argv[2:]
seed = os.environ.get("SEED", "1")
scratch = tempfile.mkdtemp(prefix="probe-")
try:
    repo, verif = os.path.join(scratch, "repo"), os.path.join(scratch, "verif")
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replays", "evidence"))
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    with open(out, "a") as f:
        for name, (props, edits) in PROBES.items():
            if wanted and not any(name.startswith(w) for w in wanted):
                continue
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
            bad = None
            for path, old, new in edits:
                full = os.path.join(repo, path)
                s = open(full).read()
                if s.count(old) != 1:
                    bad = f"{name} INAPPLICABLE ({s.count(old)} matches): {old[:80]!r}"
                    break
                open(full, "w").write(s.replace(old, new))
            if bad:
                print(bad, file=f, flush=True)
                continue
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo, VERIF_REPO=repo)
            t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, env=env, capture_output=True)
            if t.returncode:
                print(f"{name} tests fail", file=f, flush=True)
                continue
            for p in props.split():
                t0 = time.time()
                r = subprocess.run([PY, "check.py", p, "--seed", seed], cwd=verif, env=env, capture_output=True, text=True)
                lines = (r.stdout.strip() or r.stderr.strip()).splitlines()
                what = {0: "MISSED", 1: "caught"}.get(r.returncode, "???")
                tail = lines[-1] if what == "MISSED" else " ".join(x for x in lines if "FAILED" in x)[:200]
                try:
                    with open(os.path.join(verif, "evidence", p + ".json")) as e:
                        reasons = json.load(e).get("abandon_reasons") or json.load(open(e.name))["coverage"].get("abandon_reasons")
                    if what == "MISSED" and reasons:
                        tail += f" | abandoned: {list(reasons.items())[:3]}"
                except (OSError, KeyError, AttributeError):
                    pass
                print(f"{name} {p} {what} {time.time() - t0:.0f}s {tail}", file=f, flush=True)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
