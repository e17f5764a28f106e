"""usage: own.py PROP[,PROP...] ID...: the real checks (quick tier) of the given properties against the given mutants."""
import os
import shutil
import subprocess
import sys
import tempfile

import gen

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
PY = "/opt/venv/bin/python"
props, wanted = sys.argv[1].split(","), sys.argv[2:]
scratch = tempfile.mkdtemp(prefix="own-")
try:
    repo, verif = os.path.join(scratch, "repo"), os.path.join(scratch, "verif")
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replays", "evidence"))
    subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
    for mid, path, line, desc, new in gen.mutants("/repo"):
        if mid not in wanted and f"{os.path.basename(path)[:2]}:{line}" not in wanted:
            continue
        target = os.path.join(repo, path)
        with open(target, encoding="utf-8") as f:
            original = f.read()
        with open(target, "w", encoding="utf-8") as f:
            f.write(new)
        for p in props:
            r = subprocess.run([PY, "check.py", p], cwd=verif, env=dict(os.environ, VERIF_REPO=repo), capture_output=True, text=True)
            lines = (r.stdout.strip() or r.stderr.strip()).splitlines()
            print(mid, line, desc[:70], p, r.returncode, "|", " ".join(lines)[-260:], flush=True)
        with open(target, "w", encoding="utf-8") as f:
            f.write(original)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
