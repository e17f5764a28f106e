"""
Creates /verif/seeded/<id>/ from the definitions in bugs.py: applies the edit in a scratch copy of /repo, runs the
stable tests and the demonstration with and without it, and keeps only what behaves as it must.

usage: plant.py [id ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
sys.path.insert(0, HERE)
import bugs2  # noqa: E402,F401
from bugs import BUGS  # noqa: E402

PY = "/opt/venv/bin/python"


def sh(cmd, cwd, **kw):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=cwd)
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    ids = sys.argv[1:] or list(BUGS)
    scratch = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = os.path.join(scratch, "repo")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        for i in ids:
            bug = BUGS[i]
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
            out = os.path.join(SEEDED, i)
            tmp = os.path.join(scratch, "demo")
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            shutil.copy(os.path.join(HERE, "lib.py"), tmp)
            with open(os.path.join(tmp, "demo.py"), "w") as f:
                f.write("from lib import *\n\n\n" + bug["demo"].strip() + "\n\n\nmain(demo)\n")
            with open(os.path.join(tmp, "demo.sh"), "w") as f:
                f.write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(tmp, "demo.sh"), 0o755)
            clean = sh(["bash", os.path.join(tmp, "demo.sh")], repo)
            for path, old, new in bug["edits"]:
                full = os.path.join(repo, path)
                s = open(full).read()
                assert s.count(old) == 1, (i, path, s.count(old), old)
                open(full, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "diff"], cwd=repo, capture_output=True, text=True, check=True).stdout
            tests = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], repo)
            broken = sh(["bash", os.path.join(tmp, "demo.sh")], repo)
            base = "".join(
                subprocess.run(["git", "show", f"eed4e74:{path}"], cwd=repo, capture_output=True, text=True).stdout
                for path, _, _ in bug["edits"]
            )
            gone = [x[1:].strip() for x in diff.splitlines() if x.startswith("-") and not x.startswith("---")]
            gone = [x for x in gone if x and not x.startswith("#")]
            if gone and not any(x in base for x in gone):
                print(f"{i}: changes none of the original lines")
            ok = clean.returncode == 0 and broken.returncode != 0 and tests.returncode == 0
            print(f"{i}: clean {clean.returncode} tests {tests.returncode} broken {broken.returncode}",
                  "ok" if ok else "REJECTED", "|", (broken.stdout.strip().splitlines() or [""])[-1][:150])
            if not ok:
                if clean.returncode:
                    print(clean.stdout[-1500:])
                if tests.returncode:
                    print(tests.stdout[-1500:])
                shutil.rmtree(out, ignore_errors=True)
                continue
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(tmp, out, ignore=shutil.ignore_patterns("__pycache__"))
            with open(os.path.join(out, "patch.diff"), "w") as f:
                f.write(diff)
            with open(os.path.join(out, "meta.json"), "w") as f:
                json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
                f.write("\n")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
