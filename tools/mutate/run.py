"""usage: run.py OUT [factor] [ids...]: all mutants, 8 at a time, in scratch copies."""
import concurrent.futures
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import time

import gen

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
PY = "/opt/venv/bin/python"


def main():
    out, factor = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "1"
    wanted = set(sys.argv[3:])
    scratch = tempfile.mkdtemp(prefix="mut-")
    slots = queue.Queue()
    verif = os.path.join(scratch, "verif")
    shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replays", "evidence"))
    for i in range(8):
        repo = os.path.join(scratch, f"repo{i}")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        slots.put(repo)
    done = set()
    if os.path.exists(out):
        with open(out) as f:
            done = {line.split(" ", 2)[0] for line in f}

    def one(m):
        mid, path, line, desc, new = m
        repo = slots.get()
        try:
            target = os.path.join(repo, path)
            with open(target, encoding="utf-8") as f:
                original = f.read()
            with open(target, "w", encoding="utf-8") as f:
                f.write(new)
            env = dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1", PYTHONPATH=repo)
            t0 = time.time()
            try:
                t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "tests"], cwd=repo, env=env, capture_output=True, timeout=120)
                if t.returncode:
                    return f"{mid} tests {path}:{line} {desc}"
            except subprocess.TimeoutExpired:
                return f"{mid} tests(timeout) {path}:{line} {desc}"
            try:
                r = subprocess.run([PY, os.path.join(verif, "tools/mutate/kill.py"), os.path.basename(path), factor], cwd=verif, env=env,
                                   capture_output=True, text=True, timeout=900)
                res = (r.stdout.strip().splitlines() or ["? " + r.stderr[-300:].replace("\n", " ")])[-1]
            except subprocess.TimeoutExpired:
                res = "KILLED timeout"
            return f"{mid} {'killed' if res.startswith('KILLED') else 'ALIVE'} {path}:{line} {desc} => {res} ({time.time() - t0:.0f}s)"
        finally:
            with open(target, "w", encoding="utf-8") as f:
                f.write(original)
            slots.put(repo)

    todo = [m for m in gen.mutants("/repo") if m[0] not in done and (not wanted or m[0] in wanted)]
    try:
        with concurrent.futures.ThreadPoolExecutor(8) as pool, open(out, "a") as f:
            for res in concurrent.futures.as_completed([pool.submit(one, m) for m in todo]):
                f.write(res.result().replace("\n", " ") + "\n")
                f.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
