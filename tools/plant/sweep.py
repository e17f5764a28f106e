"""
Runs checks against the planted bugs in scratch copies and prints which check catches which.

usage: sweep.py own|all [id ...]      (own: only the check of the property the bug breaks)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SEEDED = os.path.join(VERIF, "seeded")


def main():
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
    scratch = tempfile.mkdtemp(prefix="sweep-")
    try:
        repo, verif = os.path.join(scratch, "repo"), os.path.join(scratch, "verif")
        subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(".git", "seeded", "__pycache__", "replays", "evidence"))
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            props = [c["property"] for c in json.load(f)["checks"]]
        for i in ids:
            with open(os.path.join(SEEDED, i, "meta.json")) as f:
                prop = json.load(f)["property"]
            subprocess.run(["git", "checkout", "-q", "--", "."], cwd=repo, check=True)
            subprocess.run(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=repo, check=True)
            caught, odd, t0, note = [], [], time.time(), ""
            for p in ([prop] if mode == "own" else props):
                r = subprocess.run(
                    ["/opt/venv/bin/python", "check.py", p, "--tier", "quick"], cwd=verif, capture_output=True, text=True,
                    env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick",
                             PYTHONDONTWRITEBYTECODE="1")
                )
                hit = any(line.startswith(f"VIOLATION property={p} ") for line in r.stdout.splitlines())
                if r.returncode == 1 and hit:
                    caught.append(p)
                    if p == prop:
                        note = next((line for line in r.stdout.splitlines() if line.startswith("[")), "")
                elif r.returncode != 0:
                    odd.append(f"{p}:{r.returncode}")
                elif p == prop:
                    note = (r.stdout.strip().splitlines() or [""])[-1]
            print(f"{'caught' if prop in caught else 'MISSED'} {i} ({prop}) by {' '.join(caught) or '-'}"
                  f"{' ODD ' + ' '.join(odd) if odd else ''} {time.time() - t0:.0f}s {note[:140]}", flush=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


main()
