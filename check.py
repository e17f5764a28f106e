#!/opt/venv/bin/python
"""
check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

Exit status: 0 the property held on everything explored, 1 violation (a VIOLATION line names the replay file),
2 the harness itself failed.
"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf import runner  # noqa: E402  pylint: disable=wrong-import-position


def main() -> int:
    parser = argparse.ArgumentParser()
    parser.add_argument("prop", nargs="?")
    parser.add_argument("--selftest", action="store_true")
    parser.add_argument("--tier", choices=["quick", "thorough"], default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    parser.add_argument("--worker", type=int)
    parser.add_argument("--out")
    parser.add_argument("--replay")
    args = parser.parse_args()
    if args.selftest or args.prop is None:
        return runner.selftest()
    if args.worker is not None:
        runner.worker(args.prop, args.tier, args.seed, args.worker, args.out)
        return 0
    if args.replay:
        return runner.run_replay(args.prop, os.path.abspath(args.replay))
    return runner.run_check(args.prop, args.tier, args.seed)


if __name__ == "__main__":
    sys.exit(main())
