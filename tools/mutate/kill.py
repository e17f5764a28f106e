"""Runs a mixture of all checks in one process until something is violated. Prints KILLED <tag> <message> or SURVIVED."""
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(os.path.dirname(HERE)))
sys.dont_write_bytecode = True

from vf import bootstrap, runner  # noqa: E402
from vf.checks import machine_checks, REGISTRY  # noqa: E402
from vf.machine import Machine  # noqa: E402
from vf.world import Abandon, Violation  # noqa: E402

import hypothesis  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402

SIZES = {"machine": 900, "faults": 50, "rotation": 200, "network": 60, "real": 6, "first": 150, "scribble": 100}


def main(kind, factor):
    bootstrap.assert_repo()
    parts = []
    everything = set(REGISTRY)
    if kind == "session_manager.py":
        machine_checks.PROFILES["ALL"] = " ".join(machine_checks.PROFILES.values())

        def run(case, ctx):
            Machine(case, everything).run()
        parts.append(("*", runner.Part("machine", machine_checks.machine_strategy("ALL"), run, 900, 900)))
        props = ["C12", "C17", "C13", "C03", "C24"]
    else:
        props = {"storage.py": ["C19", "C20"], "backend.py": ["C22"], "identity_key_pair.py": ["C21"]}[kind]
    for p in props:
        parts += [(p, part) for part in runner.load_check(p).parts if part.name != "machine"]
    for prop, part in parts:
        n = int(SIZES.get(part.name, 600) * factor)
        found = []

        def body(case):
            try:
                runner.execute(part, prop, case)
            except Violation as e:
                found.append(str(e))
                raise
            except Abandon as e:
                if part.name != "faults":
                    found.append(f"abandoned {e}")
                    raise
        test = given(part.strategy("quick"))(body)
        test = settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                        phases=[Phase.generate])(test)
        test = hypothesis.seed(7)(test)
        try:
            test()
        except BaseException as e:
            if not found:
                found.append(f"exception {e!r}")
        if found:
            print("KILLED", prop, part.name, found[0].replace("\n", " ")[:200])
            return
    print("SURVIVED")


main(sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 1.0)
