"""
The search driver: Hypothesis generates cases (plain JSON), a part executes each against the code under test and an
oracle, failures are shrunk by Hypothesis and written to a replay file.

A check is a list of parts. Work is spread over worker processes; each has its own Hypothesis seed (derived from
VERIF_SEED) and its own fixed PYTHONHASHSEED, since set and dictionary iteration order is part of the schedule.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter
from typing import Any, Callable, Dict, List, Optional, Set

from . import bootstrap
from hypothesis.errors import HypothesisException
from .world import Abandon, Hang, Violation

WORKERS = 8
CASE_TIMEOUT = 40  # seconds; cases take milliseconds
SHRINK_SECONDS = 25


class Ctx:
    """What a case run reports back."""

    def __init__(self, prop: str, trace: bool = False) -> None:
        self.prop = prop
        self.events: Counter[str] = Counter()
        self.nontrivial = 0
        self.subs: List[Any] = []
        self.trace: Optional[List[str]] = [] if trace else None

    def say(self, text: str) -> None:
        if self.trace is not None:
            self.trace.append(text)

    def hit(self, event: str) -> None:
        """Something the property talks about happened."""
        self.nontrivial += 1
        self.events[event] += 1

    def sub(self, key: str, nontrivial: bool = True) -> None:
        """The case consists of several executions; count them one by one."""
        self.subs.append((key, nontrivial))

    def note(self, event: str) -> None:
        self.events[event] += 1

    def expect(self, cond: bool, message: str) -> None:
        if not cond:
            self.say("FAILED: " + message)
            raise Violation(self.prop, message)


class Part:
    """One generator + oracle."""

    def __init__(
        self, name: str, strategy: Callable[[str], Any], run: Callable[[Any, Ctx], None], quick: int, thorough: int,
        workers: int = WORKERS
    ) -> None:
        self.name = name
        self.strategy = strategy
        self.run = run
        self.examples = {"quick": quick, "thorough": thorough}
        self.workers = workers


class Check:
    def __init__(
        self, prop: str, parts: List[Part], rule: str, level: str = "exploration", bounds: str = "",
        cap: Optional[Dict[str, float]] = None
    ) -> None:
        self.prop = prop
        self.parts = parts
        self.rule = rule
        self.level = level
        self.bounds = bounds
        self.cap = cap or {"quick": 150.0, "thorough": 1500.0}


def load_check(prop: str) -> Check:
    from .checks import REGISTRY
    module, = [importlib.import_module("vf.checks." + REGISTRY[prop])]
    return module.check(prop)  # type: ignore[no-any-return]


def case_hash(part: str, case: Any) -> str:
    return hashlib.blake2b(
        (part + json.dumps(case, sort_keys=True)).encode(), digest_size=8
    ).hexdigest()


def derive(*what: Any) -> int:
    return int.from_bytes(hashlib.blake2b(repr(what).encode(), digest_size=6).digest(), "big")


class _Alarm:
    def __enter__(self) -> None:
        signal.signal(signal.SIGALRM, self.fire)
        signal.alarm(CASE_TIMEOUT)

    def __exit__(self, *_: Any) -> None:
        signal.alarm(0)

    @staticmethod
    def fire(*_: Any) -> None:
        raise Hang(f"case did not finish within {CASE_TIMEOUT} s")


def execute(part: Part, prop: str, case: Any, trace: bool = False) -> Ctx:
    ctx = Ctx(prop, trace)
    try:
        with _Alarm():
            part.run(case, ctx)
    except Violation as e:
        e.ctx = ctx  # type: ignore[attr-defined]
        raise
    except Hang as e:
        v = Violation(prop, f"hang: {e}")
        v.ctx = ctx  # type: ignore[attr-defined]
        raise v from e
    except (Abandon, HypothesisException):
        raise
    except Exception as e:  # pylint: disable=broad-except
        # Does not happen as long as the code behaves as documented: something the oracle relies on (stored state
        # being there, coroutines ending, results having the documented form) is not as it has to be.
        where = "; ".join(f"{f.name}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-6:])
        ctx.say("unexpected: " + traceback.format_exc())
        v = Violation(prop, f"the oracle can't interpret what happened: {e!r} in {where}")
        v.ctx = ctx  # type: ignore[attr-defined]
        raise v from e
    return ctx


def simplify(part: Part, prop: str, case: Any, budget: float = 15.0) -> Optional[Any]:
    """Drop operations that are not needed for the failure (Hypothesis has no good handle on those)."""
    if not isinstance(case, dict) or not isinstance(case.get("ops"), list):
        return None
    deadline = time.monotonic() + budget

    def fails(candidate: Any) -> bool:
        try:
            execute(part, prop, candidate)
        except Violation:
            return True
        except (Exception, Hang):  # pylint: disable=broad-except
            return False
        return False

    ops = list(case["ops"])
    size = max(1, len(ops) // 2)
    while size >= 1 and time.monotonic() < deadline:
        i = 0
        progress = False
        while i < len(ops) and time.monotonic() < deadline:
            candidate = ops[:i] + ops[i + size:]
            if fails({**case, "ops": candidate}):
                ops = candidate
                progress = True
            else:
                i += size
        if size == 1 and not progress:
            break
        size = max(1, size // 2) if size > 1 or progress else 0
    return {**case, "ops": ops}


# --------------------------------------------------------------------------------------------------------------
# worker
# --------------------------------------------------------------------------------------------------------------

def worker(prop: str, tier: str, seed: int, index: int, out: str) -> None:
    bootstrap.assert_repo()
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import HypothesisException
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS

    check = load_check(prop)
    started = time.monotonic()
    result: Dict[str, Any] = {"parts": {}, "violation": None, "errors": []}

    for part in check.parts:
        if index >= part.workers:
            continue
        share = -(-part.examples[tier] // part.workers)
        stats: Dict[str, Any] = {
            "evaluations": 0, "abandoned": 0, "skipped": 0, "events": Counter(), "hashes": set(), "samples": [],
            "abandon_reasons": Counter()
        }
        failing: List[Any] = []
        errors: List[str] = []

        def body(case: Any) -> None:
            if not failing and time.monotonic() - started > check.cap[tier]:
                stats["skipped"] += 1
                return
            h = case_hash(part.name, case)
            want_trace = len(stats["samples"]) < 2
            try:
                ctx = execute(part, prop, case, trace=want_trace)
            except Violation as e:
                failing.append((case, str(e)))
                raise
            except Abandon as e:
                stats["evaluations"] += 1
                stats["abandoned"] += 1
                stats["abandon_reasons"][str(e)[:160]] += 1
                return
            except (KeyboardInterrupt, SystemExit):
                raise
            except Exception:  # pylint: disable=broad-except
                stats["evaluations"] += 1
                if len(errors) < 3:
                    errors.append(json.dumps(case)[:2000] + "\n" + traceback.format_exc())
                return
            stats["evaluations"] += max(1, len(ctx.subs))
            stats["events"] += ctx.events
            for key, nontrivial in ctx.subs:
                if nontrivial:
                    stats["hashes"].add(case_hash(h, key))
            if ctx.subs and ctx.trace and any(n for _, n in ctx.subs):
                stats["samples"].append({"case": case, "trace": ctx.trace[:40], "points": [k for k, _ in ctx.subs][:10]})
            if ctx.nontrivial:
                if want_trace and h not in stats["hashes"]:
                    stats["samples"].append({"case": case, "trace": (ctx.trace or [])[:40]})
                stats["hashes"].add(h)

        test = given(part.strategy(tier))(body)
        test = settings(
            max_examples=share, database=None, deadline=None, derandomize=False, print_blob=False,
            report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink]
        )(test)
        test = hypothesis.seed(derive(seed, prop, part.name, index))(test)
        try:
            test()
        except Violation:
            pass
        except HypothesisException as e:  # e.g. flaky: decided below by running the case again
            if not failing:
                errors.append(repr(e))
        except BaseException as e:  # pylint: disable=broad-except
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if not failing:
                errors.append(traceback.format_exc())

        if failing:
            smaller = simplify(part, prop, failing[-1][0])
            if smaller is not None:
                failing.append((smaller, ""))
            # the last failing case is the shrunk one; fall back to earlier ones if it should not reproduce
            for case, _ in [failing[-1], *sorted(failing, key=lambda c: len(json.dumps(c[0])))[:20]]:
                try:
                    execute(part, prop, case)
                except Violation as e:
                    try:
                        execute(part, prop, case, trace=True)
                    except Violation as e2:
                        trace = e2.ctx.trace  # type: ignore[attr-defined]
                    result["violation"] = {
                        "property": prop, "part": part.name, "case": case, "message": str(e), "trace": trace,
                        "hashseed": os.environ.get("PYTHONHASHSEED", "0"), "seed": seed, "worker": index,
                        "tier": tier
                    }
                    break
                except Exception:  # pylint: disable=broad-except
                    continue
            else:
                errors.append(f"failure did not reproduce: {failing[-1][1]}")
        result["errors"] += [f"{part.name}: {e}" for e in errors]
        stats["hashes"] = sorted(stats["hashes"])
        result["parts"][part.name] = stats
        if result["violation"]:
            break

    with open(out, "w", encoding="utf-8") as f:
        json.dump(result, f)


# --------------------------------------------------------------------------------------------------------------
# driver
# --------------------------------------------------------------------------------------------------------------

def hash_seed(seed: int, index: int) -> str:
    return str((seed * 8 + index) % 4294967295)


def run_check(prop: str, tier: str, seed: int) -> int:
    check = load_check(prop)
    started = time.monotonic()
    scratch = os.path.join(bootstrap.VERIF, "replays", f".run-{prop}-{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    procs = []
    count = max(part.workers for part in check.parts)
    for i in range(count):
        env = dict(os.environ, PYTHONHASHSEED=hash_seed(seed, i), PYTHONDONTWRITEBYTECODE="1")
        out = os.path.join(scratch, f"{i}.json")
        procs.append((out, subprocess.Popen(
            [sys.executable, os.path.join(bootstrap.VERIF, "check.py"), prop, "--worker", str(i), "--tier", tier,
             "--seed", str(seed), "--out", out],
            env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=scratch
        )))
    results = []
    crashed: List[str] = []
    for out, proc in procs:
        limit = started + check.cap[tier] + 4 * CASE_TIMEOUT + SHRINK_SECONDS + 60 - time.monotonic()
        try:
            _, err = proc.communicate(timeout=max(1.0, limit))
        except subprocess.TimeoutExpired:
            proc.kill()
            _, err = proc.communicate()
        if proc.returncode != 0 or not os.path.exists(out):
            crashed.append(f"worker exited with {proc.returncode}: {err.decode(errors='replace')[-2000:]}")
            continue
        with open(out, encoding="utf-8") as f:
            results.append(json.load(f))
        os.unlink(out)
    try:
        os.rmdir(scratch)
    except OSError:
        pass

    evaluations = abandoned = skipped = 0
    events: Counter[str] = Counter()
    hashes: Set[str] = set()
    samples: List[Any] = []
    reasons: Counter[str] = Counter()
    per_part: Dict[str, Dict[str, int]] = {}
    for r in results:
        for name, s in r["parts"].items():
            evaluations += s["evaluations"]
            abandoned += s["abandoned"]
            skipped += s["skipped"]
            events.update(s["events"])
            reasons.update(s["abandon_reasons"])
            hashes.update(s["hashes"])
            p = per_part.setdefault(name, {"evaluations": 0, "nontrivial": 0})
            p["evaluations"] += s["evaluations"]
            p["nontrivial"] += len(s["hashes"])
    for name in per_part:
        found = [s for r in results for s in r["parts"].get(name, {}).get("samples", [])]
        samples += [{"part": name, **s} for s in found[:3]]
    violations = [r["violation"] for r in results if r["violation"]]
    errors = crashed + [e for r in results for e in r["errors"]]

    replay = None
    if violations:
        best = min(violations, key=lambda v: (len(json.dumps(v["case"])), v["worker"]))
        os.makedirs(os.path.join(bootstrap.VERIF, "replays"), exist_ok=True)
        replay = os.path.join(
            bootstrap.VERIF, "replays", f"{prop}-{case_hash(best['part'], best['case'])}.json"
        )
        with open(replay, "w", encoding="utf-8") as f:
            json.dump(best, f, indent=1)

    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(hashes),
        "rule": check.rule,
        "samples": samples[:8],
        "events": dict(sorted(events.items())),
        "parts": per_part,
        "abandoned": abandoned,
        "abandon_reasons": dict(reasons.most_common(10)),
        "not_run_time_cap": skipped,
        "harness_errors": errors[:5],
        "violations": [v["message"] for v in violations],
        "workers": count
    }
    if check.bounds:
        coverage["bounds"] = check.bounds
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": check.level, "coverage": coverage,
        "wall_s": round(time.monotonic() - started, 2)
    }
    os.makedirs(os.path.join(bootstrap.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(bootstrap.VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)

    print(
        f"{prop} [{tier}, seed {seed}] {evaluations} cases, {len(hashes)} distinct non-trivial, {abandoned}"
        f" abandoned, {skipped} not run (time cap), {evidence['wall_s']} s"
    )
    if replay is not None:
        print(best["message"])
        for line in (best["trace"] or [])[-60:]:
            print("  |", line)
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR", e)
        return 2
    return 0


def run_replay(prop: str, path: str) -> int:
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    if os.environ.get("PYTHONHASHSEED") != data["hashseed"]:
        env = dict(os.environ, PYTHONHASHSEED=data["hashseed"])
        return subprocess.call([sys.executable, *sys.argv], env=env)
    check = load_check(prop)
    part, = [p for p in check.parts if p.name == data["part"]]
    try:
        ctx = execute(part, prop, data["case"], trace=True)
    except Violation as e:
        for line in e.ctx.trace or []:  # type: ignore[attr-defined]
            print("  |", line)
        print(e)
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    except Abandon as e:
        print("case ends early:", e)
        return 0
    for line in ctx.trace or []:
        print("  |", line)
    print("no violation")
    return 0


def selftest() -> int:
    """Nothing to build: make sure that the code under test and all checks can be loaded."""
    bootstrap.assert_repo()
    from .checks import REGISTRY
    for prop in sorted(REGISTRY):
        load_check(prop)
    print(f"{len(REGISTRY)} checks ready, code under test in {bootstrap.REPO}")
    return 0
