"""C17: signed pre key rotation under virtual time, with asyncio and with Twisted."""
from __future__ import annotations

import asyncio
import copy
import json
from typing import Any, Callable, Dict, List, Optional

from hypothesis import strategies as st

import omemo

from .. import bootstrap
from ..runner import Check, Ctx, Part
from ..sym import Ids, StorageKV, SymBackend, SymBundle
from ..world import App, Faults, Hang, MemStorage, Server, deterministic_secrets, make_manager_class, virtual_loop

OWN = "me@x.org"
NAMES = ["ns:a", "ns:b", "ns:c"]
SLACK = 62  # one minute, plus rounding of ages to full seconds
WEEK = 7 * 24 * 60 * 60


class Recorder(SymBackend):
    def __init__(self, events: List[Dict[str, Any]], *args: Any, **kwargs: Any) -> None:
        super().__init__(*args, **kwargs)
        self.events = events

    async def rotate_signed_pre_key(self) -> None:
        born = (await self._state())["born"]
        self.events.append({"kind": "rotate", "ns": self.ns, "at": self.clock(), "born": born})
        await super().rotate_signed_pre_key()


class AsyncioTime:
    framework = omemo.AsyncFramework.ASYNCIO

    def __init__(self, loop: Any) -> None:
        self.loop = loop
        self.time: Callable[[], float] = loop.time

    def run(self, coro: Any) -> Any:
        return self.loop.run(coro)

    def advance(self, seconds: float) -> None:
        self.loop.run(asyncio.sleep(seconds))

    def kill(self) -> None:
        tasks = asyncio.all_tasks(self.loop)
        for t in tasks:
            t.cancel()

        async def gather() -> None:
            await asyncio.gather(*tasks, return_exceptions=True)

        self.loop.run(gather())


class TwistedTime:
    framework = omemo.AsyncFramework.TWISTED

    def __init__(self) -> None:
        clock: Any = bootstrap.CLOCK
        self.clock = clock
        self.kill()
        clock.rightNow = 1_000_000.0
        self.time: Callable[[], float] = clock.seconds

    def run(self, coro: Any) -> Any:
        from twisted.internet import defer
        box: List[Any] = []
        failure: List[Any] = []
        defer.ensureDeferred(coro).addCallbacks(box.append, failure.append)
        if failure:
            failure[0].raiseException()
        if not box:
            raise Hang("operation never finishes")
        return box[0]

    def advance(self, seconds: float) -> None:
        target = self.clock.seconds() + seconds
        for _ in range(200_000):
            calls = self.clock.getDelayedCalls()
            due = min((c.getTime() for c in calls), default=None)
            if due is None or due > target:
                self.clock.advance(target - self.clock.seconds())
                return
            self.clock.advance(max(0.0, due - self.clock.seconds()))
        raise Hang("endless loop without passing of time")

    def kill(self) -> None:
        for call in list(self.clock.getDelayedCalls()):
            call.cancel()


def strategy(tier: str) -> Any:
    period = st.sampled_from([0, 0, 1, 2, 3, 4, 5])
    duration = st.one_of(
        st.tuples(st.sampled_from([0.0, 0.3, 0.97, 1.0, 1.001, 2.4, 5.0]), st.sampled_from([-1, 0, 1, 59, 61, 62.5, 200])),
        st.tuples(st.just(0.0), st.sampled_from([1, 30, 60.5, 119, 3600, 7300, 20000, 90000]))
    ).map(list)
    op = st.one_of(
        st.tuples(st.just("run"), duration),
        st.tuples(st.just("run"), duration),
        st.tuples(st.just("fail"), st.sampled_from([1, 1, 2, 3, 6, 7, 8, 9, 12])),
        st.tuples(st.just("use"), st.integers(0, 2)),
        st.tuples(st.just("purge"), st.integers(0, 2)),
        st.tuples(st.just("restart"), duration, st.integers(0, 5)),
        st.tuples(st.just("age"), st.integers(0, 2), duration)
    ).map(list)
    # a backend is purged (or not) while publishing its new bundle keeps failing and others are waiting
    stall = st.builds(
        lambda first, fails, purged, second: [
            ["run", [1.0, first]], ["fail", fails], ["run", [0.0, 130]], ["purge", purged], ["run", [0.0, second]],
            ["run", [0.0, 62]]
        ],
        st.sampled_from([-61, -60, -1, 0]), st.sampled_from([4, 9, 40]), st.integers(0, 2),
        st.sampled_from([61, 250, 1000, 7300])
    )
    block = st.one_of(op.map(lambda o: [o]), op.map(lambda o: [o]), op.map(lambda o: [o]), stall)
    return st.fixed_dictionaries({
        "seed": st.integers(0, 2**16), "twisted": st.booleans(), "period": period, "backends": st.integers(0, 5),
        "cache": st.booleans(), "ops": st.lists(block, min_size=1, max_size=8 if tier == "quick" else 16).map(
            lambda blocks: [o for b in blocks for o in b]
        )
    })


PERIODS: List[Optional[int]] = [600, 7, 86400, 4000, 30 * 86400, None]
CHOICES = [["ns:a"], ["ns:a", "ns:b"], ["ns:b", "ns:a"], ["ns:a", "ns:b", "ns:c"], ["ns:c", "ns:a"], ["ns:b"]]


def run(case: Any, ctx: Ctx) -> None:
    with virtual_loop() as loop, deterministic_secrets(case["seed"]):
        Scenario(case, ctx, TwistedTime() if case["twisted"] and bootstrap.CLOCK else AsyncioTime(loop)).run()


class Scenario:
    def __init__(self, case: Any, ctx: Ctx, time: Any) -> None:
        self.case, self.ctx, self.time = case, ctx, time
        self.given = PERIODS[case["period"] % len(PERIODS)]
        self.period = WEEK if self.given is None else self.given
        self.events: List[Dict[str, Any]] = []
        self.data: Dict[str, str] = {}
        self.ids = Ids()
        self.server = Server()
        self.failing = 0
        self.creating = False
        self.names: List[str] = []
        self.backends: Dict[str, Recorder] = {}

    def duration(self, code: List[float]) -> float:
        return max(0.0, min(code[0] * self.period + code[1], 60 * 86400, 60 * self.period + 90000))

    def boot(self, names: List[str]) -> None:
        storage = MemStorage(self.data, self.case["cache"])
        app = App(OWN, self.server, Faults())

        async def upload(bundle: Any) -> None:
            ok = self.creating or self.failing <= 0
            if not self.creating:
                self.failing -= 0 if ok else 1
            self.events.append({
                "kind": "upload", "ns": bundle.namespace, "at": self.time.time(), "bundle": copy.copy(bundle), "ok": ok,
                "create": self.creating, "local": self.local(bundle.namespace)
            })
            if not ok:
                raise omemo.BundleUploadFailed("injected")
            self.server.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = copy.copy(bundle)

        manager = make_manager_class(app, {"_upload_bundle": staticmethod(upload)})
        backends = [
            Recorder(self.events, ns, StorageKV(storage), self.ids, self.time.time, storage=storage) for ns in names
        ]
        self.backends = {b.ns: b for b in backends}
        self.names = names
        self.creating = True

        async def create() -> Any:
            # the rotation starts in the background; it must not run before create is done in this harness
            manager_ = await manager.create(
                backends=list(backends), storage=storage, own_bare_jid=OWN, initial_own_label=None,
                undecided_trust_level_name="new", async_framework=self.time.framework,
                **({} if self.given is None else {"signed_pre_key_rotation_period": self.given})
            )
            return manager_

        # With Twisted, the rotation starts before create returns; uploads after a rotation are never part of create.
        try:
            self.manager = self.time.run(create())
        except Exception as e:  # pylint: disable=broad-except
            self.ctx.expect(False, f"create failed: {e!r}")
        self.creating = False
        own, _ = self.time.run(self.manager.get_own_device_information())
        self.me, self.ik = own.device_id, own.identity_key
        self.time.advance(0)

    def use_pre_key(self, ns: str) -> None:
        s = json.loads(self.data[f"/{ns}/state"])
        if not s["pks"]:
            return
        backend = self.backends[ns]

        async def use() -> None:
            await backend.generate_pre_keys(1)
            self.server.bundles[(ns, OWN, self.me)] = await backend.get_bundle(OWN, self.me)

        self.time.run(use())

    def local(self, ns: str) -> Any:
        s = json.loads(self.data[f"/{ns}/state"])
        return (s["ik"], s["spk"], sorted(s["pks"]))

    def born(self, ns: str) -> float:
        return json.loads(self.data[f"/{ns}/state"])["born"]  # type: ignore[no-any-return]

    def run(self) -> None:
        self.session(CHOICES[self.case["backends"] % len(CHOICES)], iter(self.case["ops"]))

    def session(self, names: List[str], ops: Any) -> None:
        while True:
            mark = len(self.events)
            births: Dict[str, float] = {}
            for ns in names:
                if f"/{ns}/state" in self.data:
                    births[ns] = self.born(ns)
            start = self.time.time()
            self.boot(names)
            for ns in names:
                births.setdefault(ns, start)
            self.ctx.say(
                f"create({names}, period={self.given}, {self.time.framework.name}), ages"
                f" {({ns: start - births[ns] for ns in names})}"
            )
            again: Optional[Any] = None
            alive = list(names)
            for op in ops:
                if op[0] == "run":
                    self.time.advance(self.duration(op[1]))
                elif op[0] == "fail":
                    self.failing = op[1]
                elif op[0] == "purge" and alive:
                    ns = alive.pop(op[1] % len(alive))
                    self.time.run(self.manager.purge_backend(ns))
                    self.events.append({"kind": "purge", "ns": ns, "at": self.time.time()})
                elif op[0] == "use" and alive:
                    # some pre key is used up and the bundle published, as after an incoming key exchange
                    self.use_pre_key(alive[op[1] % len(alive)])
                elif op[0] in ("restart", "age"):
                    again = op
                self.ctx.say(f"{op} -> t={self.time.time() - start}")
                if again:
                    break
            end = self.time.time()
            self.judge(names, births, start, end, self.events[mark:])
            self.time.kill()
            if again is None:
                return
            if again[0] == "age":
                # the device was off; only one of the keys is old when it comes back
                ns = NAMES[again[1] % 3]
                if f"/{ns}/state" in self.data:
                    s = json.loads(self.data[f"/{ns}/state"])
                    s["born"] = self.time.time() - self.duration(again[2])
                    self.data[f"/{ns}/state"] = json.dumps(s)
            else:
                self.time.advance(self.duration(again[1]))
                names = CHOICES[again[2] % len(CHOICES)]
            self.failing = 0

    def judge(
        self, names: List[str], births: Dict[str, float], start: float, end: float, events: List[Dict[str, Any]]
    ) -> None:
        ctx, period = self.ctx, self.period
        names = list(names)
        for e in events:
            ctx.say(f"  t={e['at'] - start}: {e['kind']} {e['ns']} {'' if e.get('ok', True) else 'FAILED'}")
        created: Dict[str, int] = {}
        pending: Dict[str, Dict[str, Any]] = {}
        stalls: List[List[float]] = []
        current = dict(births)
        rotated: Dict[str, int] = {}
        for e in events:
            ns = e["ns"]
            ctx.expect(ns in names, f"{ns} is not loaded (any more) but {e['kind']}s")
            if e["kind"] == "purge":
                self.punctual(ns, current[ns], start, e["at"], stalls, "still not rotated")
                names.remove(ns)
                if ns in pending:
                    gone = pending.pop(ns)
                    if "stall" in gone:
                        gone["stall"][1] = gone["next"]
                        ctx.hit("purged.stalled")
                continue
            if e["kind"] == "rotate":
                age = e["at"] - e["born"]
                ctx.expect(
                    age > period, f"{ns}: signed pre key rotated at age {age}, the rotation period is {period}"
                )
                ctx.expect(ns not in pending, f"{ns}: rotated again before the new bundle was published")
                self.punctual(ns, current[ns], start, e["at"], stalls, "rotated")
                current[ns] = e["at"]
                pending[ns] = {"next": e["at"], "delay": 60}
                rotated[ns] = rotated.get(ns, 0) + 1
                ctx.hit("rotation" + (".again" if rotated[ns] > 1 else "") + "." + self.time.framework.name)
                continue
            bundle = e["bundle"]
            ctx.expect(
                isinstance(bundle, SymBundle) and bundle.bare_jid == OWN
                and [e["local"][1], e["local"][2]] == [bundle.spk, sorted(bundle.pks)],
                f"{ns}: an outdated bundle is uploaded"
            )
            if ns not in pending:
                created[ns] = created.get(ns, 0) + 1
                ctx.expect(
                    e["create"] and created[ns] == 1, f"{ns}: bundle uploaded for no reason at t={e['at'] - start}"
                )
                continue
            p = pending[ns]
            ctx.expect(
                abs(e["at"] - p["next"]) <= 1,
                f"{ns}: upload attempt {p['next'] - e['at']} s before the expected time"
                f" (attempt at t={e['at'] - start}, expected at t={p['next'] - start})"
            )
            if e["ok"]:
                if "stall" in p:
                    p["stall"][1] = e["at"]
                    ctx.hit("upload.recovered")
                del pending[ns]
            else:
                if "stall" not in p:
                    p["stall"] = [e["at"], end]
                    stalls.append(p["stall"])
                p["next"] = e["at"] + p["delay"]
                if p["delay"] == 3600:
                    ctx.hit("upload.capped")
                p["delay"] = min(2 * p["delay"], 3600)
                ctx.hit("upload.failed")
        for ns, p in pending.items():
            ctx.expect(
                end <= p["next"] + 1,
                f"{ns}: the new bundle was not uploaded; expected an attempt at t={p['next'] - start}, now is"
                f" t={end - start}"
            )
        for ns in names:
            self.punctual(ns, current[ns], start, end, stalls, "still not rotated")
            if ns not in pending and rotated.get(ns):
                have = self.server.bundles.get((ns, OWN, self.me))
                ctx.expect(
                    have is not None and [have.spk, sorted(have.pks)] == list(self.local(ns))[1:],
                    f"{ns}: published bundle differs from the local one"
                )

    def punctual(
        self, ns: str, born: float, start: float, now: float, stalls: List[List[float]], what: str
    ) -> None:
        due = born + self.period
        limit = max(due, start) + SLACK
        checked = False  # at the start of the backlog, not being due yet
        for a, b in stalls:
            if a <= limit:
                checked = checked or due >= a - 2
                limit = max(limit, b + (self.period if checked else 0) + SLACK)
        self.ctx.expect(
            now <= limit,
            f"{ns}: signed pre key {what} at t={now - start}, it is due since t={born + self.period - start}"
        )


def check(prop: str) -> Check:
    return Check(
        prop, [Part("rotation", strategy, run, 6000, 60000)],
        "case = rotation period, set of backends, framework, and a history of waiting, restarts, ageing while off and"
        " failing uploads, in virtual time; non-trivial if a key was rotated or an upload after rotation failed"
    )
