"""
C13: every interaction with storage or network as the point of failure.

A generated history brings the real session manager into some state. From that state, one operation is run without
failure (the reference), and then once per interaction it makes, failing at that interaction (before or after taking
effect), followed by a repetition in the same process or after a restart. All observable results have to be equal.
"""
from __future__ import annotations

import asyncio
import copy
import random
from typing import Any, Dict, List, Optional, Tuple

from hypothesis import strategies as st

import omemo

from ..machine import DEVICES, JIDS, LABELS, NAMESPACES, OWN, PEERS, Machine
from ..runner import Check, Ctx, Part
from ..sym import SymBundle
from ..world import Abandon, App, Faults, MemStorage, Server, deterministic_secrets, make_manager_class, virtual_loop
from .machine_checks import expand

PREFIX = "list*4 trust*3 info encrypt*3 exchange*3 talk label restart drift*2 bundle sync purge_jid"
TARGETS = ["create_first", "create", "create", "push", "refresh_all", "label", "ensure", "purge_ns", "purge_jid"]
WRITES = {"s.store", "s.delete", "n.upload_bundle", "n.delete_bundle", "n.upload_list"}


class Fork(Machine):
    """A copy of the world of another machine with its own session manager."""

    def __init__(self, base: Machine) -> None:
        super().__init__(base.case, set())
        self.loop = base.loop
        copied = copy.deepcopy({
            "data": base.data, "lists": base.server.lists, "bundles": base.server.bundles, "modes": base.modes,
            "raws": base.raws, "ids": base.ids
        })
        self.data, self.modes, self.raws, self.ids = (copied[k] for k in ("data", "modes", "raws", "ids"))
        for key, mode in self.modes.items():
            if mode == "evil":  # which of several identity keys gets known depends on iteration order
                self.modes[key] = "ok"
        self.server = Server()
        self.server.lists, self.server.bundles = copied["lists"], copied["bundles"]
        self.server.bundle_source = self.serve_bundle
        self.faults = Faults()
        self.app = App(OWN, self.server, self.faults)
        self.app.strict_namespaces = base.app.strict_namespaces
        self.cache, self.threshold, self.share = base.cache, base.threshold, base.share
        self.undecided_name = base.undecided_name
        self.own_dev = base.own_dev
        self.twin = False
        self.names: List[str] = []
        self.own_label: Optional[str] = None
        self.extra: Optional[Dict[str, Any]] = None  # other application callbacks

    async def boot(self, names: List[str], label: Optional[str] = "initial") -> None:
        """(Re-)start on whatever the storage contains."""
        for t in asyncio.all_tasks(self.loop):
            if t is not asyncio.current_task(self.loop):
                t.cancel()
        storage = MemStorage(self.data, self.cache, self.faults)
        self.app.loaded = set(names)
        self.names = list(names)
        self.manager = await make_manager_class(self.app, self.extra).create(
            backends=list(self.make_backends(names, storage)), storage=storage, own_bare_jid=OWN,
            initial_own_label=label, undecided_trust_level_name=self.undecided_name,
            pre_key_refill_threshold=self.threshold
        )

    async def view(self, probe: Optional[str], ignore_bundles: List[str]) -> Dict[str, Any]:
        """Everything that can be observed, with this device's id and key replaced by placeholders."""
        out: Dict[str, Any] = {}
        own, _ = await self.manager.get_own_device_information()
        me, mine = own.device_id, own.identity_key
        self.own_dev = me

        def anon(device: int) -> Any:
            return "this device" if device == me else device

        async def infos(jid: str) -> Any:
            return sorted((
                (
                    str(anon(d.device_id)), sorted(d.namespaces),
                    # activity in a backend that the device was never listed for says nothing
                    sorted(entry for entry in d.active if entry[0] in d.namespaces), repr(d.label),
                    "own key" if d.identity_key == mine else d.identity_key.hex()[-8:], d.trust_level_name
                ) for d in await self.manager.get_device_information(jid)
            ), key=repr)

        for jid in JIDS:
            out[f"devices of {jid}"] = await infos(jid)
        out["published lists"] = {
            f"{ns} {jid}": sorted(((str(anon(d)), label) for d, label in lst.items()), key=repr)
            for (ns, jid), lst in self.server.lists.items() if lst
        }
        out["sessions"] = {k: v for k, v in self.sessions().items()}
        states = self.states()
        out["pre keys"] = {ns: (len(s["pks"]), s["hidden"]) for ns, s in states.items()}
        out["published bundles"] = sorted(
            ns for ns, jid, dev in self.server.bundles
            if jid == OWN and dev == me and ns not in ignore_bundles
        )
        out["bundle matches"] = {
            ns: self.server.bundles.get((ns, OWN, me)) == SymBundle(
                ns, OWN, me, mine, states[ns]["spk"], frozenset(states[ns]["pks"])
            ) for ns in self.names if ns in states
        }
        if probe is not None:
            await self.manager.update_device_list(self.names[0], probe, {d: None for d in DEVICES})
            out["relearned"] = await infos(probe)
        mark = len(self.app.sent)
        await self.manager.after_history_sync()
        out["pending replies"] = sorted(
            (m.namespace, e.bare_jid, e.device_id) for _, m in self.app.sent[mark:] for e, _ in m.keys
        )
        return out


def run(case: Any, ctx: Ctx, limit: int = 48) -> None:
    cfg = list(case["cfg"]) + [0] * 12
    cfg[5] &= ~2
    name, *args = case["target"]
    seed = cfg[0]
    with virtual_loop() as loop, deterministic_secrets(seed):
        base = Machine({"cfg": cfg, "ops": []}, set())
        base.loop = loop
        base.setup(cfg)
        if name != "create_first":
            for op in case["ops"]:
                base.step(op)

        if name == "purge_ns":
            # A restart after a partial purge loads the backend again, which includes fetching its own list, and
            # of several labels the last one fetched counts. Let all lists agree.
            for (_, jid), server_list in base.server.lists.items():
                if jid == OWN:
                    for d in server_list:
                        if d != base.own_dev:
                            server_list[d] = "tablet"
            base.step(["refresh_all", JIDS.index(OWN)])
        if name == "create_first":
            # the same server, but this device is new
            old = base.own_dev
            base.data = {}
            for lst in base.server.lists.values():
                lst.pop(old, None)
            base.server.bundles.clear()
            base.own_dev = 0
        before = list(base.loaded)
        after = Machine.pick_backends(args[0]) if name in ("create", "create_first") else before
        purged = NAMESPACES[args[0] % 3] if name == "purge_ns" else None
        if purged is not None and before == [purged]:
            return
        probe = PEERS[args[0] % 2] if name == "purge_jid" else None
        ignore = [ns for ns in before if ns not in after] if name == "create" else []
        lst = {d: LABELS[(args[1] >> i) % len(LABELS)] for i, d in enumerate(DEVICES) if (args[2] >> i) & 1}
        push_jid, push_ns = JIDS[args[3] % 3], before[args[0] % len(before)]
        label = LABELS[args[0] % len(LABELS)]

        async def target(f: Fork) -> None:
            if name in ("create", "create_first"):
                await f.boot(after)
            elif name == "push":
                await f.manager.update_device_list(push_ns, push_jid, lst)
            elif name == "refresh_all":
                await f.manager.refresh_device_lists(push_jid)
            elif name == "label":
                await f.manager.set_own_label(label)
            elif name == "ensure":
                await f.manager.ensure_data_consistency()
            elif name == "purge_ns":
                await f.manager.purge_backend(purged)
                f.names = [ns for ns in f.names if ns != purged]
            elif name == "purge_jid":
                await f.manager.purge_bare_jid(probe)

        creating = name in ("create", "create_first")

        async def fresh() -> Fork:
            f = Fork(base)
            if not creating:
                await f.boot(before)
            return f

        # reference run
        ref = loop.run(fresh())
        ref.faults.arm({})
        try:
            loop.run(target(ref))
        except Exception as e:  # pylint: disable=broad-except
            raise Abandon(f"{name} fails without any fault: {e!r}") from e
        ref.faults.disarm()
        kinds = list(ref.faults.seen)
        want = loop.run(ref.view(probe, ignore))
        ctx.say(f"state after {case['ops'] if name != 'create_first' else 'nothing'}")
        ctx.say(f"{name} {args} makes {len(kinds)} interactions: {kinds}")
        ctx.note("target." + name)

        points: List[Tuple[int, str, bool]] = [
            (k, mode, restart)
            for k, kind in enumerate(kinds)
            for mode in (("before", "after") if kind in WRITES else ("before",))
            for restart in ((True,) if creating else (False, True))
        ]
        rng = random.Random(repr(case))
        if len(points) > limit:
            points = sorted(rng.sample(points, limit))
        only = case.get("point")
        for k, mode, restart in points if only is None else [tuple(only)]:
            second = rng.choice([None, None, rng.randrange(max(1, len(kinds)))])
            second_mode = rng.choice(["before", "after"])
            f = loop.run(fresh())
            f.faults.arm({k: mode})
            attempts = 0
            failures: List[str] = []
            while True:
                attempts += 1
                try:
                    loop.run(target(f))
                except Exception as e:  # pylint: disable=broad-except
                    failures.append(f"{e!r} at {f.faults.fired}")
                    fired = bool(f.faults.fired)
                    f.faults.disarm()
                    ctx.expect(
                        fired,
                        f"{name} fails although nothing failed in this attempt; interaction {k} ({kinds[k]}) had"
                        f" failed {mode} taking effect in the first one{', then restart' if restart else ''}:"
                        f" {failures}"
                    )
                    if restart and not creating:
                        try:
                            loop.run(f.boot(before))
                        except Exception as e2:  # pylint: disable=broad-except
                            ctx.expect(False, f"restart after {failures} fails: {e2!r}")
                    if attempts == 1 and second is not None:
                        f.faults.arm({second: second_mode})
                    continue
                break
            f.faults.disarm()
            try:
                got = loop.run(f.view(probe, ignore))
            except Exception as e:  # pylint: disable=broad-except
                ctx.expect(False, f"{name} interrupted by {failures} leaves a state in which calls fail: {e!r}")
            for what in want:
                ctx.expect(
                    got[what] == want[what],
                    f"{name} interrupted by {failures or 'a tolerated fault ' + kinds[k]} and repeated"
                    f" ({'restart' if restart else 'same process'}): {what} is {got[what]}, but {want[what]} without"
                    f" interruption"
                )
            ctx.sub(f"{k} {mode} {restart} {second}", nontrivial=bool(failures))
            ctx.events[f"fault.{kinds[k]}.{mode}.{'restart' if restart else 'retry'}"] += 1
            if len(failures) > 1:
                ctx.events["fault.twice"] += 1


def strategy(tier: str) -> Any:
    op = st.tuples(st.sampled_from(expand(PREFIX)), st.binary(min_size=7, max_size=7)).map(lambda t: [t[0], *t[1]])
    ops = st.sampled_from([0, 4, 10, 18]).flatmap(lambda n: st.lists(op, min_size=n // 2, max_size=n))
    return st.builds(
        lambda cfg, ops, target, args: {"cfg": list(cfg), "ops": ops, "target": [target, *args]},
        st.binary(min_size=11, max_size=11), ops, st.sampled_from(TARGETS), st.binary(min_size=4, max_size=4)
    )


def check(prop: str) -> Check:
    from .chaos import part as chaos_part
    return Check(
        prop,
        [
            Part("faults", strategy, run, 1000, 10000),
            chaos_part(),
        ],
        "case = generated history + one operation + one interaction of that operation with storage or network that"
        " fails (before or after taking effect), optionally a second one during the repetition, + repetition in the"
        " same process or after a restart; non-trivial if the operation did fail; the oracle is the same operation"
        " from the same state without failure",
        level="fault_enumeration",
        bounds="all interactions of the operation as failure points, at most 48 (sampled) per state"
    )
