"""
C26: whatever fails is reported.

From a generated state, one operation is run with one interaction failing (or all of one kind, from some point on). The
oracle is the table of documented outcomes: the error of the interaction that failed, except where the documentation
says how the failure is dealt with.
"""
from __future__ import annotations

import random
from typing import Any, Dict, List, Tuple

from hypothesis import strategies as st

import omemo

from ..machine import DEVICES, JIDS, LABELS, NAMESPACES, OWN, PEERS, Machine
from ..runner import Check, Ctx, Part
from ..world import Abandon, deterministic_secrets, virtual_loop
from .faults import WRITES, Fork
from .machine_checks import expand

PREFIX = "list*4 trust*4 info encrypt*4 exchange*4 talk*2 label restart drift*2 bundle sync send*2"
TARGETS = [
    "create_first", "create", "push", "refresh_all", "label", "ensure", "purge_ns", "purge_jid", "end_of_sync", "info",
    "trust", "chain", "replace", "replace", "encrypt", "encrypt", "encrypt", "decrypt", "decrypt", "decrypt"
]
FORWARDED = {
    "s.load": omemo.StorageException, "s.store": omemo.StorageException, "s.delete": omemo.StorageException,
    "n.upload_bundle": omemo.BundleUploadFailed, "n.delete_bundle": omemo.BundleDeletionFailed,
    "n.upload_list": omemo.DeviceListUploadFailed, "n.download_list": omemo.DeviceListDownloadFailed,
    "n.send": omemo.MessageSendingFailed, "a.evaluate": omemo.UnknownTrustLevel, "a.decide": omemo.TrustDecisionFailed
}
# what may come of an operation if bundles it looked for could not be downloaded
WITHOUT_BUNDLES: Dict[str, Tuple[type, ...]] = {
    "encrypt": (omemo.NoEligibleDevices,), "decrypt": (omemo.SenderNotFound,)
}


class Reporting(Fork):
    """The application's callbacks can fail as well."""

    def __init__(self, base: Machine) -> None:
        super().__init__(base)
        app, faults = self.app, self.faults

        async def evaluate(manager: omemo.SessionManager, device: omemo.DeviceInformation) -> omemo.TrustLevel:
            if faults.hit("a.evaluate"):
                raise omemo.UnknownTrustLevel("injected")
            return await plain_evaluate(manager, device)

        async def decide(manager: omemo.SessionManager, undecided: Any, identifier: Any) -> None:
            if faults.hit("a.decide"):
                raise omemo.TrustDecisionFailed("injected")
            for device in undecided:
                await manager.set_trust(device.bare_jid, device.identity_key, "verified")

        from ..world import make_manager_class
        plain_evaluate = make_manager_class(app)._evaluate_custom_trust_level
        self.extra = {"_evaluate_custom_trust_level": evaluate, "_make_trust_decision": decide}


def run(case: Any, ctx: Ctx, limit: int = 40) -> None:
    cfg = list(case["cfg"]) + [0] * 12
    cfg[5] &= ~2
    name, *args = case["target"]
    with virtual_loop() as loop, deterministic_secrets(cfg[0]):
        base = Machine({"cfg": cfg, "ops": []}, set())
        base.loop = loop
        base.setup(cfg)
        if name != "create_first":
            for op in case["ops"]:
                base.step(op)
        if name == "create_first":
            old = base.own_dev
            base.data = {}
            for lst in base.server.lists.values():
                lst.pop(old, None)
            base.server.bundles.clear()
            base.own_dev = 0
        before = list(base.loaded)
        after = Machine.pick_backends(args[0]) if name in ("create", "create_first") else before
        jid, ns = JIDS[args[3] % 3], before[args[0] % len(before)]
        peer = PEERS[args[0] % 2]
        lst = {d: LABELS[(args[1] >> i) % len(LABELS)] for i, d in enumerate(DEVICES) if (args[2] >> i) & 1}
        purged = NAMESPACES[args[0] % 3]
        order = [None, None, before[::-1], before[-1:]][args[2] % 4]
        message: Any = None
        device: Any = None
        if name == "decrypt":
            if not base.inbox or args[1] % 2:
                base.step(["send", args[0], args[2], NAMESPACES.index(ns), 3 if args[1] & 2 else 0, 0, args[3]])
            if not base.inbox:
                return
            message = base.inbox[-1 - args[0] % min(3, len(base.inbox))][1]
            if args[1] & 4:  # listed by now, but this device doesn't know yet
                base.server.lists.setdefault((message.namespace, message.bare_jid), {})[message.device_id] = None
        if name in ("replace", "chain"):
            with_sessions = sorted((j, d) for _, j, d in base.sessions() if (j, d) != (OWN, base.own_dev))
            if not with_sessions:
                return
            wanted = with_sessions[args[1] % len(with_sessions)]
            device = next((
                d for d in loop.run(base.manager.get_device_information(wanted[0])) if d.device_id == wanted[1]
            ), None)
            if device is None:
                return

        async def target(f: Fork) -> Any:
            if name in ("create", "create_first"):
                return await f.boot(after)
            m = f.manager
            if name == "push":
                return await m.update_device_list(ns, jid, lst)
            if name == "refresh_all":
                return await m.refresh_device_lists(jid)
            if name == "label":
                return await m.set_own_label(LABELS[args[0] % len(LABELS)])
            if name == "ensure":
                return await m.ensure_data_consistency()
            if name == "purge_ns":
                return await m.purge_backend(purged)
            if name == "purge_jid":
                return await m.purge_bare_jid(peer)
            if name == "end_of_sync":
                return await m.after_history_sync()
            if name == "info":
                return await (m.get_own_device_information() if args[3] % 4 == 0 else m.get_device_information(jid))
            if name == "trust":
                return await m.set_trust(jid, b"\x01" * 32, "verified")
            if name == "chain":
                return await m.get_sending_chain_length(device)
            if name == "replace":
                return await m.replace_sessions(device)
            if name == "encrypt":
                recipients = frozenset(j for i, j in enumerate(PEERS) if ((args[1] or 3) >> i) & 1) or frozenset(PEERS)
                return await m.encrypt(recipients, {n: b"text" for n in NAMESPACES}, order, "identifier")
            return await m.decrypt(message)

        async def attempt(f: Fork) -> Any:
            try:
                return await target(f)
            finally:
                f.faults.armed = False  # what other tasks do is their own business

        async def fresh() -> Fork:
            f = Reporting(base)
            if name not in ("create", "create_first"):
                await f.boot(before)
                if args[3] & 64 and name != "end_of_sync":
                    await f.manager.after_history_sync()
            return f

        ref = loop.run(fresh())
        ref.faults.arm({})
        try:
            loop.run(attempt(ref))
        except omemo.OMEMOException as e:
            ctx.note(f"refused.{name}.{type(e).__name__}")
            return
        except Exception as e:  # pylint: disable=broad-except
            raise Abandon(f"{name} fails without any fault: {e!r}") from e
        kinds = list(ref.faults.seen)
        ref.faults.disarm()
        ctx.say(f"state after {case['ops'] if name != 'create_first' else 'nothing'}")
        ctx.say(f"{name} {args} makes {len(kinds)} interactions: {kinds}")
        ctx.note("target." + name)

        points: List[Tuple[int, str, bool]] = [
            (k, mode, persisting)
            for k, kind in enumerate(kinds)
            for mode in (("before", "after") if kind in WRITES | {"n.send"} else ("before",))
            for persisting in (False, True)
        ]
        rng = random.Random(repr(case))
        if len(points) > limit:
            rng.shuffle(points)  # network and application first, the storage is used much more often
            points = sorted(sorted(points, key=lambda point: kinds[point[0]].startswith("s."))[:limit])
        only = case.get("point")
        for k, mode, persisting in points if only is None else [tuple(only)]:
            f = loop.run(fresh())
            if persisting:
                kind = kinds[k]
                f.faults.arm({i: mode for i in range(kinds[:k].count(kind), 999)}, {kind})
            else:
                f.faults.arm({k: mode})
            result, exc = None, None
            try:
                result = loop.run(attempt(f))
            except Exception as e:  # pylint: disable=broad-except
                exc = e
            fired = [kind for _, kind, _ in f.faults.fired]
            f.faults.disarm()
            if not fired:
                continue  # the interactions come in another order this time
            what = f"{name} with failing {sorted(set(fired))} ({mode}{', persisting' if persisting else ''}, {k})"
            ctx.say(f"{what} -> {exc!r} {result if name == 'replace' else ''}")
            due = [FORWARDED[kind] for kind in fired if kind in FORWARDED]
            if due:
                reported = isinstance(exc, tuple(due))
                if name == "replace" and exc is None:
                    reported = isinstance(result, dict) and any(isinstance(e, tuple(due)) for e in result.values())
                ctx.expect(
                    reported,
                    f"{what} ended with {exc!r}{f' and {result}' if name == 'replace' else ''}, expected one of"
                    f" {sorted({t.__name__ for t in due})}"
                )
            else:
                ctx.expect(
                    exc is None or isinstance(exc, WITHOUT_BUNDLES.get(name, ())),
                    f"{what} ended with {exc!r}, although bundles that can't be downloaded are dealt with"
                )
            ctx.sub(f"{k} {mode} {persisting}", nontrivial=True)
            ctx.events[f"fault.{name}.{fired[0]}"] += 1


def strategy(tier: str) -> Any:
    op = st.tuples(st.sampled_from(expand(PREFIX)), st.binary(min_size=7, max_size=7)).map(lambda t: [t[0], *t[1]])
    ops = st.sampled_from([0, 4, 10, 18]).flatmap(lambda n: st.lists(op, min_size=n // 2, max_size=n))
    return st.builds(
        lambda cfg, ops, target, args: {"cfg": list(cfg), "ops": ops, "target": [target, *args]},
        st.binary(min_size=11, max_size=11), ops, st.sampled_from(TARGETS), st.binary(min_size=4, max_size=4)
    )


def check(prop: str) -> Check:
    return Check(
        prop,
        [Part("reports", strategy, run, 1400, 14000)],
        "case = generated history + one operation + one interaction of that operation with storage, network or the"
        " application's callbacks that fails (before or after taking effect), alone or with all later ones of its kind;"
        " non-trivial if the failure took place; the oracle is the table of documented outcomes",
        level="fault_enumeration",
        bounds="all interactions of the operation as failure points, at most 40 (sampled) per state"
    )
