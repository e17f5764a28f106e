"""
C27: encryption and decryption that failed can be repeated, and the conversation goes on.

From a generated state, a message is encrypted or decrypted without failure (the reference), and then once per
interaction of that operation with storage, network and application, failing there. The operation is then repeated, in
the same process or after a restart, followed by messages from and to all devices of both peers.
"""
from __future__ import annotations

import random
from typing import Any, Dict, List, Optional, Tuple

from hypothesis import strategies as st

import omemo

from ..machine import JIDS, NAMESPACES, OWN, PEERS, Machine
from ..runner import Check, Ctx, Part
from ..sym import SymContent
from ..world import Abandon, deterministic_secrets, virtual_loop
from .faults import WRITES
from .machine_checks import expand
from .reports import Reporting

PREFIX = "list*4 trust*3 info encrypt*4 exchange*5 talk*3 restart sync*2 send*2"


IGNORED = "not read, since the device uses another session"


class Resuming(Reporting):
    def __init__(self, base: Machine, ctx: Ctx) -> None:
        super().__init__(base)
        self.ctx = ctx
        self.inbox = []

    def expect(self, tags: str, cond: bool, message: str) -> None:
        self.ctx.expect(cond, message)

    async def keep_talking(self) -> Dict[str, str]:
        """Messages to everybody, and answers of everybody who can read them."""
        out: Dict[str, str] = {}
        for jid in PEERS:
            try:
                messages, errors = await self.manager.encrypt(frozenset({jid}), {n: b"more" for n in NAMESPACES})
            except omemo.OMEMOException as e:
                out[f"to {jid}"] = type(e).__name__
                continue
            for error in errors:
                out[f"to {jid}: {error.namespace} {error.bare_jid}/{error.device_id}"] = type(error.exception).__name__
            for message in messages:
                for ekm, _ in message.keys:
                    who = f"to {jid}: {message.namespace} {ekm.bare_jid}/{ekm.device_id}"
                    raw = await self._recv(message, ekm.bare_jid, ekm.device_id)
                    if raw is None:
                        out[who] = IGNORED
                        continue
                    mark = len(self.inbox)
                    await self._send(raw, message.namespace, 0, 0, 0)
                    out[who] = f"read, answers: {[await self.read(answer) for _, answer in self.inbox[mark:]]}"
        return out

    async def read(self, message: omemo.Message) -> str:
        try:
            plaintext, device, _ = await self.manager.decrypt(message)
        except omemo.OMEMOException as e:
            return type(e).__name__
        assert isinstance(message.content, SymContent)
        if message.content.empty:
            return "empty" if plaintext is None else repr(plaintext)
        right = plaintext == message.content.body and (device.bare_jid, device.device_id) == message[1:3]
        return "read" if right else repr((plaintext, device))

    def own_keys(self) -> Any:
        """What is left of the pre keys, and whether the published ones are these."""
        return {
            ns: (
                len(s["pks"]), len(s["hidden"]),
                getattr(self.server.bundles.get((ns, OWN, self.own_dev)), "pks", None) == frozenset(s["pks"])
            ) for ns, s in self.states().items()
        }


def summary(result: Any) -> Any:
    messages, errors = result
    return (
        sorted((m.namespace, e.bare_jid, e.device_id) for m in messages for e, _ in m.keys),
        sorted((e.namespace, e.bare_jid, e.device_id, type(e.exception).__name__) for e in errors)
    )


def run(case: Any, ctx: Ctx, limit: int = 30) -> None:
    cfg = list(case["cfg"]) + [0] * 12
    cfg[5] &= ~2
    name, *args = case["target"]
    with virtual_loop() as loop, deterministic_secrets(cfg[0]):
        base = Machine({"cfg": cfg, "ops": []}, set())
        base.loop = loop
        base.setup(cfg)
        for op in case["ops"]:
            base.step(op)
        before = list(base.loaded)
        ns = before[args[0] % len(before)]
        message: Any = None
        if name == "decrypt":
            if not base.inbox or args[1] % 2:
                base.step(["send", args[0], args[2], NAMESPACES.index(ns), 3 if args[1] & 2 else 0, 0, args[3]])
            if not base.inbox:
                return
            message = base.inbox[-1 - args[0] % min(3, len(base.inbox))][1]
            if args[1] & 4:  # listed by now, but this device doesn't know yet
                base.server.lists.setdefault((message.namespace, message.bare_jid), {})[message.device_id] = None
            if message.device_id in base.m_dev[message.bare_jid]:
                # bring everything up to date: a bundle that can't be downloaded leads to a refresh
                _, exc = base.call(base.manager.refresh_device_lists(message.bare_jid))
                if exc is not None:
                    return
            elif args[1] & 4:
                # the refresh tells about the sender and nothing else
                base.server.lists[(message.namespace, message.bare_jid)] = {
                    **{d: None for d, rec in base.m_dev[message.bare_jid].items() if rec["ns"].get(message.namespace)},
                    message.device_id: None
                }
        recipients = frozenset(j for i, j in enumerate(PEERS) if ((args[1] or 3) >> i) & 1) or frozenset(PEERS)
        catching_up = not args[3] & 64
        restart_anyway = bool(args[3] & 32)
        deliver = bool(args[3] & 16)
        second = bool(args[3] & 8)

        async def start(f: Resuming) -> None:
            await f.boot(before)
            if not catching_up:
                await f.manager.after_history_sync()

        async def target(f: Resuming) -> Any:
            if name == "encrypt":
                return await f.manager.encrypt(recipients, {n: b"text" for n in NAMESPACES}, None, "identifier")
            return await f.manager.decrypt(message)

        async def attempt(f: Resuming) -> Tuple[Any, Optional[Exception]]:
            try:
                return await target(f), None
            except Exception as e:  # pylint: disable=broad-except
                return None, e
            finally:
                f.faults.armed = False

        def fresh() -> Resuming:
            f = Resuming(base, ctx)
            loop.run(start(f))
            return f

        async def conclude(f: Resuming, result: Any) -> Dict[str, Any]:
            """What is there after the operation succeeded."""
            out: Dict[str, Any] = {}
            if name == "encrypt":
                out["recipients and errors"] = summary(result)
                for m in result[0]:
                    for ekm, _ in m.keys:
                        out[f"{m.namespace} {ekm.bare_jid}/{ekm.device_id} reads the message"] = await f._recv(
                            m, ekm.bare_jid, ekm.device_id
                        ) is not None
            else:
                out["plaintext"] = result[0]
                out["sender"] = tuple(result[1])[2:]
                out["pre keys"] = f.own_keys()
            return out

        ref = fresh()
        untouched = {n: ref.data.get(f"/{n}/sessions") for n in before}
        ref.faults.arm({})
        ref_result, exc = loop.run(attempt(ref))
        if isinstance(exc, omemo.OMEMOException):
            ctx.note(f"refused.{name}.{type(exc).__name__}")
            return
        if exc is not None:
            raise Abandon(f"{name} fails without any fault: {exc!r}") from exc
        kinds = list(ref.faults.seen)
        ref.faults.disarm()
        want = loop.run(conclude(ref, ref_result))
        if name == "decrypt" and catching_up:
            mark = len(ref.app.sent)
            loop.run(ref.manager.after_history_sync())
            want["replies"] = replies(ref, mark)
        talk = loop.run(ref.keep_talking())
        ctx.say(f"state after {case['ops']}")
        ctx.say(f"{name} {args} makes {len(kinds)} interactions: {kinds}")
        ctx.say(f"without failure: {want}, then {talk}")
        ctx.note("target." + name)

        points: List[Tuple[int, str, int]] = [
            (k, mode, -1) for k, kind in enumerate(kinds)
            for mode in (("before", "after") if kind in WRITES | {"n.send"} else ("before",))
        ]
        rng = random.Random(repr(case))
        if len(points) > limit:
            rng.shuffle(points)
            points = sorted(sorted(points, key=lambda p: kinds[p[0]] in ("s.load",))[:limit])
        if second:
            points = [(k, mode, rng.randrange(len(kinds)) if rng.random() < 0.4 else -1) for k, mode, _ in points]
        only = case.get("point")
        for k, mode, again in points if only is None else [tuple(only)]:
            f = fresh()
            f.faults.arm({k: mode})
            result, exc = loop.run(attempt(f))
            fired = list(f.faults.fired)
            f.faults.disarm()
            if not fired:
                continue
            what = f"{name} with failing {fired[0][1]} ({mode}, {k})"
            if again >= 0 and exc is not None:
                f.faults.arm({again: mode})
                result, exc2 = loop.run(attempt(f))
                if f.faults.fired:
                    what += f", failing {f.faults.fired[0][1]} ({mode}, {again}) when repeated"
                f.faults.disarm()
                exc = exc2 or exc
            kept = all(f.data.get(f"/{n}/sessions") == untouched[n] for n in before)
            sent = len(f.app.sent)
            ctx.say(f"{what} -> {exc!r}, sessions {'kept' if kept else 'changed'}")
            if deliver:
                for _, reply in list(f.app.sent):
                    for ekm, _ in reply.keys:
                        loop.run(f._recv(reply, ekm.bare_jid, ekm.device_id))
            # a store that takes effect and then raises leaves the storage cache outdated
            if restart_anyway or (base.cache and mode == "after"):
                loop.run(start(f))
            if name == "encrypt":
                # whatever came of the first attempt
                result, exc = loop.run(attempt(f))
                ctx.expect(exc is None, f"{what}: fails with {exc!r} when repeated")
                got = loop.run(conclude(f, result))
                ctx.expect(got == want, f"{what}: when repeated {got}, without failure {want}")
            elif kept and exc is not None:
                result, exc = loop.run(attempt(f))
                ctx.expect(
                    exc is None, f"{what}: no session was stored, but decryption fails with {exc!r} when repeated"
                )
                got = loop.run(conclude(f, result))
                if catching_up:
                    loop.run(f.manager.after_history_sync())
                    got["replies"] = replies(f, sent)
                ctx.expect(got == want, f"{what}: when repeated {got}, without failure {want}")
                ctx.events["repeated.decrypt"] += 1
            elif exc is not None:
                # the plaintext may be lost, but not the conversation
                ctx.events["lost.decrypt"] += 1
            if catching_up and name == "decrypt":
                loop.run(f.manager.after_history_sync())
            got_talk = loop.run(f.keep_talking())
            differing = {
                who: (got_talk.get(who), talk.get(who)) for who in sorted(set(talk) | set(got_talk))
                if got_talk.get(who) != talk.get(who) and talk.get(who) != IGNORED
            }
            ctx.expect(not differing, f"{what}: later messages (with, without failure) {differing}")
            ctx.sub(f"{k} {mode} {again}", nontrivial=True)
            ctx.events[f"fault.{name}.{fired[0][1]}"] += 1


def replies(f: Resuming, mark: int) -> Any:
    return sorted((m.namespace, e.bare_jid, e.device_id) for _, m in f.app.sent[mark:] for e, _ in m.keys)


def strategy(tier: str) -> Any:
    op = st.tuples(st.sampled_from(expand(PREFIX)), st.binary(min_size=7, max_size=7)).map(lambda t: [t[0], *t[1]])
    ops = st.sampled_from([0, 4, 10, 18]).flatmap(lambda n: st.lists(op, min_size=n // 2, max_size=n))
    return st.builds(
        lambda cfg, ops, target, args: {"cfg": list(cfg), "ops": ops, "target": [target, *args]},
        st.binary(min_size=11, max_size=11), ops, st.sampled_from(["encrypt", "decrypt"]), st.binary(min_size=4, max_size=4)
    )


def check(prop: str) -> Check:
    return Check(
        prop,
        [Part("resume", strategy, run, 900, 14000)],
        "case = generated history + a message being encrypted or decrypted + one interaction of that operation with"
        " storage, network or the application's callbacks that fails; then the operation is repeated and everybody"
        " keeps talking; non-trivial if the failure took place; compared with the same without failure",
        level="fault_enumeration",
        bounds="all interactions of the operation as failure points, at most 30 (sampled) per state"
    )
