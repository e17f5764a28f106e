"""
C03: several real session managers talk to each other over a server that delays, reorders, loses and repeats.

The same scenario runs with symbolic backends (fast) and with the real ones (twomemo and oldmemo).
"""
from __future__ import annotations

import asyncio
import random
from typing import Any, Dict, FrozenSet, List, Optional, Set, Tuple

from hypothesis import strategies as st

import omemo

from ..runner import Check, Ctx, Part
from ..sym import Ids, StorageKV, SymBackend
from ..world import App, Faults, MemStorage, Server, deterministic_secrets, make_manager_class, virtual_loop
from .machine_checks import RULES, machine_part

ACCOUNTS = ["alice@x.org", "bob@x.org", "alice@x.org.uk"]
SETS = [[0, 1], [1, 0], [0, 1], [0], [1]]


def backend_names(real: bool) -> List[str]:
    return ["urn:xmpp:omemo:2", "eu.siacs.conversations.axolotl"] if real else ["ns:a", "ns:b"]


class Device:
    def __init__(self, net: "Network", jid: str, names: List[str], index: int) -> None:
        self.net, self.jid, self.names, self.index = net, jid, names, index
        self.data: Dict[str, str] = {}
        self.app = App(jid, net.server, Faults())
        self.app.decide = self.trust_everyone
        self.manager: Any = None
        self.dev = 0
        self.ik = b""
        self.backends: Dict[str, Any] = {}
        self.used: Dict[Tuple[str, Any], Any] = {}

    @staticmethod
    async def trust_everyone(manager: Any, undecided: FrozenSet[Any], _: Optional[str]) -> None:
        for d in undecided:
            await manager.set_trust(d.bare_jid, d.identity_key, "verified")

    def boot(self) -> None:
        storage = MemStorage(self.data, self.net.cache)
        self.backends = {}
        for name in self.names:
            if not self.net.real:
                self.backends[name] = SymBackend(
                    name, StorageKV(storage), self.net.ids, self.net.loop.time, storage=storage,
                    pick=lambda pks: self.net.rng.choice(sorted(pks))
                )
            elif name == "urn:xmpp:omemo:2":
                import twomemo
                self.backends[name] = twomemo.Twomemo(storage)
            else:
                import oldmemo
                self.backends[name] = oldmemo.Oldmemo(storage)
        self.manager = self.net.loop.run(make_manager_class(self.app).create(
            backends=[self.backends[name] for name in self.names], storage=storage, own_bare_jid=self.jid,
            initial_own_label=None, undecided_trust_level_name="new"
        ))
        own, _ = self.net.loop.run(self.manager.get_own_device_information())
        self.net.ctx.expect(self.dev in (0, own.device_id), "device id changed on restart")
        self.dev, self.ik = own.device_id, own.identity_key

    def has_session(self, ns: str, other: "Device") -> bool:
        return ns in self.backends and \
            self.net.loop.run(self.backends[ns].load_session(other.jid, other.dev)) is not None

    def __repr__(self) -> str:
        return f"{self.jid.replace('@x.org', '')}/{self.index}"


def kex_key(kex: Any, real: bool) -> Tuple[Any, Any]:
    """(which pre key, which session)"""
    if real:
        return kex.pre_key_id, repr(kex.header)
    return kex.pk, kex._key()


def same_key_material(a: Any, b: Any) -> bool:
    return type(a) is type(b) and vars(a) == vars(b)


class Network:
    def __init__(self, case: Any, ctx: Ctx, loop: Any, real: bool) -> None:
        self.case, self.ctx, self.loop, self.real = case, ctx, loop, real
        self.server = Server()
        self.ids = Ids()
        self.cache = bool(case["cfg"][1] % 2)
        self.rng = random.Random(case["cfg"][0])
        self.devices: List[Device] = []
        self.items: List[Dict[str, Any]] = []
        self.broken: Set[Any] = set()
        self.replaced: Set[Any] = set()
        self.count = 0

    def run(self) -> None:
        cfg = self.case["cfg"]
        for i in range(2 + cfg[2] % 2):
            self.join(i, cfg[3 + i])
        for op in self.case["ops"]:
            getattr(self, "op_" + op[0])(*op[1:])
            self.collect()
        self.op_flush()

    def join(self, account: int, which: int) -> None:
        names = [backend_names(self.real)[i] for i in SETS[which % len(SETS)]]
        device = Device(self, ACCOUNTS[account % len(ACCOUNTS)], names, len(self.devices))
        self.devices.append(device)
        device.boot()
        self.ctx.say(f"{device} joins with {names}")
        self.announce()

    def announce(self) -> None:
        """PEP notifications: everyone gets every list."""
        for device in self.devices:
            for (ns, jid), lst in sorted(self.server.lists.items()):
                if ns in device.names:
                    self.loop.run(device.manager.update_device_list(ns, jid, dict(lst)))

    def collect(self) -> None:
        """Pick up what the library sent on its own."""
        for device in self.devices:
            for _, message in device.app.sent:
                self.ctx.expect(message.content.empty, "automatic message with content")
                self.enqueue(device, message, None, None)
            device.app.sent.clear()

    def enqueue(self, sender: Device, message: Any, plaintext: Optional[bytes], plain: Any) -> None:
        for ekm, kex in message.keys:
            target = next(
                (d for d in self.devices if (d.jid, d.dev) == (ekm.bare_jid, ekm.device_id)), None
            )
            self.ctx.expect(target is not None, "message for a device that does not exist")
            self.items.append({
                "from": sender, "to": target, "message": message, "body": plaintext, "plain": plain,
                "kex": kex, "state": "in flight", "n": len(self.items)
            })

    @staticmethod
    def pair(ns: str, a: Device, b: Device) -> Any:
        return ns, frozenset({a.index, b.index})

    def deliver(self, item: Dict[str, Any]) -> bool:
        device, sender, message = item["to"], item["from"], item["message"]
        ns = message.namespace
        pair = self.pair(ns, device, sender)
        replay = item["state"] == "read"
        kex = item["kex"]
        exempt = pair in self.broken
        if kex is not None:
            pre_key, session = kex_key(kex, self.real)
            if device.used.setdefault((ns, pre_key), session) != session:
                exempt = True  # two sessions were built with the same pre key
                self.broken.add(pair)
        try:
            body, info, plain = self.loop.run(device.manager.decrypt(message))
        except omemo.OMEMOException as e:
            self.ctx.say(f"#{item['n']} {sender} -> {device} [{ns}] -> {e!r}")
            if not exempt:
                self.ctx.expect(replay, f"{device} can't read message #{item['n']} from {sender} [{ns}]: {e!r}")
                self.ctx.hit("replay refused")
            self.collect()
            return False
        except Exception as e:  # pylint: disable=broad-except
            self.ctx.expect(
                False, f"{device}: decrypting message #{item['n']} from {sender} [{ns}] raised {e!r}"
            )
        self.collect()
        self.ctx.say(f"#{item['n']} {sender} -> {device} [{ns}] -> {body!r}")
        if exempt:
            item["state"] = "read"
            return True
        self.ctx.expect(not replay, f"{device} read message #{item['n']} from {sender} twice")
        self.ctx.expect(
            body == item["body"], f"{device} read {body!r} instead of {item['body']!r} from {sender} [{ns}]"
        )
        if item["plain"] is not None:
            self.ctx.expect(same_key_material(plain, item["plain"]), "sender and recipient have different key material")
        self.ctx.expect(
            (info.bare_jid, info.device_id, info.identity_key) == (sender.jid, sender.dev, sender.ik),
            f"message from {sender} attributed to {info.bare_jid}/{info.device_id}"
        )
        item["state"] = "read"
        earlier = [
            i for i in self.items[:item["n"]]
            if i["from"] is sender and i["to"] is device and i["message"].namespace == ns and i["state"] != "read"
        ]
        kind = "empty" if body is None else ("kex" if kex is not None else "plain")
        self.ctx.hit("read." + kind + (".out_of_order" if earlier else ""))
        return True

    def waiting(self, device: Optional[Device] = None) -> List[Dict[str, Any]]:
        return [i for i in self.items if i["state"] == "in flight" and device in (None, i["to"])]

    # -- operations ----------------------------------------------------------------------------------------

    def op_encrypt(self, who: int, to: int, size: int, order: int) -> None:
        sender = self.devices[who % len(self.devices)]
        accounts = sorted({d.jid for d in self.devices} - {sender.jid})
        jids = frozenset([accounts[to % len(accounts)]] if to % 3 else accounts)
        # both sides starting a session at the same time is not something OMEMO can handle: listen first
        for other in self.devices:
            if other is sender:
                continue
            for ns in set(sender.names) & set(other.names):
                if other.has_session(ns, sender) and not sender.has_session(ns, other):
                    candidates = [
                        i for i in self.items if i["from"] is other and i["to"] is sender and i["state"] != "read"
                        and i["message"].namespace == ns
                    ]
                    if not candidates or not self.deliver(candidates[size % len(candidates)]):
                        self.broken.add(self.pair(ns, sender, other))
        self.count += 1
        # (oldmemo can't tell an empty plaintext from an empty message, that is a limitation of that backend)
        plaintext = {
            ns: b"" if size % 9 == 0 and not self.real else f"#{self.count} [{ns}] ".encode() * (1 + size % 40)
            for ns in sender.names
        }
        names = list(sender.names)
        if order % 2:
            names.reverse()
        try:
            messages, errors = self.loop.run(sender.manager.encrypt(jids, dict(plaintext), names))
        except omemo.NoEligibleDevices as e:
            self.ctx.note("no eligible devices")
            self.ctx.say(f"{sender} can't reach {sorted(e.bare_jids)}")
            for jid in e.bare_jids:
                self.ctx.expect(
                    not any(d.jid == jid and set(d.names) & set(names) for d in self.devices),
                    f"{sender} can't reach {jid} although it supports a common backend"
                )
            return
        except Exception as e:  # pylint: disable=broad-except
            self.ctx.expect(False, f"encrypt by {sender} failed: {e!r}")
        self.ctx.expect(not errors, f"encrypt by {sender} reports {[e.exception for e in errors]}")
        self.ctx.say(f"{sender} encrypts for {sorted(jids)}: {[(m.namespace, len(m.keys)) for m in messages]}")
        for message, plain in sorted(messages.items(), key=lambda p: p[0].namespace):
            self.enqueue(sender, message, plaintext[message.namespace], plain)

    def op_deliver(self, who: int, which: int) -> None:
        items = self.waiting(self.devices[who % len(self.devices)]) or self.waiting()
        if items:
            self.deliver(items[which % len(items)])

    def op_drain(self, who: int, reverse: int) -> None:
        items = self.waiting(self.devices[who % len(self.devices)])
        for item in reversed(items) if reverse % 2 else items:
            self.deliver(item)

    def op_lose(self, which: int) -> None:
        items = self.waiting()
        if items:
            item = items[which % len(items)]
            item["state"] = "lost"
            self.ctx.say(f"#{item['n']} is lost (for now)")
            self.ctx.note("lost")

    def op_replay(self, which: int) -> None:
        items = [
            i for i in self.items if i["state"] == "read"
            and self.pair(i["message"].namespace, i["from"], i["to"]) not in self.broken | self.replaced
        ]
        if items:
            self.deliver(items[-1 - which % len(items)])

    def op_restart(self, who: int, order: int) -> None:
        device = self.devices[who % len(self.devices)]
        if order % 2:
            device.names.reverse()
        self.ctx.say(f"{device} restarts")
        self.ctx.note("restart")
        device.boot()
        self.announce()

    def op_sync(self, who: int, begin: int) -> None:
        device = self.devices[who % len(self.devices)]
        if begin % 4 == 3:
            device.manager.before_history_sync()
        else:
            self.loop.run(device.manager.after_history_sync())
        self.ctx.say(f"{device} {'starts' if begin % 4 == 3 else 'ends'} catch-up")

    def op_join(self, account: int, which: int) -> None:
        if len(self.devices) < (4 if self.real else 5):
            self.join(account % 3, which)

    def op_replace(self, a: int, b: int) -> None:
        one, two = self.devices[a % len(self.devices)], self.devices[b % len(self.devices)]
        if one is two or any({i["from"], i["to"]} == {one, two} for i in self.waiting()):
            return
        info = next((
            d for d in self.loop.run(one.manager.get_device_information(two.jid)) if d.device_id == two.dev
        ), None)
        if info is None:
            return
        result = self.loop.run(one.manager.replace_sessions(info))
        self.ctx.expect(not result, f"replacing sessions failed: {result}")
        for ns in one.names:
            self.replaced.add(self.pair(ns, one, two))
        for item in self.items:
            if {item["from"], item["to"]} == {one, two} and item["state"] == "lost":
                item["state"] = "gone"
        self.collect()
        for item in self.waiting(two):
            if item["from"] is one:
                self.ctx.note("replaced")
                self.deliver(item)

    def op_flush(self) -> None:
        """In the end everything arrives."""
        for _ in range(20):
            items = self.waiting()
            if not items:
                break
            for item in items:
                self.deliver(item)


def strategy(real: bool) -> Any:
    def make(tier: str) -> Any:
        n = st.integers(0, 255)
        ops = {
            "encrypt": 4, "deliver": 2, "drain": 2, "lose": 1, "replay": 1, "restart": 2, "sync": 2, "join": 1, "replace": 1
        }
        arity = {
            "encrypt": 4, "deliver": 2, "drain": 2, "lose": 1, "replay": 1, "restart": 2, "sync": 2, "join": 2, "replace": 2
        }
        op = st.sampled_from(sorted(k for k, w in ops.items() for _ in range(w))).flatmap(
            lambda name: st.tuples(st.just(name), *[n] * arity[name]).map(list)
        )
        size = 12 if real else 24
        if tier == "thorough":
            size *= 3
        return st.builds(
            lambda cfg, ops: {"cfg": list(cfg), "ops": ops}, st.binary(min_size=6, max_size=6),
            st.lists(op, min_size=size // 3, max_size=size)
        )

    return make


def runner(real: bool) -> Any:
    def run(case: Any, ctx: Ctx) -> None:
        with virtual_loop() as loop, deterministic_secrets(case["cfg"][0], extremes=False):
            Network(case, ctx, loop, real).run()

    return run


def check(prop: str) -> Check:
    return Check(
        prop,
        [
            machine_part(prop, 1200, 40000),
            Part("network", strategy(False), runner(False), 1600, 24000),
            Part("real", strategy(True), runner(True), 320, 4000)
        ],
        "machine: one session manager against scripted devices; network: several session managers with symbolic"
        " backends exchange messages through a server that delays, reorders, loses and repeats them; real: the same"
        " with the twomemo and oldmemo backends; oracle: what was encrypted; non-trivial if a message was read or a"
        " repeated one refused",
        bounds="both sides of a pair starting a session at the same time, and two sessions built with the same pre"
               " key, are excluded (the protocol does not handle these)"
    )
