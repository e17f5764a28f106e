"""
Histories in which any interaction with storage or network may fail at any time, and nobody repeats what failed.

There is no step-by-step model here. What is checked holds whatever happened: no two messages that left the library
share a message key (C05); once the failures are over, restarting and refreshing leads to device information that is
what the published lists say (C13), and restoring consistency publishes what is there locally (C18).
"""
from __future__ import annotations

from typing import Any, Dict, List, Optional, Set

from hypothesis import strategies as st

import omemo

from ..machine import BOB, BOB2, DEVICES, JIDS, LABELS, NAMESPACES, OWN, PEERS, Machine
from ..runner import Ctx, Part
from ..sym import SymBackend, SymBundle, SymEKM, sid_identity_keys
from ..world import App, Faults, MemStorage, Server, deterministic_secrets, make_manager_class, virtual_loop
from .machine_checks import expand

OPS = "list*4 refresh encrypt*6 exchange*6 talk*5 sync*3 restart*2 label ensure purge_jid purge_ns replace*2 trust*2 mode*2"
REJECTED = [(BOB, DEVICES[1]), (BOB2, DEVICES[2])]  # C01: distrusted once and for all


class Chaos(Machine):
    def __init__(self, case: Any, ctx: Ctx) -> None:
        super().__init__(case, set())
        self.ctx = ctx

    def say(self, text: str) -> None:
        self.ctx.say(text)

    def expect(self, tags: str, cond: bool, message: str) -> None:
        """Comparisons inherited from the machine do not apply."""

    def hit(self, tags: str, event: str) -> None:
        pass

    def note_key_use(self, ekm: SymEKM) -> None:
        key = (ekm.sid, ekm.side, ekm.bare_jid, ekm.device_id, ekm.epoch, ekm.n, ekm.ratchet)
        if self.ctx.prop == "C05":
            self.ctx.expect(key not in self.used_keys, f"message key {key[1:]} of one session used for two messages")
        self.used_keys.add(key)

    def make_backends(self, names: List[str], storage: omemo.Storage) -> List[SymBackend]:
        backends = super().make_backends(names, storage)
        for backend in backends:
            backend.unique_ratchets = True
        return backends

    def run(self) -> None:
        cfg = self.case["cfg"]
        with virtual_loop() as loop, deterministic_secrets(cfg[0]):
            self.loop = loop
            self.prepare(cfg)
            for name, fault, mode, *args in self.case["ops"]:
                self.one(name, fault, mode, args)
            self.settle()

    def prepare(self, cfg: List[int]) -> None:
        from ..sym import Ids
        self.ids = Ids()
        self.server = Server()
        self.server.bundle_source = self.serve_bundle
        self.faults = Faults()
        self.app = App(OWN, self.server, self.faults)
        self.app.decide = self.trust_all  # type: ignore[assignment]
        self.data: Dict[str, str] = {}
        self.cache = bool(cfg[1] % 2)
        self.threshold = [99, 25, 98, 60][cfg[2] % 4]
        self.undecided_name = "new"
        self.share = 0
        self.twin = False
        self.raws, self.modes = {}, {}
        self.inbox, self.outbox, self.used_keys = [], [], set()
        self.own_dev, self.loaded, self.manager = 0, [], None
        self.sent_seen = 0
        self.failures = 0
        self.trusted: Set[Any] = set()
        self.boot(self.pick_backends(cfg[3]), 255, 0)
        if self.ctx.prop == "C01":
            for jid, dev in REJECTED:
                self.h(self.manager.set_trust(jid, self.raw(jid, dev).ik, "rejected"))
        for jid in PEERS:
            for ns in self.loaded:
                self.one("list", 255, 0, [JIDS.index(jid), NAMESPACES.index(ns), 3, 0])

    async def trust_all(self, manager: Any, undecided: Any, _: Any) -> None:
        for d in undecided:
            self.trusted.add((d.bare_jid, d.identity_key))
            await manager.set_trust(d.bare_jid, d.identity_key, "verified")

    def arm(self, fault: int, mode: int) -> None:
        how = "after" if mode % 2 else "before"
        if fault >= 130:
            self.faults.arm({})
        elif fault >= 110:
            self.faults.arm({fault % 2: how}, {"n.send"})
        elif fault >= 70:
            self.faults.arm({fault % 10: how}, {"s.store", "s.delete"})
        else:
            self.faults.arm({fault % 40: how})

    def boot(self, names: List[str], fault: int, mode: int) -> None:
        """Start, as often as it takes."""
        import asyncio
        for attempt in range(3):
            for t in asyncio.all_tasks(self.loop):
                t.cancel()
            storage = MemStorage(self.data, self.cache, self.faults)
            self.app.loaded = set(names)
            self.arm(fault if attempt == 0 else 255, mode)
            manager, exc = self.call(make_manager_class(self.app).create(
                backends=list(self.make_backends(names, storage)), storage=storage, own_bare_jid=OWN,
                initial_own_label="initial", undecided_trust_level_name=self.undecided_name,
                pre_key_refill_threshold=self.threshold
            ))
            fired = list(self.faults.fired)
            self.faults.disarm()
            self.say(f"create({names}) {fired or ''} -> {exc!r}")
            if exc is None:
                break
            self.failures += 1
            if self.ctx.prop == "C13":
                self.ctx.expect(bool(fired), f"create fails although nothing fails any more: {exc!r}")
        else:
            self.ctx.expect(self.ctx.prop != "C13", "create keeps failing")
            raise_abandon("create keeps failing")
        self.manager = manager
        self.loaded = list(names)
        own, _ = self.h(self.manager.get_own_device_information())
        if self.own_dev and self.ctx.prop == "C12":
            self.ctx.expect(
                (own.device_id, own.identity_key) == (self.own_dev, self.own_ik), "device id or identity key changed"
            )
        self.own_dev, self.own_ik = own.device_id, own.identity_key

    def one(self, name: str, fault: int, mode: int, args: List[int]) -> None:
        args = list(args) + [0] * 6
        a, b, c, d, e, f = args[:6]
        if name == "restart":
            self.boot(list(self.loaded) if a % 3 else self.pick_backends(b), fault, mode)
            return
        if name in ("exchange", "talk"):
            self.incoming(name, fault, mode, args)
            return
        m = self.manager
        coro: Any = None
        if name == "list":
            jid, ns = JIDS[a % 3], NAMESPACES[b % 3]
            lst: Dict[int, Optional[str]] = {
                dev: LABELS[(d >> i) % len(LABELS)] for i, dev in enumerate(DEVICES) if (c >> i) & 1
            }
            if jid == OWN and c & 16:
                lst[self.own_dev] = self.server.lists.get((ns, OWN), {}).get(self.own_dev)
            if ns not in self.loaded:
                return
            self.server.lists[(ns, jid)] = dict(lst)
            coro = m.update_device_list(ns, jid, lst)
        elif name == "refresh":
            coro = m.refresh_device_lists(JIDS[a % 3])
        elif name == "encrypt":
            jids = frozenset(jid for i, jid in enumerate([BOB, BOB2]) if ((a % 3 + 1) >> i) & 1)
            coro = m.encrypt(jids, {ns: b"m%d" % self.ids() for ns in NAMESPACES})
        elif name == "sync":
            if a % 3 == 1:
                m.before_history_sync()
                return
            coro = m.after_history_sync()
        elif name == "label":
            coro = m.set_own_label(LABELS[a % len(LABELS)])
        elif name == "ensure":
            coro = m.ensure_data_consistency()
        elif name == "purge_jid":
            if self.ctx.prop == "C01":
                return  # would forget about the rejected devices
            coro = m.purge_bare_jid(PEERS[a % 2])
        elif name == "mode":
            jid, dev = JIDS[a % 3], DEVICES[b % 3]
            if (jid, dev) not in REJECTED:
                self.modes[(NAMESPACES[c % 3], jid, dev)] = ["evil", "ok", "nopk", "notfound"][d % 4]
            return
        elif name == "purge_ns":
            ns = NAMESPACES[a % 3]
            if self.loaded == [ns]:
                return
            coro = m.purge_backend(ns)
        elif name == "trust":
            jid, dev = JIDS[a % 3], DEVICES[b % 4]
            ik = self.raw(jid, dev, bool(d & 8)).ik
            name_ = ["verified", "rejected", "new"][c % 3]
            if (jid, dev) in REJECTED and self.ctx.prop == "C01":
                return
            if name_ == "verified":
                self.trusted.add((jid, ik))
            coro = m.set_trust(jid, ik, name_)
        elif name == "replace":
            jid, dev = JIDS[a % 3], DEVICES[b % 2]
            self.server.freeze = True
            infos, _ = self.call(m.get_device_information(jid))
            self.server.freeze = False
            info = next((i for i in infos or () if i.device_id == dev), None)
            if info is None:
                return
            coro = m.replace_sessions(info)
        self.arm(fault, mode)
        result, exc = self.call(coro)
        self.after(name, args, exc)
        while name == "purge_jid" and exc is not None:
            # a half purged account is not usable until this is repeated
            _, exc = self.call(m.purge_bare_jid(PEERS[a % 2]))
            self.ctx.expect(self.ctx.prop != "C13" or exc is None, f"purge_bare_jid keeps failing: {exc!r}")
        if name == "purge_ns" and exc is None:
            ns = NAMESPACES[a % 3]
            self.loaded = [n for n in self.loaded if n != ns]
            self.app.loaded = set(self.loaded)
        elif name == "purge_ns":
            self.boot([n for n in self.loaded if n != NAMESPACES[a % 3]], 255, 0)  # nobody knows what is loaded now
        if name == "encrypt" and exc is None:
            for message in result[0]:
                self.left(message)

    def after(self, name: str, args: List[int], exc: Optional[BaseException]) -> None:
        fired = list(self.faults.fired)
        self.faults.disarm()
        self.say(f"{name} {args} {fired or ''} -> {exc!r}")
        if fired:
            self.failures += 1
            self.ctx.events[f"chaos.{name}.{fired[0][1]}.{fired[0][2]}"] += 1
        new = self.app.sent[self.sent_seen:]
        self.sent_seen = len(self.app.sent)
        for _, message in new:
            self.left(message)

    def left(self, message: omemo.Message) -> None:
        for ekm, _ in message.keys:
            if self.ctx.prop == "C01" and not message.content.empty:
                active_ik, passive_ik = sid_identity_keys(ekm.sid)
                peer_ik = passive_ik if ekm.side == "A" else active_ik
                self.ctx.expect(
                    (ekm.bare_jid, peer_ik) in self.trusted,
                    f"message for {ekm.bare_jid}/{ekm.device_id} can be opened by identity key"
                    f" ...{peer_ik.hex()[-8:]}, which was never trusted"
                )
            self.note_key_use(ekm)
            self.say(f"   left: [{message.namespace}] for {ekm.bare_jid}/{ekm.device_id} key {ekm.side}{ekm.epoch}.{ekm.n}")
            self.outbox.append((message, ekm.bare_jid, ekm.device_id))

    def incoming(self, name: str, fault: int, mode: int, args: List[int]) -> None:
        a, b, c, d, e, f = args[:6]
        before = len(self.inbox)
        if name == "exchange":
            jid, dev, ns = JIDS[a % 3], DEVICES[b % 2], NAMESPACES[c % 3]
            if (ns, OWN, self.own_dev) not in self.server.bundles:
                return
            self.h(self._send(self.raw(jid, dev), ns, d & 31, e, f))
        else:
            if not self.outbox:
                return
            message, jid, dev = self.outbox.pop(-1 - (a % min(len(self.outbox), 4)))
            raw = self.h(self._recv(message, jid, dev))
            if raw is None:
                return
            self.h(self._send(raw, message.namespace, d & 28, b, 0))
        new = self.inbox[before:]
        del self.inbox[before:]
        for i, (_, message) in enumerate(new):
            for again in range(2 if c & 64 else 1):
                self.arm(fault if i == len(new) - 1 and again == 0 else 255, mode)
                _, exc = self.call(self.manager.decrypt(message))
                self.after("decrypt", [], exc)

    def settle(self) -> None:
        """The failures are over."""
        prop = self.ctx.prop
        self.faults.disarm()
        self.modes = {key: mode for key, mode in self.modes.items() if mode != "notfound"}  # that's a failure, too
        if self.failures:
            self.ctx.hit("chaos.failures")
        self.boot(list(self.loaded), 255, 0)
        _, exc = self.call(self.manager.ensure_data_consistency())
        if prop in ("C13", "C18"):
            self.ctx.expect(exc is None, f"ensure_data_consistency fails after all failures are over: {exc!r}")
        states = self.states()
        if prop == "C18" and exc is None:
            for ns in self.loaded:
                s = states[ns]
                self.ctx.expect(
                    self.server.bundles.get((ns, OWN, self.own_dev))
                    == SymBundle(ns, OWN, self.own_dev, self.own_ik, s["spk"], frozenset(s["pks"])),
                    f"{ns}: published bundle is not the local one after ensure_data_consistency"
                )
                self.ctx.expect(
                    self.own_dev in self.server.lists.get((ns, OWN), {}),
                    f"{ns}: this device is not on the published list after ensure_data_consistency"
                )
        if prop != "C13":
            return
        for jid in JIDS:
            _, exc = self.call(self.manager.refresh_device_lists(jid))
            self.ctx.expect(exc is None, f"refresh_device_lists({jid}) fails after all failures are over: {exc!r}")
        for jid in JIDS:
            infos, exc = self.call(self.manager.get_device_information(jid))
            self.ctx.expect(exc is None, f"get_device_information({jid}) fails after all failures are over: {exc!r}")
            got = {(i.device_id, ns) for i in infos for ns, active in i.active if active and ns in self.loaded}
            want: Set[Any] = {
                (dev, ns) for ns in self.loaded for dev in self.server.lists.get((ns, jid), {})
            }
            self.ctx.expect(
                got == want, f"{jid}: active devices are {sorted(got)}, but the published lists say {sorted(want)}"
            )
        _, exc = self.call(self.manager.encrypt(
            frozenset(jid for jid in PEERS if any(self.server.lists.get((ns, jid)) for ns in self.loaded)),
            {ns: b"last" for ns in NAMESPACES}
        ))
        self.say(f"encrypt -> {exc!r}")
        self.ctx.expect(
            exc is None or isinstance(exc, omemo.NoEligibleDevices), f"encrypt fails after all failures are over: {exc!r}"
        )


def raise_abandon(text: str) -> None:
    from ..world import Abandon
    raise Abandon(text)


def run(case: Any, ctx: Ctx) -> None:
    Chaos(case, ctx).run()


def strategy(tier: str) -> Any:
    op = st.tuples(st.sampled_from(expand(OPS)), st.binary(min_size=8, max_size=8)).map(lambda t: [t[0], *t[1]])
    sizes = {"quick": [6, 14, 14, 30], "thorough": [6, 14, 30, 60]}[tier]
    ops = st.sampled_from(sizes).flatmap(lambda n: st.lists(op, min_size=n // 2, max_size=n))
    return st.builds(lambda cfg, ops: {"cfg": list(cfg), "ops": ops}, st.binary(min_size=4, max_size=4), ops)


def part(quick: int = 2400, thorough: int = 30000) -> Part:
    return Part("chaos", strategy, run, quick, thorough)
