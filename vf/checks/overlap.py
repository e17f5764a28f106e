"""
C25: operations about different accounts overlap.

Several tasks, one per account, each performing operations about its account one after another. Every access to storage,
network and backends is a point at which another task may go on; which one is generated. The oracle is the same set of
operations without overlap: all results and everything left behind have to be the same.
"""
from __future__ import annotations

import asyncio
import contextvars
import hashlib
from typing import Any, Dict, List, Optional, Set, Tuple

from hypothesis import strategies as st

import omemo

from ..machine import LABELS, NAMESPACES, OWN, Raw
from ..runner import Check, Ctx, Part
from ..sym import DictKV, Ids, SymBackend, SymBundle, sid_identity_keys
from ..world import App, Faults, MemStorage, Server, deterministic_secrets, make_manager_class, virtual_loop

PEERS = ["bob@x.org", "bob@x.org.uk", "carol@x.org"]
DEVICES = [11, 12, 111]
ACTOR: contextvars.ContextVar[int] = contextvars.ContextVar("actor", default=-1)
METHODS = [
    "load_session", "store_session", "build_session_active", "build_session_passive", "encrypt_plaintext",
    "encrypt_empty", "encrypt_key_material", "decrypt_plaintext", "decrypt_key_material", "hide_pre_key",
    "delete_pre_key", "get_num_visible_pre_keys", "generate_pre_keys", "get_bundle", "purge_bare_jid"
]


class Turns:
    """Whoever wants to go on has to wait for its turn, unless free."""

    def __init__(self) -> None:
        self.free = True
        self.waiting: List[Tuple[int, asyncio.Future[None]]] = []
        self.last = -1
        self.switches = 0

    async def __call__(self) -> None:
        if not self.free:
            future: asyncio.Future[None] = asyncio.get_running_loop().create_future()
            self.waiting.append((ACTOR.get(), future))
            await future

    def grant(self, choice: int) -> None:
        actors = sorted({actor for actor, _ in self.waiting})
        actor = actors[choice % len(actors)]
        if actor != self.last:
            self.switches += 1
        self.last = actor
        index = next(i for i, (a, _) in enumerate(self.waiting) if a == actor)
        self.waiting.pop(index)[1].set_result(None)


class TurnStorage(MemStorage):
    turns: Turns

    async def _load(self, key: str) -> Any:
        await self.turns()
        result = await super()._load(key)
        await self.turns()
        return result

    async def _store(self, key: str, value: Any) -> None:
        await self.turns()
        await super()._store(key, value)
        await self.turns()

    async def _delete(self, key: str) -> None:
        await self.turns()
        await super()._delete(key)
        await self.turns()


def turned(function: Any, turns: Turns) -> Any:
    async def call(*args: Any, **kwargs: Any) -> Any:
        await turns()
        result = await function(*args, **kwargs)
        await turns()
        return result
    return call


def turned_class(base: Any, turns: Turns) -> Any:
    extra: Dict[str, Any] = {}
    for name in (
        "_upload_bundle", "_download_bundle", "_delete_bundle", "_upload_device_list", "_download_device_list",
        "_send_message"
    ):
        extra[name] = staticmethod(turned(getattr(base, name), turns))
    for name in ("_evaluate_custom_trust_level", "_make_trust_decision"):
        extra[name] = turned(getattr(base, name), turns)
    return type("Turned", (base,), extra)


def digest(*what: Any) -> int:
    return hashlib.blake2b(repr(what).encode(), digest_size=1).digest()[0]


class World:
    def __init__(self, case: Any, ctx: Ctx, loop: Any) -> None:
        cfg = case["cfg"]
        self.case, self.ctx, self.loop = case, ctx, loop
        self.salt, self.cache, self.shared = cfg[0], bool(cfg[1] % 3), bool(cfg[2] % 2)
        self.names = [NAMESPACES[:1], NAMESPACES[:2], NAMESPACES, NAMESPACES[1:]][cfg[3] % 4]
        self.receiver = PEERS[cfg[4] % 3]
        self.turns = Turns()
        self.ids = Ids()
        self.server = Server()
        self.server.bundle_source = self.serve
        self.app = App(OWN, self.server, Faults())
        self.app.decide = self.decide  # type: ignore[assignment]
        self.raws: Dict[Tuple[str, int], Raw] = {}
        self.modes: Dict[Tuple[str, str, int], str] = {}
        self.results: Dict[str, List[Any]] = {jid: [] for jid in [*PEERS, OWN]}
        self.sent: Dict[str, List[Any]] = {jid: [] for jid in PEERS}
        self.outbox: Dict[Tuple[str, int], List[omemo.Message]] = {}
        self.seen = 0
        self.running: Set[str] = set()
        self.overlaps = 0

    # -- surroundings -----------------------------------------------------------------------------------------

    def raw(self, jid: str, dev: int) -> Raw:
        if (jid, dev) not in self.raws:
            ik = hashlib.sha256(repr((self.salt, "" if self.shared else jid, dev)).encode()).digest()
            self.raws[(jid, dev)] = Raw(jid, dev, ik, self.ids)
        return self.raws[(jid, dev)]

    def serve(self, ns: str, jid: str, dev: int) -> Optional[SymBundle]:
        if jid == OWN:
            return self.server.bundles.get((ns, jid, dev))
        mode = self.modes.get((ns, jid, dev), "ok")
        if mode == "notfound":
            return None
        if mode == "failed":
            raise omemo.BundleDownloadFailed("scripted")
        return finish(self._serve(ns, jid, dev, mode))

    async def _serve(self, ns: str, jid: str, dev: int, mode: str) -> SymBundle:
        raw = self.raw(jid, dev)
        bundle = await (await raw.backend(ns)).get_bundle(jid, dev)
        return bundle.replace(sig_ok=mode != "badsig")

    async def decide(self, manager: Any, undecided: Any, identifier: Optional[str]) -> None:
        self.results[identifier or ""].append(("asked", sorted(describe(d) for d in undecided)))
        for d in sorted(undecided, key=lambda d: d.device_id):  # type: ignore[no-any-return]
            choice = digest(self.salt, d.bare_jid, d.device_id) % 16
            if choice == 15:
                raise omemo.TrustDecisionFailed("scripted")
            if choice != 14:
                await manager.set_trust(d.bare_jid, d.identity_key, "rejected" if choice > 10 else "verified")

    # -- life -------------------------------------------------------------------------------------------------

    def start(self) -> None:
        storage = TurnStorage({}, self.cache)
        storage.turns = self.turns
        backends = []
        self.kvs = {}
        for ns in self.names:
            self.kvs[ns] = DictKV()
            backend = SymBackend(ns, self.kvs[ns], self.ids, self.loop.time, storage=storage)
            for name in METHODS:
                setattr(backend, name, turned(getattr(backend, name), self.turns))
            backends.append(backend)
        self.manager = self.loop.run(turned_class(make_manager_class(self.app), self.turns).create(
            backends=list(backends), storage=storage, own_bare_jid=OWN, initial_own_label=None,
            undecided_trust_level_name="new"
        ))
        self.loop.run(self.manager.after_history_sync())
        own, _ = self.loop.run(self.manager.get_own_device_information())
        self.own_dev = own.device_id
        for i, jid in enumerate(PEERS):
            for ns in self.names:
                if (self.case["cfg"][5] >> i) & 1:
                    continue
                self.server.lists[(ns, jid)] = {dev: None for dev in DEVICES[:2]}
                self.loop.run(self.manager.update_device_list(ns, jid, dict(self.server.lists[(ns, jid)])))

    def finish(self) -> Any:
        out: Dict[str, Any] = {f"sent to {jid}": sent for jid, sent in self.sent.items()}
        for jid in [*PEERS, OWN]:
            infos = self.loop.run(self.manager.get_device_information(jid))
            out["devices of " + jid] = sorted(describe(d) for d in infos)
        for ns in self.names:
            sessions = self.loop.run(self.kvs[ns].get(f"/{ns}/sessions")) or {}
            out["sessions of " + ns] = {
                (jid, dev): [s["side"], s["epoch"], s["send_n"], s["recv_n"], s["confirmed"], sid_identity_keys(s["sid"])]
                for jid, devs in sessions.items() for dev, s in devs.items()
            }
            out["published list of " + ns] = dict(self.server.lists.get((ns, OWN), {}))
            bundle = self.server.bundles.get((ns, OWN, self.own_dev))
            state = self.loop.run(self.kvs[ns].get(f"/{ns}/state"))
            out["published bundle of " + ns] = bundle is not None and (
                len(bundle.pks), bundle.pks == frozenset(state["pks"])
            )
        return out

    async def actor(self, index: int, jid: str, ops: List[Any]) -> None:
        ACTOR.set(index)
        for op in ops:
            self.running.add(jid)
            if len(self.running) > 1:
                self.overlaps += 1
            coro = self.own_op(*op) if jid == OWN else self.peer_op(jid, *op)
            try:
                result = await coro
            except omemo.OMEMOException as e:
                result = [type(e).__name__, sorted(getattr(e, "bare_jids", []))]
            self.running.discard(jid)
            self.results[jid].append((op[0], result))
            self.ctx.say(f"  {jid}: {op} -> {result}")
            self.collect()

    def collect(self) -> None:
        new = self.app.sent[self.seen:]
        self.seen = len(self.app.sent)
        for jid, message in new:
            self.sent[jid].append(self.outgoing(message))

    def outgoing(self, message: omemo.Message) -> Any:
        keys = []
        for ekm, kex in message.keys:
            self.outbox.setdefault((ekm.bare_jid, ekm.device_id), []).append(message)
            active, passive = sid_identity_keys(ekm.sid)
            peer = passive if ekm.side == "A" else active
            keys.append((ekm.bare_jid, ekm.device_id, peer.hex(), ekm.side, ekm.epoch, ekm.n, kex is not None))
        return (message.namespace, None if message.content.empty else message.content.body, sorted(keys))

    async def own_op(self, name: str, a: int, b: int, c: int, d: int) -> Any:
        ns = self.names[a % len(self.names)]
        if b % 2:
            await self.manager.set_own_label(LABELS[c % len(LABELS)])
            return None
        lst = {} if c % 2 else {self.own_dev: LABELS[d % len(LABELS)]}
        await self.manager.update_device_list(ns, OWN, lst)
        return lst

    async def peer_op(self, jid: str, name: str, a: int, b: int, c: int, d: int) -> Any:
        m = self.manager
        ns = self.names[a % len(self.names)]
        dev = DEVICES[b % 3]
        if name == "list":
            lst = {x: LABELS[(d >> i) % len(LABELS)] for i, x in enumerate(DEVICES) if (c >> i) & 1}
            self.server.lists[(ns, jid)] = dict(lst)
            await m.update_device_list(ns, jid, lst)
            return None
        if name == "refresh":
            if b % 2:
                await m.refresh_device_lists(jid)
            else:
                await m.refresh_device_list(ns, jid)
            return None
        if name == "info":
            return sorted(describe(x) for x in await m.get_device_information(jid))
        if name == "trust":
            await m.set_trust(jid, self.raw(jid, dev).ik, ["verified", "rejected", "new", "blind"][c % 4])
            return None
        if name == "mode":
            self.modes[(ns, jid, dev)] = ["ok", "notfound", "failed", "badsig", "ok"][c % 5]
            return None
        if name == "encrypt":
            order = [None, None, self.names[::-1], self.names[:1]][c % 4]
            messages, errors = await m.encrypt(
                frozenset([jid]), {x: f"{jid} {x} {d}".encode() for x in self.names},
                None if order is None else list(order), jid
            )
            return (
                sorted(self.outgoing(x) for x in messages),
                sorted((e.namespace, e.bare_jid, e.device_id, type(e.exception).__name__) for e in errors)
            )
        if name == "purge":
            await m.purge_bare_jid(jid)
            return None
        if name in ("replace", "chain"):
            info = next((x for x in await m.get_device_information(jid) if x.device_id == dev), None)
            if info is None:
                return None
            if name == "chain":
                return sorted((await m.get_sending_chain_length(info)).items(), key=repr)
            return sorted((x, type(e).__name__) for x, e in (await m.replace_sessions(info)).items())
        assert name in ("talk", "exchange"), name
        message = finish(self.remote(jid, dev, ns, name, b"from " + jid.encode() + b" %d" % d))
        if message is None:
            return None
        plaintext, info, _ = await m.decrypt(message)
        return plaintext, describe(info)

    async def remote(self, jid: str, dev: int, ns: str, name: str, body: bytes) -> Optional[omemo.Message]:
        """The other party reads what there is and writes back, or starts a session of its own."""
        raw = self.raw(jid, dev)
        if name == "exchange":
            if jid != self.receiver:
                return None  # incoming exchanges all use the same pre keys
            bundle = self.server.bundles[(ns, OWN, self.own_dev)]
            backend = await raw.backend(ns)
            content, plain = await backend.encrypt_plaintext(body)
            session, ekm = await backend.build_session_active(OWN, self.own_dev, bundle, plain)
        else:
            messages = self.outbox.get((jid, dev), [])
            if not messages:
                return None
            ns = messages[-1].namespace
            backend = await raw.backend(ns)
            found = None
            for message in messages:
                if message.namespace != ns:
                    continue
                ekm, kex = next(
                    (e, x) for e, x in message.keys if (e.bare_jid, e.device_id) == (jid, dev)
                )
                session = await backend.load_session(OWN, self.own_dev)
                try:
                    if kex is None or session is not None and session.key_exchange.builds_same_session(kex):
                        if session is None:
                            continue
                        await backend.decrypt_key_material(session, ekm)
                    else:
                        session, _ = await backend.build_session_passive(OWN, self.own_dev, kex, ekm)
                except omemo.BackendException:
                    continue
                await backend.store_session(session)
                found = session
            messages.clear()
            if found is None:
                return None
            session = found
            content, plain = await backend.encrypt_plaintext(body)
            ekm = await backend.encrypt_key_material(session, plain)
        await backend.store_session(session)
        kex = session.key_exchange if session.st["side"] == "A" and not session.confirmed else None
        return omemo.Message(ns, jid, dev, content, frozenset({(ekm, kex)}))


def finish(coro: Any) -> Any:
    """Run a coroutine that never suspends."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("suspended")


def describe(d: omemo.DeviceInformation) -> Any:
    return (
        d.bare_jid, d.device_id, sorted(d.namespaces), sorted(d.active), d.identity_key.hex(), d.trust_level_name,
        repr(d.label)
    )


def perform(case: Any, ctx: Ctx, overlap: bool) -> Tuple[Any, Any, World]:
    with virtual_loop() as loop, deterministic_secrets(case["cfg"][0]):
        world = World(case, ctx, loop)
        world.start()
        scripts: Dict[str, List[Any]] = {jid: [] for jid in [*PEERS, OWN]}
        for who, *op in case["ops"]:
            scripts[[*PEERS, OWN][who % 4]].append(op)

        async def main() -> None:
            if not overlap:
                for i, (jid, ops) in enumerate(scripts.items()):
                    await world.actor(i, jid, ops)
                return
            turns = world.turns
            turns.free = False
            tasks = [asyncio.ensure_future(world.actor(i, jid, ops)) for i, (jid, ops) in enumerate(scripts.items())]
            schedule = case["schedule"] or [0]
            step = 0
            while not all(task.done() for task in tasks):
                for _ in range(4):
                    await asyncio.sleep(0)
                if turns.waiting:
                    turns.grant(schedule[step % len(schedule)])
                    step += 1
            turns.free = True
            for task in tasks:
                task.result()

        loop.run(main())
        return world.results, world.finish(), world


def run(case: Any, ctx: Ctx) -> None:
    ctx.say("one after another:")
    want, want_end, _ = perform(case, ctx, False)
    ctx.say("overlapping:")
    got, got_end, world = perform(case, ctx, True)
    for jid in want:
        for i, (w, g) in enumerate(zip(want[jid], got[jid])):
            ctx.expect(w == g, f"{jid}, result {i}: {g} with overlap, {w} without")
        ctx.expect(len(want[jid]) == len(got[jid]), f"{jid}: {got[jid]} with overlap, {want[jid]} without")
    for what, value in want_end.items():
        ctx.expect(value == got_end[what], f"{what}: {got_end[what]} with overlap, {value} without")
    if world.turns.switches > 8 and world.overlaps > 1:
        ctx.hit("overlapping operations")
        for op in case["ops"]:
            ctx.events["op." + op[1]] += 1


NAMES = ["list"] * 5 + ["encrypt"] * 6 + ["talk"] * 4 + ["info"] * 2 + ["trust"] * 2 + [
    "mode", "refresh", "replace", "chain", "purge", "exchange", "exchange"
]


def strategy(tier: str) -> Any:
    byte = st.integers(0, 255)
    op = st.tuples(st.sampled_from([0, 0, 1, 1, 2, 3]), st.sampled_from(NAMES), byte, byte, byte, byte).map(list)
    streaks = st.lists(st.tuples(st.integers(0, 3), st.sampled_from([1, 1, 1, 2, 3, 5, 9])), min_size=1, max_size=40)
    return st.builds(
        lambda cfg, ops, schedule: {
            "cfg": list(cfg), "ops": ops, "schedule": [who for who, n in schedule for _ in range(n)]
        },
        st.binary(min_size=6, max_size=6),
        st.lists(op, min_size=4, max_size=16 if tier == "quick" else 30),
        streaks
    )


def check(prop: str) -> Check:
    return Check(
        prop, [Part("overlap", strategy, run, 4800, 60000)],
        rule="at least two operations about different accounts overlapped, with more than eight changes between tasks"
    )
