"""
Many accounts with many devices and unusual names: one long scenario with generated proportions, a model as oracle.

The machine explores combinations with few devices; this covers what depends on their number and on how they are named.
"""
from __future__ import annotations

import json
import random
from typing import Any, Dict, FrozenSet, List, Optional, Set, Tuple

from hypothesis import strategies as st

import omemo

from ..machine import NAMESPACES, OWN, Machine, drive
from ..runner import Ctx, Part
from ..sym import DictKV, Ids, StorageKV, SymBackend, sid_identity_keys
from ..world import Abandon, App, Faults, MemStorage, Server, deterministic_secrets, make_manager_class, virtual_loop

NAMES = [
    "bob@x.org", "bob@x.org.uk", "b@x", "BOB@x.org", "böb@exämple.org", "bob%40@x.org", "bob+1@x.org", "list@devices.org",
    "me@x.org.de", "queue@x.org", "o'brien@x.org", "bob@x.org\u00a0", "1@2", "bob@[::1]", "x.org", "名@例.jp"
]
LABELS: List[Optional[str]] = [None, None, "", "x" * 60, "a/b", "ä", "None", "\u0000", " "]
PROPS = ("C01", "C02", "C06", "C09", "C15")


class Peer:
    def __init__(self, jid: str, dev: int, ik: bytes, level: str, ids: Ids) -> None:
        self.jid, self.dev, self.ik, self.level = jid, dev, ik, level
        self.backends = {ns: SymBackend(ns, DictKV(), ids, lambda: 0.0, ik=ik) for ns in NAMESPACES}
        self.active: Dict[str, bool] = {}
        self.label: Optional[str] = None
        self.known = False

    async def bundle(self, ns: str) -> Any:
        backend = self.backends[ns]
        if not await backend.get_num_visible_pre_keys():
            await backend.generate_pre_keys(3)
        return await backend.get_bundle(self.jid, self.dev)


def run(case: Any, ctx: Ctx) -> None:
    rng = random.Random(case["seed"])
    ids = Ids()
    server = Server()
    app = App(OWN, server, Faults())
    names = Machine.pick_backends(case["names"])
    peers: Dict[Tuple[str, int], Peer] = {}

    def expect(tags: str, cond: bool, message: str) -> None:
        if not cond:
            ctx.expect(ctx.prop not in tags.split(), message)
            raise Abandon(f"{tags}: {message}")

    with virtual_loop() as loop, deterministic_secrets(case["seed"]):
        def source(ns: str, jid: str, dev: int) -> Any:
            peer = peers.get((jid, dev))
            if peer is None:
                return server.bundles.get((ns, jid, dev))
            return drive(peer.bundle(ns))

        server.bundle_source = source
        data: Dict[str, str] = {}
        manager: Any = None
        own_backends: Dict[str, SymBackend] = {}

        def start() -> Any:
            storage = MemStorage(data, case["cache"])
            app.loaded = set(names)
            for ns in names:
                own_backends[ns] = SymBackend(ns, StorageKV(storage), ids, loop.time, storage=storage)
            return loop.run(make_manager_class(app).create(
                backends=[own_backends[ns] for ns in names],
                storage=storage, own_bare_jid=OWN, initial_own_label=None, undecided_trust_level_name="new",
                pre_key_refill_threshold=99
            ))

        manager = start()
        own_dev = loop.run(manager.get_own_device_information())[0].device_id

        # who there is
        jids = rng.sample(NAMES, min(len(NAMES), case["accounts"]))
        for j, jid in enumerate([OWN, *jids]):
            count = rng.choice([1, 2, case["devices"], rng.randint(1, case["devices"])])
            if len(jids) == 1 and jid != OWN:
                count = case["devices"]
            taken = {own_dev} if jid == OWN else set()
            for d in range(count if jid != OWN else count // 3):
                dev = rng.choice([1, 2**31 - 1, rng.randint(1, 200), rng.randint(1, 2**31 - 1), 10 ** rng.randint(0, 9), own_dev])
                if dev in taken:
                    continue
                taken.add(dev)
                ik = bytes([0xfb, 0xef, 0xbe, j, d]) + rng.randbytes(27)
                level = rng.choice(["verified", "blind", "rejected" if rng.randrange(100) < case["rejected"] else "blind"])
                peers[(jid, dev)] = Peer(jid, dev, ik, level, ids)
        ctx.say(f"{len(jids)} accounts, {len(peers)} devices, backends {names}, caching {case['cache']}")
        ctx.hit(f"devices.{min(len(peers) // 50 * 50, 250)}+")

        async def update(jid: str, ns: str, chosen: Dict[int, Optional[str]], pushed: bool) -> None:
            lst = dict(chosen)
            if jid == OWN:
                lst[own_dev] = None
            server.lists[(ns, jid)] = dict(lst)
            if pushed:
                await manager.update_device_list(ns, jid, lst)
            else:
                await manager.refresh_device_list(ns, jid)
            for (j, dev), peer in peers.items():
                if j != jid:
                    continue
                if dev in chosen:
                    if not peer.known or chosen[dev] is not None:
                        peer.label = chosen[dev]
                    peer.known = True
                    peer.active[ns] = True
                elif ns in peer.active:
                    peer.active[ns] = False

        async def lists(keep: int) -> None:
            for jid in [OWN, *jids]:
                for ns in names:
                    mine = [p.dev for p in peers.values() if p.jid == jid]
                    share = rng.choice([0, keep, keep, 100])
                    await update(jid, ns, {d: rng.choice(LABELS) for d in mine if rng.randrange(100) < share}, rng.random() < .5)

        async def look() -> None:
            if ctx.prop not in ("C06", "C15"):
                return
            for jid in [OWN, *jids]:
                infos = {i.device_id: i for i in await manager.get_device_information(jid)}
                want = {p.dev: p for p in peers.values() if p.jid == jid and p.known}
                expect(
                    "C06 C15", set(infos) - ({own_dev} if jid == OWN else set()) == set(want),
                    f"{jid!r}: {len(infos)} devices reported, expected {sorted(want)}, got {sorted(infos)}"
                )
                for dev, peer in want.items():
                    i = infos[dev]
                    expect(
                        "C06", (dict(i.active), i.label, i.identity_key, i.bare_jid, i.namespaces)
                        == (peer.active, peer.label, peer.ik, jid, frozenset(peer.active)),
                        f"{jid!r}/{dev}: {i}, expected {peer.active} {peer.label!r} {peer.ik!r}"
                    )

        decided: Set[Tuple[str, int]] = set()

        async def decide(m: Any, undecided: FrozenSet[Any], _: Any) -> None:
            for d in undecided:
                peer = peers.get((d.bare_jid, d.device_id))
                expect("C01", peer is not None, f"asked about {d}")
                assert peer is not None
                expect(
                    "C01", (peer.jid, peer.dev) not in decided,
                    f"asked about {peer.jid!r}/{peer.dev} again, although it was decided"
                )
                decided.add((peer.jid, peer.dev))
                await m.set_trust(d.bare_jid, d.identity_key, peer.level)

        app.decide = decide

        async def encrypt(order: Optional[List[str]]) -> None:
            recipients = frozenset(rng.sample(jids, rng.choice([1, len(jids), rng.randint(1, len(jids))])))
            ranking = order or names
            want: Set[Tuple[str, str, int]] = set()
            for peer in peers.values():
                usable = [ns for ns in ranking if peer.active.get(ns) and ns in names]
                if peer.jid in recipients | {OWN} and usable and peer.level != "rejected":
                    want.add((usable[0], peer.jid, peer.dev))
            without = recipients - {jid for _, jid, _ in want}
            try:
                messages, errors = await manager.encrypt(recipients, {ns: b"text" for ns in NAMESPACES}, order, None)
            except omemo.NoEligibleDevices as e:
                expect(
                    "C02", e.bare_jids == without, f"NoEligibleDevices for {sorted(e.bare_jids)}, expected {sorted(without)}"
                )
                return
            ctx.hit(f"keys.{len(want) // 50 * 50}+")
            expect("C02", not without and not errors, f"encrypted although {sorted(without)} have no devices; {errors}")
            got = [(m.namespace, e.bare_jid, e.device_id) for m in messages for e, _ in m.keys]
            distrusted = [g for g in got if g[1:] in peers and peers[g[1:]].level == "rejected"]
            expect("C01", not distrusted, f"encrypted for distrusted devices {distrusted}")
            expect(
                "C02", len(got) == len(set(got)) and set(got) == want,
                f"{len(got)} keys for {len(want)} devices; missing {sorted(want - set(got))[:5]},"
                f" not expected {sorted(set(got) - want)[:5]}"
            )
            for m in messages:
                for e, kex in m.keys:
                    peer = peers[(e.bare_jid, e.device_id)]
                    active_ik, passive_ik = sid_identity_keys(e.sid)
                    expect(
                        "C01 C02", (passive_ik if e.side == "A" else active_ik) == peer.ik,
                        f"{e.bare_jid!r}/{e.device_id} can't read what is addressed to it"
                    )
                    backend = peer.backends[m.namespace]
                    session = await backend.load_session(OWN, own_dev)
                    if kex is not None and (session is None or not session.key_exchange.builds_same_session(kex)):
                        session, _ = await backend.build_session_passive(OWN, own_dev, kex, e)
                    else:
                        expect("C02", session is not None, f"no key exchange for {e.bare_jid!r}/{e.device_id}")
                        assert session is not None
                        await backend.decrypt_key_material(session, e)
                    await backend.store_session(session)

        async def catch_up() -> None:
            """Lots of messages, with and without key exchanges, while catching up."""
            manager.before_history_sync()
            due: Set[Tuple[str, str, int]] = set()
            some = [(p, ns) for p in peers.values() if p.known for ns in names if p.active.get(ns) and p.level != "rejected"]
            rng.shuffle(some)
            some = some[:case["messages"]]
            # in between, some backends forget the sessions with some accounts
            forget_at = rng.randint(0, 2 * len(some)) if case["forget"] else -1
            some += rng.sample(some, len(some) // 3)
            for i, (peer, ns) in enumerate(some):
                if i == forget_at:
                    for jid in rng.sample(jids, rng.randint(1, min(4, len(jids)))):
                        for n in names:
                            await own_backends[n].purge_bare_jid(jid)
                            for p in peers.values():
                                if p.jid == jid:
                                    await p.backends[n].purge_bare_jid(OWN)
                        due = {d for d in due if d[1] != jid}
                    ctx.hit("forgotten")
                backend = peer.backends[ns]
                content, plain = await backend.encrypt_plaintext(b"in")
                session = await backend.load_session(OWN, own_dev)
                if session is None:
                    session, ekm = await backend.build_session_active(
                        OWN, own_dev, server.bundles[(ns, OWN, own_dev)], plain
                    )
                else:
                    ekm = await backend.encrypt_key_material(session, plain)
                kex = session.key_exchange if session.st["side"] == "A" and not session.confirmed else None
                await backend.store_session(session)
                result = await manager.decrypt(omemo.Message(ns, peer.jid, peer.dev, content, frozenset({(ekm, kex)})))
                expect("C03 C09", result[0] == b"in", f"decrypted {result[0]!r}")
                if kex is not None:
                    due.add((ns, peer.jid, peer.dev))
            mark = len(app.sent)
            await manager.after_history_sync()
            got = sorted((m.namespace, e.bare_jid, e.device_id) for to, m in app.sent[mark:] for e, _ in m.keys)
            expect(
                "C09", got == sorted(due),
                f"{len(got)} replies after catching up, {len(due)} are due; missing {sorted(due - set(got))[:5]},"
                f" superfluous {[g for i, g in enumerate(got) if g not in due or g in got[:i]][:5]}"
            )
            hidden = {ns: s["hidden"] for ns, s in ((n, state_of(data, n)) for n in names) if s["hidden"]}
            expect("C09", not hidden, f"retained pre keys {hidden} after catching up")

        async def purge() -> None:
            gone = rng.sample(jids, rng.randint(1, max(1, len(jids) // 2)))
            for jid in gone:
                await manager.purge_bare_jid(jid)
                for key in [k for k in peers if k[0] == jid]:
                    decided.discard(key)
                    peer = peers[key]
                    peer.active, peer.label, peer.known = {}, None, False
                    peer.backends = {ns: SymBackend(ns, DictKV(), ids, lambda: 0.0, ik=peer.ik) for ns in NAMESPACES}
            left = {jid for ns in names for jid in sessions_of(data, ns) if jid in gone}
            expect("C15", not left, f"sessions with {left} left after the purge")
            left = {
                key for key, value in data.items() for jid in gone
                if jid in key.split("/") or f'"{jid}"' in value or json.dumps(jid) in value
            }
            expect("C15", not left, f"{sorted(left)[:5]} left after the purge of {gone}")
            ctx.hit("purged")

        loop.run(lists(80))
        loop.run(look())
        loop.run(encrypt(None))
        if case["restart"] & 1:
            manager = start()
        loop.run(catch_up())
        loop.run(encrypt(rng.choice([None, names[::-1]])))
        loop.run(lists(case["keep"]))
        loop.run(purge())
        if case["restart"] & 2:
            manager = start()
        loop.run(look())
        loop.run(lists(90))
        loop.run(look())
        loop.run(encrypt(rng.choice([None, names[::-1]])))
        loop.run(catch_up())


def state_of(data: Dict[str, str], ns: str) -> Dict[str, Any]:
    return json.loads(data[f"/{ns}/state"])  # type: ignore[no-any-return]


def sessions_of(data: Dict[str, str], ns: str) -> Dict[str, Any]:
    return json.loads(data.get(f"/{ns}/sessions", "{}"))  # type: ignore[no-any-return]


def strategy(tier: str) -> Any:
    sizes = {
        "quick": [(16, 2), (16, 5), (9, 14), (6, 14), (3, 45), (1, 240), (1, 240)],
        "thorough": [(16, 5), (16, 14), (9, 14), (6, 40), (3, 130), (1, 500)]
    }[tier]
    return st.sampled_from(sizes).flatmap(lambda size: st.fixed_dictionaries({
        "seed": st.integers(0, 2**32), "names": st.integers(0, 7), "accounts": st.integers(1, size[0]) | st.just(size[0]),
        "devices": st.integers(1, size[1]) | st.just(size[1]), "messages": st.integers(0, 60) | st.just(200),
        "keep": st.integers(0, 100), "restart": st.integers(0, 3), "cache": st.booleans(),
        "forget": st.booleans(), "rejected": st.sampled_from([0, 0, 60, 100])
    }))


def part(quick: int = 320, thorough: int = 4000) -> Part:
    return Part("crowd", strategy, run, quick, thorough)
