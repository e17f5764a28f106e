"""More planted bugs, several of them from the probes. Written from the properties and the code; see plant.py."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "probe"))
import probes  # noqa: E402,F401
import probes2  # noqa: E402,F401
import probes3  # noqa: E402,F401
import probes4  # noqa: E402,F401
import probes5  # noqa: E402,F401
import probes6  # noqa: E402,F401
import probes7  # noqa: E402,F401
import probes8  # noqa: E402,F401
from bugs import BE, IK, SM, ST, bug  # noqa: E402,F401


def of(name):
    return list(probes.PROBES[name][1])


bug("c01-memo-trust", "C01",
    "a key that was trusted, encrypted for, and distrusted later, within one run of the session manager",
    "The trust level of a key is looked up once; a level assigned later doesn't take effect until a restart.",
    of("d01-memo-trust"), """
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await alice.say(bob)
    await alice.say(bob)
    await alice.m.set_trust(bob.jid, bob.ik, "distrusted")
    assert (await alice.info(bob)).trust_level_name == "distrusted"
    try:
        messages, _ = await alice.say(bob)
    except omemo.NoEligibleDevices:
        pass
    else:
        raise AssertionError(f"encrypted for {keys(messages)}")
""")

bug("c02-dedupe-key", "C02",
    "two trusted devices of one account that advertise the same identity key",
    "Of devices of an account that share an identity key, only one receives the message.",
    of("d02-dedupe-key"), """
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    twin = await Client(server, "bob@x.org", data={k: v for k, v in bob.data.items() if k.startswith("/ikp")}).start()
    assert twin.ik == bob.ik and twin.dev != bob.dev
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    messages, errors = await alice.say(bob)
    assert not errors
    assert keys(messages) == sorted([(NEW, bob.jid, bob.dev), (NEW, bob.jid, twin.dev)]), keys(messages)
""")

bug("c04-refresh-other-backend", "C04",
    "two backends, a message of the second one from a device that is not known yet and that only supports the second",
    "For a message from an unknown device, the device list of the wrong backend is refreshed.",
    of("e04-refresh-other-ns"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    bob = await Client(server, "bob@x.org", (OLD,)).start()
    await bob.learn(alice)
    messages, _ = await bob.say(alice)
    assert [m.namespace for m in messages] == [OLD]
    for m in messages:
        assert (await alice.m.decrypt(m))[0] == b"hi"
""")

bug("c06-known-key-inactive-bundle", "C06",
    "a device that went off the list of a namespace before its identity key became known, its bundle still published",
    "The bundle of a device is only looked for in namespaces in which the device is listed at the moment.",
    of("d06-lookup-active-only"), """
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await alice.m.update_device_list(NEW, bob.jid, {})
    info = await alice.info(bob)
    assert info is not None, "the device is not reported, although its bundle is available"
    assert dict(info.active) == {NEW: False}, info
""")

bug("c06-reactivate-all", "C06",
    "a device of two backends, off both lists, then on one of them again",
    "A device that appears on the list of one backend again becomes active for all its backends.",
    of("e06-reactivate-all"), """
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    await alice.learn(bob)
    await alice.m.update_device_list(NEW, bob.jid, {})
    await alice.m.update_device_list(OLD, bob.jid, {})
    await alice.m.update_device_list(OLD, bob.jid, {bob.dev: None})
    assert dict((await alice.info(bob)).active) == {NEW: False, OLD: True}, await alice.info(bob)
""")

bug("c10-stale-once", "C10",
    "more than 54 messages received in a row, the one reply lost on the way",
    "Only the message that exceeds the limit triggers a reply, the ones after it don't, even if the chain keeps growing.",
    of("d10-stale-once"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    await alice.m.after_history_sync()
    await bob.m.after_history_sync()
    for m in (await alice.say(bob))[0]:
        await bob.m.decrypt(m)
    for m, _ in list(server.sent):
        await alice.m.decrypt(m)
    counts = []
    for _ in range(70):
        server.sent.clear()
        for m in (await alice.say(bob))[0]:
            await bob.m.decrypt(m)
        counts.append(len(server.sent))  # none of the replies arrives
    first = counts.index(1)
    assert counts == [0] * first + [1] * (70 - first), counts
""")

bug("c11-stop-on-missing-bundle", "C11",
    "sessions with two backends, the bundle of the first one gone",
    "Replacing stops at the first backend whose bundle doesn't exist.",
    of("e11-stop-on-error"), """
async def demo():
    for gone in (NEW, OLD):
        server = Server()
        bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
        alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
        await alice.learn(bob)
        await alice.say(bob)
        await alice.say(bob, backend_priority_order=[OLD, NEW])
        del server.bundles[(gone, bob.jid, bob.dev)]
        unsuccessful = await alice.m.replace_sessions(await alice.info(bob))
        assert set(unsuccessful) == {gone}, unsuccessful
        assert [m.namespace for m, _ in server.sent] == [n for n in (NEW, OLD) if n != gone], server.sent
""")

bug("c12-as-many-as-before", "C12",
    "a backend swapped for another one, so that as many backends are loaded as in the last run",
    "A change of the loaded backends is recognized by their number only.",
    of("d12-size-compare"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (OLD,)).start()
    await alice.start((NEW,))
    assert server.lists[(NEW, alice.jid)] == {alice.dev: None}, server.lists
    assert (NEW, alice.jid, alice.dev) in server.bundles
    assert alice.dev not in server.lists[(OLD, alice.jid)], server.lists
""")

bug("c09-two-devices-only", "C09",
    "replies due to three devices of one account after a catch-up",
    "At most two devices per account get their deferred reply.",
    of("d09-deferred-only-first"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bobs = [await Client(server, "bob@x.org").start() for _ in range(4)]
    await alice.learn(bobs[0])
    for bob in bobs:
        await bob.learn(alice)
        for m in (await bob.say(alice))[0]:
            await alice.m.decrypt(m)
    server.sent.clear()
    await alice.m.after_history_sync()
    assert keys(m for m, _ in server.sent) == sorted((NEW, b.jid, b.dev) for b in bobs), keys(m for m, _ in server.sent)
""")

bug("c15-list-first-break", "C15",
    "an account with a device whose identity key never became known, and others with levels assigned",
    "Collecting the keys to forget stops at the first device without a known key, so trust levels stay.",
    of("e15-list-first-break"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bobs = [await Client(server, "bob@x.org").start() for _ in range(3)]
    for unknown in bobs:
        data = copy.deepcopy(alice.data)
        again = await Client(server, "alice@x.org", data=data).start()
        await again.learn(bobs[0])
        server.fail_bundle.add((NEW, unknown.jid, unknown.dev))
        for d in await again.m.get_device_information("bob@x.org"):
            await again.m.set_trust(d.bare_jid, d.identity_key, "trusted")
        await again.say(bobs[0])
        for d in await again.m.get_device_information("bob@x.org"):
            await again.m.set_trust(d.bare_jid, d.identity_key, "distrusted")
        await again.m.purge_bare_jid("bob@x.org")
        server.fail_bundle.clear()
        left = [k for k in data if "bob@x.org" in k]
        assert not left, left
""")

bug("c17-delay-kept", "C17",
    "failing uploads at one rotation, failing uploads at a later rotation as well",
    "The delay before the first retry of a later rotation starts where that of the previous rotation ended.",
    of("d17-delay-kept"), '''
async def demo():
    server = Server()
    day, now, sleeps = 24 * 60 * 60, [1000000.0], []
    import time
    time.time = lambda: now[0]
    fails = [0]
    gate = asyncio.Queue()
    real_sleep = asyncio.sleep

    async def sleep(seconds, *args):
        if seconds < 1:
            return await real_sleep(seconds)
        sleeps.append(seconds)
        now[0] += seconds
        await real_sleep(0)
        if len(sleeps) > 60:
            await asyncio.Event().wait()

    alice = Client(server, "alice@x.org")
    base = manager_class(server, alice.jid, trust_all)

    class Manager(base):
        @staticmethod
        async def _upload_bundle(bundle):
            if fails[0] > 0:
                fails[0] -= 1
                raise omemo.BundleUploadFailed()
            fails[0] = 3
            await base._upload_bundle(bundle)

    storage = Mem({})
    m = await Manager.create([twomemo.Twomemo(storage)], storage, alice.jid, None, "undecided", 7 * day)
    asyncio.sleep = sleep
    fails[0] = 3
    for _ in range(2000):
        await real_sleep(0)
    asyncio.sleep = real_sleep
    short = [s for s in sleeps if s < day]
    assert len(short) >= 6, sleeps
    retries = [short[i:i + 3] for i in range(0, len(short) - 2, 3)]
    assert all(r == [60, 120, 240] for r in retries), sleeps
''')

bug("c21-load-failure", "C21",
    "a storage that fails once while the identity key is loaded",
    "A storage failure while loading the identity key is taken for a first run: a new key replaces the old one.",
    of("d21-load-failure"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    before = alice.data["/ikp/key"]
    for n in range(4):
        data = copy.deepcopy(alice.data)
        storage, count = Mem(data), 0

        def fail(what, key):
            nonlocal count
            count += what == "load"
            return what == "load" and count == n + 1

        storage.fail = fail
        try:
            await omemo.identity_key_pair.IdentityKeyPair.get(storage)
        except Fail:
            pass
        assert data["/ikp/key"] == before, "the identity key changed"
""")

bug("c19-cold-delete", "C19",
    "deleting a key that this instance hasn't loaded or stored yet",
    "A delete of a key that is not in the cache doesn't reach the storage.",
    of("e19-cold-delete"), """
async def demo():
    data = {}
    first = Mem(data, disable_cache=False)
    await first.store("/key", 1)
    second = Mem(data, disable_cache=False)
    await second.delete("/key")
    assert (await second.load("/key")).is_nothing
    assert (await Mem(data, disable_cache=False).load("/key")).is_nothing
    assert data == {}
""")

OVERLAP = '''
async def calmly(coroutines):
    return [await c() for c in coroutines]


class Slow(Mem):
    """Like a database: every access takes a moment."""

    async def _load(self, key):
        for _ in range(random.randrange(4)):
            await asyncio.sleep(0)
        return await super()._load(key)

    async def _store(self, key, value):
        for _ in range(random.randrange(4)):
            await asyncio.sleep(0)
        await super()._store(key, value)
'''

bug("c25-sessions-attribute", "C25",
    "two messages being encrypted at the same time, to different accounts",
    "The sessions to persist are kept in an attribute: the encryption that starts later resets those of the other.",
    of("e05-sessions-attr"), "import random\nimport lib\n\n" + OVERLAP + """

async def demo():
    lib.Mem = Slow
    for seed in range(20):
        random.seed(seed)
        server = Server()
        bob = await Client(server, "bob@x.org").start()
        eve = await Client(server, "eve@x.org").start()
        alice = await Client(server, "alice@x.org").start()
        await alice.learn(bob)
        await alice.learn(eve)
        await alice.m.after_history_sync()
        results = await asyncio.gather(alice.say(bob), alice.say(eve))
        assert all(not errors for _, errors in results)
        for other in (bob, eve):
            assert await alice.backends[NEW].load_session(other.jid, other.dev) is not None, \\
                f"seed {seed}: the session with {other.jid} was not persisted"
""")

bug("c25-order-attribute", "C25",
    "two messages being encrypted at the same time, with different backend priority orders",
    "The priority order in effect is kept in an attribute: the encryption that starts later changes that of the other.",
    of("e25-order-attr"), "import random\nimport lib\n\n" + OVERLAP + """

async def demo():
    lib.Mem = Slow
    for seed in range(20):
        random.seed(seed)
        server = Server()
        bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
        eve = await Client(server, "eve@x.org", (NEW, OLD)).start()
        alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
        await alice.learn(bob)
        await alice.learn(eve)
        await alice.m.after_history_sync()
        (a, _), (b, _) = await asyncio.gather(
            alice.say(bob, backend_priority_order=[NEW, OLD]), alice.say(eve, backend_priority_order=[OLD, NEW])
        )
        assert keys(a) == [(NEW, bob.jid, bob.dev)], keys(a)
        assert keys(b) == [(OLD, eve.jid, eve.dev)], keys(b)
""")

bug("c25-message-attribute", "C25",
    "messages of different accounts being decrypted at the same time",
    "The message being decrypted is kept in an attribute: overlapping decryptions decrypt each other's content.",
    of("e25-decrypt-attr"), "import random\nimport lib\n\n" + OVERLAP + """

async def demo():
    lib.Mem = Slow
    for seed in range(20):
        random.seed(seed)
        server = Server()
        alice = await Client(server, "alice@x.org").start()
        others = [await Client(server, f"{n}@x.org").start() for n in ("bob", "eve")]
        texts = []
        for other in others:
            await alice.learn(other)
            await other.learn(alice)
            for m in (await other.say(alice))[0]:
                await alice.m.decrypt(m)
            texts.append((await other.say(alice, text=other.jid.encode()))[0])
        results = await asyncio.gather(*(alice.m.decrypt(m) for t in texts for m in t), return_exceptions=True)
        assert [getattr(r, "__getitem__", lambda _: r)(0) for r in results] == [b"bob@x.org", b"eve@x.org"], (seed, results)
""")

TWO = """
async def two(backends=(NEW,)):
    server = Server()
    bob = await Client(server, "bob@x.org", backends).start()
    alice = await Client(server, "alice@x.org", backends).start()
    await alice.learn(bob)
    await bob.learn(alice)
    return server, alice, bob


async def must_fail(coro, kind):
    try:
        result = await coro
    except kind:
        return
    raise AssertionError(f"reported as successful: {result}")
"""

bug("c26-refresh-some", "C26",
    "several backends, the download of one of the lists failing in a refresh of all of them",
    "The failed download of a device list is not reported if several backends are loaded.",
    of("f26-refresh-lists"), TWO + """

async def demo():
    server, alice, bob = await two((NEW, OLD))
    plain = type(alice.m)._download_device_list

    async def failing(namespace, bare_jid):
        if namespace == OLD:
            raise omemo.DeviceListDownloadFailed()
        return await plain(namespace, bare_jid)
    type(alice.m)._download_device_list = staticmethod(failing)
    await must_fail(alice.m.refresh_device_lists(bob.jid), omemo.DeviceListDownloadFailed)
""")

bug("c26-identity-key-not-cached", "C26",
    "the storage failing when the identity key of a device is stored for the first time",
    "The failure to store the identity key of a device is swallowed.",
    of("f26-info-store"), TWO + """

async def demo():
    server, alice, bob = await two()
    alice.storage.fail = lambda what, key: what == "store" and key.endswith("/identity_key")
    await must_fail(alice.m.get_device_information(bob.jid), omemo.StorageException)
""")

bug("c26-replacement-not-stored", "C26",
    "session replacement, the storage failing when the new session is stored",
    "The failure to store the new session is not part of what session replacement reports.",
    of("f26-replace-storage"), TWO + """

async def demo():
    server, alice, bob = await two()
    await alice.say(bob)
    device = await alice.info(bob)
    alice.storage.fail = lambda what, key: what == "store"
    try:
        result = await alice.m.replace_sessions(device)
    except omemo.StorageException:
        return
    assert isinstance(result.get(NEW), omemo.StorageException), result
""")

bug("c26-label-half-published", "C26",
    "two backends, the upload of the second list with the new label failing",
    "A label that was published for the first backend only is reported as set.",
    of("f26-label-upload"), TWO + """

async def demo():
    server, alice, bob = await two((NEW, OLD))
    plain = type(alice.m)._upload_device_list

    async def failing(namespace, device_list):
        if namespace == OLD:
            raise omemo.DeviceListUploadFailed()
        return await plain(namespace, device_list)
    type(alice.m)._upload_device_list = staticmethod(failing)
    await must_fail(alice.m.set_own_label("label"), omemo.DeviceListUploadFailed)
""")

bug("c26-session-not-stored", "C26",
    "the storage failing when the session built for a new recipient is stored",
    "A message is returned by encryption although its new session couldn't be stored.",
    of("f26-encrypt-store"), TWO + """

async def demo():
    server, alice, bob = await two()
    await alice.m.get_device_information(bob.jid)
    await alice.m.set_trust(bob.jid, bob.ik, "trusted")
    alice.storage.fail = lambda what, key: what == "store"
    await must_fail(alice.say(bob), omemo.StorageException)
""")

bug("c26-undecided", "C26",
    "the trust decision callback failing",
    "A failing trust decision is reported as devices left undecided.",
    of("f26-trust-callback"), TWO + """

async def demo():
    server, alice, bob = await two()

    async def failing(*_):
        raise omemo.TrustDecisionFailed()
    alice.decide = failing
    type(alice.m)._make_trust_decision = failing
    try:
        await alice.say(bob)
    except omemo.TrustDecisionFailed:
        return
    except omemo.OMEMOException as e:
        raise AssertionError(f"reported as {e!r}") from e
    raise AssertionError("not reported")
""")

bug("c26-republishing-failed", "C26",
    "restoring consistency while the own bundle is outdated and its upload fails",
    "Restoring consistency is reported as successful although publishing the bundle failed.",
    of("f26-ensure-upload"), TWO + """

async def demo():
    server, alice, bob = await two()
    server.bundles.pop((NEW, alice.jid, alice.dev))

    async def failing(_):
        raise omemo.BundleUploadFailed()
    type(alice.m)._upload_bundle = staticmethod(failing)
    await must_fail(alice.m.ensure_data_consistency(), omemo.BundleUploadFailed)
""")

REPEAT = TWO + """

async def attempts(alice, message, n=2):
    for i in range(n):
        try:
            return (await alice.m.decrypt(message))[0]
        except omemo.OMEMOException as e:
            error = e
        alice.storage.fail = lambda what, key: False
    raise AssertionError(f"fails with {error!r} when repeated")


async def one(bob, alice):
    messages, errors = await bob.say(alice)
    message, = messages
    return message
"""

bug("c27-pre-key-before-session", "C27",
    "an incoming key exchange, the storage failing when the session is stored, the message decrypted again",
    "The pre key is deleted before the session that used it is stored: if that fails, the message is lost.",
    of("g27-pre-key-first"), REPEAT + """

async def demo():
    server, alice, bob = await two()
    await alice.m.after_history_sync()
    message = await one(bob, alice)
    failed = []

    async def failing(session):
        if not failed:
            failed.append(session)
            raise omemo.StorageException()
        return await plain(session)
    backend = alice.backends[NEW]
    plain = backend.store_session
    backend.store_session = failing
    assert await attempts(alice, message) == b"hi"
    assert failed
""")

bug("c27-refreshed-once", "C27",
    "a message from a device that is not known yet while device lists can't be downloaded, decrypted again later",
    "The device list is refreshed once per unknown device, even if that failed.",
    of("g27-refreshed-once"), REPEAT + """

async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await bob.learn(alice)
    message = await one(bob, alice)
    plain = type(alice.m)._download_device_list

    async def failing(namespace, bare_jid):
        raise omemo.DeviceListDownloadFailed()
    type(alice.m)._download_device_list = staticmethod(failing)
    try:
        await alice.m.decrypt(message)
    except omemo.DeviceListDownloadFailed:
        pass
    type(alice.m)._download_device_list = staticmethod(plain)
    assert await attempts(alice, message, 1) == b"hi"
""")

bug("c27-replay-guard", "C27",
    "decryption of a message failing in storage, the same message decrypted again",
    "Messages are remembered as processed before they were decrypted successfully.",
    of("g27-replay-guard"), REPEAT + """

async def demo():
    server, alice, bob = await two()
    message = await one(bob, alice)
    alice.storage.fail = lambda what, key: what == "store"
    assert await attempts(alice, message) == b"hi"
""")

bug("c27-asked-once", "C27",
    "the trust decision failing, the message encrypted again",
    "Devices are remembered as asked about before the decision was made.",
    of("g27-decision-memo"), REPEAT + """

async def demo():
    server, alice, bob = await two()
    plain = type(alice.m)._make_trust_decision

    async def failing(*_):
        raise omemo.TrustDecisionFailed()
    type(alice.m)._make_trust_decision = failing
    try:
        await alice.say(bob)
    except omemo.TrustDecisionFailed:
        pass
    type(alice.m)._make_trust_decision = plain
    messages, errors = await alice.say(bob)
    assert not errors and keys(messages) == [(NEW, bob.jid, bob.dev)]
""")

bug("c27-bundle-missing-for-good", "C27",
    "the download of the bundle of a new device failing, the message encrypted again",
    "Bundles whose download failed are not tried again until a restart.",
    of("g27-negative-cache"), REPEAT + """

async def demo():
    server, alice, bob = await two()
    server.fail_bundle.add((NEW, bob.jid, bob.dev))
    try:
        await alice.say(bob)
    except omemo.NoEligibleDevices:
        pass
    server.fail_bundle.clear()
    messages, errors = await alice.say(bob)
    assert not errors and keys(messages) == [(NEW, bob.jid, bob.dev)]
""")

bug("c27-session-pool", "C27",
    "a message of an existing session, the storage failing when the session is stored, the message decrypted again",
    "A session that was advanced but could not be stored is used again instead of the stored one.",
    of("g27-session-cache"), REPEAT + """

async def demo():
    server, alice, bob = await two()
    await alice.m.after_history_sync()
    await alice.m.decrypt(await one(bob, alice))
    for m, _ in server.sent:
        await bob.m.decrypt(m)
    message = await one(bob, alice)
    assert all(kex is None for _, kex in message.keys)
    alice.storage.fail = lambda what, key: what == "store"
    assert await attempts(alice, message) == b"hi"
""")


CATCH_UP = """

async def catch_up(n=2, backends=(NEW,), cache=False):
    server = Server()
    alice = await Client(server, "alice@x.org", backends, cache=cache).start()
    others = [await Client(server, f"{name}@x.org", backends).start() for name in ("bob", "eve")[:n]]
    for other in others:
        await other.learn(alice)
        await alice.learn(other)
    return server, alice, others


async def talk(alice, other):
    for m in (await other.say(alice))[0]:
        await alice.m.decrypt(m)
"""

bug("c28-queue-in-memory", "C28",
    "catch-up with key exchanges of several devices of one account, a restart in between",
    "The devices that wait for a reply are kept in memory; after a restart, those from before are dropped.",
    of("h28-queue-memory"), CATCH_UP + """

async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bobs = [await Client(server, "bob@x.org").start() for _ in range(2)]
    for bob in bobs:
        await bob.learn(alice)
        await alice.learn(bob)
    await talk(alice, bobs[0])
    await alice.start()
    await talk(alice, bobs[1])
    server.sent.clear()
    await alice.m.after_history_sync()
    assert sorted(k.device_id for m, _ in server.sent for k, _ in m.keys) == sorted(b.dev for b in bobs), server.sent
""")

bug("c28-delete-cached-only", "C28",
    "caching, a restart, the purge of an account whose entries were not loaded since",
    "Deleting does nothing for keys that are not in the cache.",
    of("h28-delete-cached-only"), CATCH_UP + """

async def demo():
    server, alice, (bob,) = await catch_up(1, cache=True)
    await talk(alice, bob)
    await alice.start()
    await alice.m.purge_bare_jid(bob.jid)
    await alice.start()
    left = [key for key in alice.data if bob.jid in key]
    assert not left, left
""")

bug("c28-label-removed", "C28",
    "caching, the own label being removed, a restart",
    "Storing null over an existing value only updates the cache.",
    of("h28-store-unchanged"), CATCH_UP + """

async def demo():
    server, alice, _ = await catch_up(0, cache=True)
    await alice.m.set_own_label("label")
    await alice.m.set_own_label(None)
    own, _ = await alice.m.get_own_device_information()
    assert own.label is None
    await alice.start()
    own, _ = await alice.m.get_own_device_information()
    assert own.label is None, own.label
""")

bug("c28-inactive-in-memory", "C28",
    "a device removed from all lists, looked at, and a restart",
    "That a device is inactive everywhere is kept in memory only.",
    of("h28-inactive-memory"), CATCH_UP + """

async def demo():
    server, alice, (bob,) = await catch_up(1)
    assert dict((await alice.info(bob)).active)[NEW] is True
    await alice.m.update_device_list(NEW, bob.jid, {})
    await alice.start()
    assert dict((await alice.info(bob)).active)[NEW] is False
""")

bug("c28-live-after-start", "C28",
    "a key exchange received between a start and the end of catch-up",
    "The library starts outside of history synchronization mode.",
    of("h28-live-at-start"), CATCH_UP + """

async def demo():
    server, alice, (bob,) = await catch_up(1)
    await alice.start()
    server.sent.clear()
    await talk(alice, bob)
    assert not server.sent
""")


WATCH = """

def watch(client, *names):
    seen = []
    for name in names:
        def wrap(name, inner):
            async def call(*args):
                seen.append((name, *args))
                return await inner(*args)
            return staticmethod(call)
        setattr(type(client.m), name, wrap(name, getattr(type(client.m), name)))
    return seen
"""

bug("c29-refresh-inactive", "C29",
    "a message of a known device that was removed from the list in between",
    "The device list is downloaded for messages of inactive devices, not only of unknown ones.",
    of("j30-refresh-inactive"), WATCH + """

async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    await bob.learn(alice)
    await alice.learn(bob)
    for message in (await bob.say(alice))[0]:
        await alice.m.decrypt(message)
    await alice.m.update_device_list(NEW, bob.jid, {})
    seen = watch(alice, "_download_device_list", "_download_bundle")
    for message in (await bob.say(alice))[0]:
        await alice.m.decrypt(message)
    assert not seen, seen
""")

bug("c29-all-lists-of-sender", "C29",
    "two backends, a message of an unknown device",
    "To find an unknown sender, the lists of all backends are downloaded instead of the one of the message.",
    of("j30-refresh-all-own"), WATCH + """

async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    await bob.learn(alice)
    seen = watch(alice, "_download_device_list")
    (message,) = (await bob.say(alice))[0]
    await alice.m.decrypt(message)
    assert seen == [("_download_device_list", message.namespace, bob.jid)], seen
""")

bug("c29-replace-without-session", "C29",
    "two backends, a device that supports both, a session with one of them, session replacement",
    "Sessions are built and announced for all backends of a device, whether there was one to replace or not.",
    of("j30-replace-all"), WATCH + """

async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    await alice.learn(bob)
    await alice.say(bob)
    device = await alice.info(bob)
    seen = watch(alice, "_download_bundle", "_send_message")
    assert not await alice.m.replace_sessions(device)
    assert len(seen) == 2, seen
""")

bug("c29-own-bundles-again", "C29",
    "a first message, with another own device whose identity key is not known",
    "Bundles of own devices are downloaded a second time for session building.",
    of("j30-cache-own"), WATCH + """

async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    second = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    await alice.learn(second)
    await alice.learn(bob)
    seen = watch(alice, "_download_bundle")
    messages, errors = await alice.say(bob)
    assert not errors and len(keys(messages)) == 2, (messages, errors)
    assert len(seen) == len(set(seen)), seen
""")

bug("c29-distrusted-bundles", "C29",
    "a message for an account with a distrusted device",
    "The bundles of distrusted recipient devices are downloaded before these are left out.",
    of("j30-distrusted-bundles"), WATCH + """

async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bobs = [await Client(server, "bob@x.org").start() for _ in range(2)]
    await alice.learn(bobs[0])
    await alice.m.set_trust("bob@x.org", bobs[0].ik, "distrusted")
    await alice.info(bobs[0])
    await alice.info(bobs[1])
    seen = watch(alice, "_download_bundle")
    messages, _ = await alice.say(bobs[1])
    assert keys(messages) == [(NEW, "bob@x.org", bobs[1].dev)]
    assert all(args[3] != bobs[0].dev for args in seen), seen
""")

bug("c06-thirty-two", "C06",
    "an account with more than 32 devices",
    "Only the 32 devices with the lowest ids are remembered.",
    of("i29-list-capped"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    await alice.m.update_device_list(NEW, bob.jid, {**{i: None for i in range(1, 40)}, bob.dev: None})
    assert await alice.info(bob) is not None
""")

bug("c02-similar-account", "C02",
    "two recipients whose JIDs differ in case only, one without devices",
    "The devices of the one count for the other when looking for recipients without devices.",
    of("i29-no-eligible-case"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    await alice.learn(bob)
    try:
        await alice.m.encrypt(frozenset({"bob@x.org", "BOB@x.org"}), {NEW: b"hi"})
    except omemo.NoEligibleDevices as e:
        assert e.bare_jids == {"BOB@x.org"}, e.bare_jids
    else:
        assert False
""")

bug("c02-hundred", "C02",
    "a message for more than a hundred devices using one backend",
    "Encrypts for the first hundred devices only.",
    of("i29-keys-capped"), """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    bundle = server.bundles[(NEW, bob.jid, bob.dev)]
    devices = {i: None for i in range(1, 111)}
    for i in devices:
        server.bundles[(NEW, bob.jid, i)] = type(bundle)(bundle.bare_jid, i, bundle.bundle, bundle.signed_pre_key_id,
                                                        bundle.pre_key_ids)
    await alice.m.update_device_list(NEW, bob.jid, devices)
    messages, errors = await alice.say(bob)
    assert not errors and len(keys(messages)) == 110, len(keys(messages))
""")
