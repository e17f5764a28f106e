"""A small in-memory world for the demonstrations: a server, storages and session managers with the real backends."""
import asyncio
import copy
import os
import sys

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True

import omemo
import oldmemo
import twomemo
from omemo.storage import Just, Nothing, Storage

NEW, OLD = twomemo.twomemo.NAMESPACE, oldmemo.oldmemo.NAMESPACE
LEVELS = {
    "trusted": omemo.TrustLevel.TRUSTED, "distrusted": omemo.TrustLevel.DISTRUSTED,
    "undecided": omemo.TrustLevel.UNDECIDED
}


class Fail(omemo.storage.StorageException):
    pass


class Mem(Storage):
    def __init__(self, data=None, disable_cache=True):
        super().__init__(disable_cache)
        self.data = {} if data is None else data
        self.fail = lambda what, key: False
        self.pause = False

    async def _load(self, key):
        if self.fail("load", key):
            raise Fail(key)
        return Just(self.data[key]) if key in self.data else Nothing()

    async def _store(self, key, value):
        if self.fail("store", key):
            raise Fail(key)
        self.data[key] = copy.deepcopy(value)

    async def _delete(self, key):
        if self.fail("delete", key):
            raise Fail(key)
        self.data.pop(key, None)


class Server:
    def __init__(self):
        self.lists, self.bundles, self.sent = {}, {}, []
        self.uploads = []
        self.fail_bundle = set()  # (ns, jid, dev)
        self.fail_send = False
        self.fail_upload_list = False


def manager_class(server, jid, decide):
    class Manager(omemo.SessionManager):
        @staticmethod
        async def _upload_bundle(bundle):
            server.uploads.append(("bundle", bundle.namespace))
            server.bundles[(bundle.namespace, jid, bundle.device_id)] = bundle

        @staticmethod
        async def _download_bundle(namespace, bare_jid, device_id):
            if (namespace, bare_jid, device_id) in server.fail_bundle:
                raise omemo.BundleDownloadFailed()
            try:
                return server.bundles[(namespace, bare_jid, device_id)]
            except KeyError:
                raise omemo.BundleNotFound()

        @staticmethod
        async def _delete_bundle(namespace, device_id):
            server.bundles.pop((namespace, jid, device_id), None)

        @staticmethod
        async def _upload_device_list(namespace, device_list):
            if server.fail_upload_list:
                raise omemo.DeviceListUploadFailed()
            server.uploads.append(("list", namespace))
            server.lists[(namespace, jid)] = dict(device_list)

        @staticmethod
        async def _download_device_list(namespace, bare_jid):
            return dict(server.lists.get((namespace, bare_jid), {}))

        async def _evaluate_custom_trust_level(self, device):
            try:
                return LEVELS[device.trust_level_name]
            except KeyError:
                raise omemo.UnknownTrustLevel()

        async def _make_trust_decision(self, undecided, identifier):
            await decide(self, undecided, identifier)

        @staticmethod
        async def _send_message(message, bare_jid):
            if server.fail_send:
                raise omemo.MessageSendingFailed()
            server.sent.append((message, bare_jid))

    return Manager


async def trust_all(manager, undecided, _):
    for d in undecided:
        await manager.set_trust(d.bare_jid, d.identity_key, "trusted")


class Client:
    """One device."""

    def __init__(self, server, jid, backends=(NEW,), decide=trust_all, data=None, cache=False):
        self.server, self.jid, self.decide, self.cache = server, jid, decide, cache
        self.data = {} if data is None else data
        self.names = list(backends)

    async def start(self, names=None, **kw):
        self.names = list(names or self.names)
        self.storage = Mem(self.data, not self.cache)
        self.backends = {
            n: twomemo.Twomemo(self.storage) if n == NEW else oldmemo.Oldmemo(self.storage) for n in self.names
        }
        kw.setdefault("initial_own_label", None)
        self.m = await manager_class(self.server, self.jid, self.decide).create(
            backends=[self.backends[n] for n in self.names], storage=self.storage, own_bare_jid=self.jid,
            undecided_trust_level_name="undecided", **kw
        )
        own, _ = await self.m.get_own_device_information()
        self.dev, self.ik = own.device_id, own.identity_key
        return self

    async def learn(self, other):
        for n in self.names:
            await self.m.update_device_list(n, other.jid, dict(self.server.lists.get((n, other.jid), {})))

    async def say(self, *others, text=b"hi", **kw):
        return await self.m.encrypt(frozenset(o.jid for o in others), {NEW: text, OLD: text}, **kw)

    async def info(self, other):
        return next((d for d in await self.m.get_device_information(other.jid) if d.device_id == other.dev), None)


def keys(messages):
    return sorted((m.namespace, k.bare_jid, k.device_id) for m in messages for k, _ in m.keys)


def main(coro):
    async def all_():
        try:
            await asyncio.wait_for(coro(), 250)
        finally:
            for t in asyncio.all_tasks():
                if t is not asyncio.current_task():
                    t.cancel()
    asyncio.run(all_())
    print("property holds")
