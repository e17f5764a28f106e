"""
The environment around the session manager under test: virtual-time event loop, storage with fault injection,
XMPP server stand-in, and the SessionManager subclass an application would write.
"""
from __future__ import annotations

import asyncio
import contextlib
import copy
import json
import random
import secrets
from typing import Any, Callable, Dict, FrozenSet, Iterator, List, Optional, Set, Tuple, Type

from . import bootstrap  # noqa: F401

import omemo


class Violation(Exception):
    """The property under check does not hold for this case."""

    def __init__(self, tag: str, message: str) -> None:
        super().__init__(f"[{tag}] {message}")
        self.tag = tag


class Abandon(Exception):
    """The case says nothing (more) about the property under check."""


class Hang(BaseException):  # not to be mistaken for an error reported by the code under test
    """An operation did not finish within a generous, deterministic number of event loop steps."""


class VirtualLoop(asyncio.SelectorEventLoop):
    """Event loop whose clock jumps to the next timer when nothing is runnable."""

    STEP_LIMIT = 2_000_000

    def __init__(self) -> None:
        self._vt = 1_000_000.0
        self._steps = 0
        super().__init__()
        self._clock_resolution = 1e-6  # the real one vanishes next to large virtual times, and timers never fire

    def time(self) -> float:
        return self._vt

    def _run_once(self) -> None:  # type: ignore[override]
        self._steps += 1
        if self._steps > self.STEP_LIMIT:
            raise Hang("event loop step limit")
        if not self._ready:  # type: ignore[attr-defined]
            if self._scheduled:  # type: ignore[attr-defined]
                when = self._scheduled[0]._when  # type: ignore[attr-defined]
                if when > self._vt:
                    self._vt = when
            elif not self._stopping:  # type: ignore[attr-defined]
                raise Hang("deadlock: nothing runnable and nothing scheduled")
        super()._run_once()  # type: ignore[misc]

    def run(self, coro: Any) -> Any:
        self._steps = 0
        return self.run_until_complete(coro)

    def shutdown(self) -> None:
        try:
            tasks = asyncio.all_tasks(self)
            for t in tasks:
                t.cancel()
            if tasks:
                self.run_until_complete(asyncio.gather(*tasks, return_exceptions=True))
        finally:
            self.close()


@contextlib.contextmanager
def virtual_loop() -> Iterator[VirtualLoop]:
    loop = VirtualLoop()
    asyncio.set_event_loop(loop)
    try:
        yield loop
    finally:
        asyncio.set_event_loop(None)
        loop.shutdown()


@contextlib.contextmanager
def deterministic_secrets(seed: int, extremes: bool = True) -> Iterator[None]:
    """
    Make key and device id generation a function of the case. With extremes, randbelow prefers the ends of its range,
    where off-by-one mistakes live.
    """
    rng = random.Random(seed)
    saved = secrets.token_bytes, secrets.randbelow

    def token_bytes(n: Optional[int] = None) -> bytes:
        return rng.randbytes(32 if n is None else n)

    def randbelow(n: int) -> int:
        k = rng.randrange(6) if extremes else 2
        if k == 0:
            return 0
        if k == 1:
            return n - 1
        return rng.randrange(n)

    secrets.token_bytes, secrets.randbelow = token_bytes, randbelow
    try:
        yield
    finally:
        secrets.token_bytes, secrets.randbelow = saved


class Faults:
    """
    Counts interactions of the library with its environment and makes chosen ones fail.

    plan: index of interaction (0-based, since arm()) -> "before" (fails without effect) or "after" (takes effect,
    then reports failure). kinds: restrict counting to these kinds.
    """

    def __init__(self) -> None:
        self.armed = False
        self.index = 0
        self.plan: Dict[int, str] = {}
        self.kinds: Optional[Set[str]] = None
        self.fired: List[Tuple[int, str, str]] = []
        self.seen: List[str] = []

    def arm(self, plan: Dict[int, str], kinds: Optional[Set[str]] = None) -> None:
        self.armed, self.index, self.plan, self.kinds = True, 0, dict(plan), kinds
        self.fired = []
        self.seen = []

    def disarm(self) -> None:
        self.armed = False
        self.fired = []

    def hit(self, kind: str) -> Optional[str]:
        if not self.armed or (self.kinds is not None and kind not in self.kinds):
            return None
        mode = self.plan.get(self.index)
        self.seen.append(kind)
        if mode is not None:
            self.fired.append((self.index, kind, mode))
        self.index += 1
        return mode


class MemStorage(omemo.Storage):
    """JSON text in a dictionary; the dictionary survives "restarts", the Storage object (and its cache) does not."""

    def __init__(self, data: Dict[str, str], cache: bool, faults: Optional[Faults] = None) -> None:
        super().__init__(disable_cache=not cache)
        self.data = data
        self.faults = faults

    def _fault(self, kind: str) -> Optional[str]:
        return None if self.faults is None else self.faults.hit(kind)

    async def _load(self, key: str) -> omemo.Maybe[omemo.JSONType]:
        if self._fault("s.load"):
            raise omemo.StorageException("injected: load")
        if key in self.data:
            return omemo.Just(json.loads(self.data[key]))
        return omemo.Nothing()

    async def _store(self, key: str, value: omemo.JSONType) -> None:
        mode = self._fault("s.store")
        if mode == "before":
            raise omemo.StorageException("injected: store")
        self.data[key] = json.dumps(value)
        if mode == "after":
            raise omemo.StorageException("injected: store (after effect)")

    async def _delete(self, key: str) -> None:
        mode = self._fault("s.delete")
        if mode == "before":
            raise omemo.StorageException("injected: delete")
        self.data.pop(key, None)
        if mode == "after":
            raise omemo.StorageException("injected: delete (after effect)")


# Custom trust level names and what they mean. Anything else is unknown to the application.
TRUST_NAMES = {
    "verified": omemo.TrustLevel.TRUSTED,
    "blind": omemo.TrustLevel.TRUSTED,
    "rejected": omemo.TrustLevel.DISTRUSTED,
    "revoked": omemo.TrustLevel.DISTRUSTED,
    "new": omemo.TrustLevel.UNDECIDED,
    "pending": omemo.TrustLevel.UNDECIDED
}


class Server:
    """PEP stand-in shared by any number of session managers. Everything going in and out is copied."""

    def __init__(self) -> None:
        self.lists: Dict[Tuple[str, str], Dict[int, Optional[str]]] = {}
        self.bundles: Dict[Tuple[str, str, int], Any] = {}
        # (ns, jid, device) -> callable returning the bundle to serve, or raising
        self.bundle_source: Optional[Callable[[str, str, int], Any]] = None
        self.freeze = False  # bundle downloads fail: look without touching
        self.log: List[Tuple[Any, ...]] = []


class App:
    """Application-side state of one session manager: callbacks record here and act as scripted."""

    def __init__(self, jid: str, server: Server, faults: Faults) -> None:
        self.jid = jid
        self.server = server
        self.faults = faults
        self.sent: List[Tuple[str, omemo.Message]] = []
        self.decisions: List[Tuple[FrozenSet[omemo.DeviceInformation], Optional[str]]] = []
        self.decide: Callable[[omemo.SessionManager, FrozenSet[omemo.DeviceInformation], Optional[str]], Any]
        self.decide = self._undecided
        self.loaded: Set[str] = set()
        self.strict_namespaces = False
        self.send_hook: Optional[Callable[[omemo.Message, str], None]] = None

    @staticmethod
    async def _undecided(*_: Any) -> None:
        return None


def make_manager_class(app: App, extra: Optional[Dict[str, Any]] = None) -> Type[omemo.SessionManager]:
    server, faults = app.server, app.faults

    class Manager(omemo.SessionManager):
        @staticmethod
        async def _upload_bundle(bundle: omemo.Bundle) -> None:
            mode = faults.hit("n.upload_bundle")
            if mode == "before":
                raise omemo.BundleUploadFailed("injected")
            server.log.append(("upload_bundle", bundle.namespace, bundle.bare_jid, bundle.device_id))
            server.bundles[(bundle.namespace, bundle.bare_jid, bundle.device_id)] = copy.copy(bundle)
            if mode == "after":
                raise omemo.BundleUploadFailed("injected (after effect)")

        @staticmethod
        async def _download_bundle(namespace: str, bare_jid: str, device_id: int) -> omemo.Bundle:
            if server.freeze:
                raise omemo.BundleDownloadFailed("frozen")
            if app.strict_namespaces and namespace not in app.loaded:
                raise omemo.UnknownNamespace(namespace)
            if faults.hit("n.download_bundle"):
                raise omemo.BundleDownloadFailed("injected")
            server.log.append(("download_bundle", namespace, bare_jid, device_id))
            if server.bundle_source is not None:
                bundle = server.bundle_source(namespace, bare_jid, device_id)
            else:
                bundle = server.bundles.get((namespace, bare_jid, device_id))
            if bundle is None:
                raise omemo.BundleNotFound("no such bundle")
            return copy.copy(bundle)

        @staticmethod
        async def _delete_bundle(namespace: str, device_id: int) -> None:
            mode = faults.hit("n.delete_bundle")
            if mode == "before":
                raise omemo.BundleDeletionFailed("injected")
            server.log.append(("delete_bundle", namespace, app.jid, device_id))
            server.bundles.pop((namespace, app.jid, device_id), None)
            if mode == "after":
                raise omemo.BundleDeletionFailed("injected (after effect)")

        @staticmethod
        async def _upload_device_list(namespace: str, device_list: Dict[int, Optional[str]]) -> None:
            mode = faults.hit("n.upload_list")
            if mode == "before":
                raise omemo.DeviceListUploadFailed("injected")
            server.log.append(("upload_list", namespace, dict(device_list)))
            server.lists[(namespace, app.jid)] = dict(device_list)
            if mode == "after":
                raise omemo.DeviceListUploadFailed("injected (after effect)")

        @staticmethod
        async def _download_device_list(namespace: str, bare_jid: str) -> Dict[int, Optional[str]]:
            if faults.hit("n.download_list"):
                raise omemo.DeviceListDownloadFailed("injected")
            server.log.append(("download_list", namespace, bare_jid))
            return dict(server.lists.get((namespace, bare_jid), {}))

        async def _evaluate_custom_trust_level(self, device: omemo.DeviceInformation) -> omemo.TrustLevel:
            try:
                return TRUST_NAMES[device.trust_level_name]
            except KeyError:
                raise omemo.UnknownTrustLevel(device.trust_level_name) from None

        async def _make_trust_decision(
            self, undecided: FrozenSet[omemo.DeviceInformation], identifier: Optional[str]
        ) -> None:
            app.decisions.append((undecided, identifier))
            await app.decide(self, undecided, identifier)

        @staticmethod
        async def _send_message(message: omemo.Message, bare_jid: str) -> None:
            if app.send_hook is not None:
                app.send_hook(message, bare_jid)
            mode = faults.hit("n.send")
            if mode == "before":
                raise omemo.MessageSendingFailed("injected")
            app.sent.append((bare_jid, message))
            if mode == "after":
                raise omemo.MessageSendingFailed("injected (after effect)")

    for name, value in (extra or {}).items():
        setattr(Manager, name, value)

    return Manager
