"""
C29: operations cause only the network traffic they are documented for.

The machine's histories; the session manager is wrapped such that, for every call, what went over the network is compared
with what may be needed, judging by what was known before the call (public interface only, downloads disabled).
"""
from __future__ import annotations

import asyncio
import contextlib
import inspect
from typing import Any, Dict, Iterator, List, Optional, Set, Tuple

import omemo

from ..machine import JIDS, OWN, Machine
from ..runner import Check, Ctx
from ..world import TRUST_NAMES

Event = Tuple[Any, ...]


class Before:
    """What there is to know before a call, without network."""

    def __init__(self) -> None:
        self.infos: Dict[Tuple[str, int], omemo.DeviceInformation] = {}
        self.sessions: Set[Tuple[str, str, int]] = set()
        self.lists: Dict[Tuple[str, str], Dict[int, Optional[str]]] = {}
        self.bundles: Dict[Tuple[str, str, int], Any] = {}


class Observed:
    """The session manager, with an eye on the network."""

    def __init__(self, machine: "Traffic", manager: Any) -> None:
        self.machine, self.manager = machine, manager

    def __getattr__(self, name: str) -> Any:
        method = getattr(self.manager, name)
        if not inspect.iscoroutinefunction(method):
            return method

        async def call(*args: Any, **kwargs: Any) -> Any:
            return await self.machine.observe(name, method, args, kwargs)

        return call


class Traffic(Machine):
    wrapped: Any = None

    @property
    def manager(self) -> Any:  # type: ignore[override]
        return self.wrapped

    @manager.setter
    def manager(self, manager: Any) -> None:
        self.wrapped = None if manager is None else Observed(self, manager)

    def setup(self, cfg: List[int]) -> None:
        self.got: List[Event] = []
        super().setup(cfg)

    def serve_bundle(self, ns: str, jid: str, dev: int) -> Any:
        bundle = super().serve_bundle(ns, jid, dev)
        if bundle is not None:
            self.server.log[-1] = (*self.server.log[-1], "found")
        return bundle

    @contextlib.contextmanager
    def offline(self) -> Iterator[None]:
        saved = self.server.freeze, self.faults.armed
        self.server.freeze, self.faults.armed = True, False
        try:
            yield
        finally:
            self.server.freeze, self.faults.armed = saved

    async def look(self, manager: Any) -> Before:
        out = Before()
        with self.offline():
            for jid in JIDS:
                for info in await manager.get_device_information(jid):
                    out.infos[(jid, info.device_id)] = info
        out.sessions = set(self.sessions())
        out.lists = {key: dict(lst) for key, lst in self.server.lists.items()}
        out.bundles = dict(self.server.bundles)
        return out

    async def observe(self, name: str, method: Any, args: Any, kwargs: Any) -> Any:
        if self.server.freeze:
            return await method(*args, **kwargs)
        manager = self.wrapped.manager
        before = await self.look(manager)
        log, sent = len(self.server.log), len(self.app.sent)
        exc: Optional[BaseException] = None
        try:
            return await method(*args, **kwargs)
        except BaseException as e:
            exc = e
            raise
        finally:
            events = list(self.server.log[log:])
            events += [("send", m.namespace, to, *sorted((e.bare_jid, e.device_id) for e, _ in m.keys))
                       for to, m in self.app.sent[sent:]]
            if not isinstance(exc, (GeneratorExit, KeyboardInterrupt, SystemExit)):
                after = await self.look(manager) if name == "encrypt" and events else before
                arguments = inspect.signature(method).bind(*args, **kwargs).arguments
                self.judge(name, arguments, exc, before, after, events)

    def judge(
        self, name: str, arguments: Dict[str, Any], exc: Optional[BaseException], before: Before, after: Before,
        events: List[Event]
    ) -> None:
        def need(cond: bool, message: str) -> None:
            self.expect("C29", cond, f"{name}: {message}; traffic: {events}; result: {exc!r}")

        def only(**most: int) -> None:
            for kind in {e[0] for e in events}:
                count = sum(e[0] == kind for e in events)
                need(count <= most.get(kind, 0), f"{count} times {kind}, at most {most.get(kind, 0)} expected")

        def of(kind: str) -> List[Event]:
            return [e[1:] for e in events if e[0] == kind]

        def own_list(namespaces: Any) -> None:
            """The own list is published only if this device is missing."""
            for ns, *_ in of("upload_list"):
                need(
                    ns in namespaces and self.own_dev not in before.lists.get((ns, OWN), {}),
                    f"{ns} device list was published, although this device is on it"
                )

        many = 1000
        lookups: Dict[Tuple[str, int], List[Tuple[str, bool]]] = {}
        for ns, jid, dev, *found in of("download_bundle"):
            lookups.setdefault((jid, dev), []).append((ns, bool(found)))

        def identity_keys(jids: Any, sweeps: int = 1, skip: Any = ()) -> None:
            """Bundles are downloaded only to find out about unknown identity keys, until one was found."""
            for (jid, dev), tried in lookups.items():
                if (jid, dev) in skip:
                    continue
                need(jid in jids, f"looked for a bundle of {jid}/{dev}, who is not involved")
                need((jid, dev) not in before.infos, f"looked for a bundle of {jid}/{dev}, whose identity key is known")
                need(not any(found for _, found in tried[:-1]), f"kept looking for bundles of {jid}/{dev} after finding one")
                for ns in {ns for ns, _ in tried}:
                    need(
                        sum(n == ns for n, _ in tried) <= sweeps, f"downloaded the {ns} bundle of {jid}/{dev} repeatedly"
                    )
            if any(jid in jids for jid, _ in before.infos if _ != self.own_dev or jid != OWN):
                self.hit("C29", f"{name}.known")
            if any(jid in jids for jid, _ in lookups):
                self.hit("C29", f"{name}.lookup")

        loaded = list(self.loaded)
        if name == "encrypt":
            only(download_bundle=many)
            jids = arguments["bare_jids"] | {OWN}
            ranking = [ns for ns in arguments.get("backend_priority_order") or loaded if ns in loaded]
            for key, tried in lookups.items():
                jid, dev = key
                need(jid in jids and key != (OWN, self.own_dev), f"looked for a bundle of {jid}/{dev}, who is not addressed")
                if key in before.infos:
                    info = before.infos[key]
                    usable = [ns for ns in ranking if dict(info.active).get(ns) and ns in info.namespaces]
                    need(
                        [ns for ns, _ in tried] == usable[:1], f"looked for bundles {tried} of {jid}/{dev}, addressed using {usable}"
                    )
                    need(
                        (usable[0], *key) not in before.sessions,
                        f"downloaded the {usable[0]} bundle of {jid}/{dev}, although there is a session"
                    )
                    now = TRUST_NAMES.get(after.infos[key].trust_level_name)
                    need(now is omemo.TrustLevel.TRUSTED, f"downloaded a bundle of {jid}/{dev}, which is {now}")
                    self.hit("C29", "encrypt.bundle")
                    continue
                firsts = [i for i, (_, found) in enumerate(tried) if found][:1]
                sweep = tried[:firsts[0] + 1] if firsts else tried
                rest = tried[len(sweep):]
                need(
                    len({ns for ns, _ in sweep}) == len(sweep) and len(rest) <= 1
                    and all(ns != sweep[-1][0] and ns in ranking for ns, _ in rest),
                    f"bundles {tried} of {jid}/{dev} were looked for"
                )
                self.hit("C29", "encrypt.lookup")
            if any(jid in jids for _, jid, _ in before.sessions):
                self.hit("C29", "encrypt.sessions")
        elif name == "decrypt":
            message = arguments["message"]
            sender = (message.bare_jid, message.device_id)
            only(download_bundle=many, download_list=1, upload_list=1, upload_bundle=1, send=1)
            if isinstance(exc, (omemo.MessageNotForUs, omemo.UnknownNamespace)) and message.namespace not in loaded or (
                isinstance(exc, omemo.MessageNotForUs)
            ):
                need(not events, "a message that can't be read was rejected only after")
                self.hit("C29", "decrypt.rejected")
            identity_keys({message.bare_jid}, 2)
            for i, event in enumerate(events):
                if event[0] == "download_list":
                    need(event[1:] == (message.namespace, message.bare_jid), f"{event} is not the list of the sender")
                    need(sender not in before.infos, "downloaded the device list of a known sender")
                    need(
                        not any(e[0] == "download_bundle" and e[2:4] == sender and e[-1] == "found" for e in events[:i]),
                        "downloaded the device list although the sender was found"
                    )
                    self.hit("C29", "decrypt.refresh")
            if of("upload_list"):
                need(message.bare_jid == OWN and bool(of("download_list")), "published a device list")
                own_list({message.namespace})
            kex = any(k is not None for e, k in message.keys if (e.bare_jid, e.device_id) == (OWN, self.own_dev))
            for ns, *_ in of("upload_bundle"):
                need(ns == message.namespace and kex, f"published the {ns} bundle")
                need(
                    before.bundles.get((ns, OWN, self.own_dev)) != self.server.bundles.get((ns, OWN, self.own_dev)),
                    "published an unchanged bundle"
                )
            for ns, to, *keys in of("send"):
                need(
                    (ns, to, keys) == (message.namespace, message.bare_jid, [sender]), f"answered {to} {keys} using {ns}"
                )
            if exc is None:
                self.hit("C29", "decrypt.kex" if kex else "decrypt.session")
        elif name in ("get_device_information", "get_own_device_information"):
            only(download_bundle=many)
            identity_keys({arguments.get("bare_jid", OWN)})
        elif name in ("update_device_list", "refresh_device_list", "refresh_device_lists"):
            jid = arguments["bare_jid"]
            namespaces = [arguments["namespace"]] if "namespace" in arguments else loaded
            count = len(namespaces) if name != "update_device_list" else 0
            only(download_list=count, upload_list=len(namespaces) if jid == OWN else 0)
            fetched = of("download_list")
            need(
                len(set(fetched)) == len(fetched) and all(ns in namespaces and j == jid for ns, j in fetched),
                "downloaded other lists"
            )
            published = [ns for ns, *_ in of("upload_list")]
            need(len(set(published)) == len(published) and set(published) <= set(namespaces), "published other lists")
            if name == "update_device_list":
                need(
                    not published or self.own_dev not in arguments["device_list"],
                    "published a device list although this device is on it"
                )
            else:
                own_list(namespaces)
            self.hit("C29", name)
        elif name == "replace_sessions":
            device = arguments["device"]
            key = (device.bare_jid, device.device_id)
            which = [ns for ns in loaded if (ns, *key) in before.sessions]
            only(download_bundle=many, send=len(which))
            identity_keys({device.bare_jid}, 1, {key})
            tried = [ns for ns, _ in lookups.get(key, [])]
            need(
                len(set(tried)) == len(tried) and set(tried) <= set(which),
                f"bundles {tried} of {key} were downloaded to replace the sessions {which}"
            )
            told = [e for e in of("send")]
            need(
                len(set(told)) == len(told) and all(ns in which and (to, keys) == (key[0], [key]) for ns, to, *keys in told),
                f"sent {told} to replace the sessions {which} of {key}"
            )
        elif name == "set_own_label":
            n = len(loaded)
            only(download_list=n, upload_list=n)
            for kind in ("download_list", "upload_list"):
                which = [e[0] for e in of(kind)]
                need(len(set(which)) == len(which) and set(which) <= set(loaded), f"unrelated {kind}")
            need(all(e[1] == OWN for e in of("download_list")), "downloaded lists of others")
            self.hit("C29", name)
        elif name == "after_history_sync":
            told = of("send")
            only(send=len(before.sessions))
            need(len(set(told)) == len(told), "sent several empty messages for one session")
            need(
                all(len(keys) == 1 and keys[0][0] == to and (ns, *keys[0]) in before.sessions for ns, to, *keys in told),
                "messages to several or unknown devices"
            )
            self.hit("C29", name)
        elif name == "ensure_data_consistency":
            n = len(loaded)
            only(download_list=n, upload_list=n, download_bundle=n, upload_bundle=n)
            own_list(loaded)
            for kind in ("download_list", "upload_list", "download_bundle", "upload_bundle"):
                which = [e[0] for e in of(kind)]
                need(len(set(which)) == len(which) and set(which) <= set(loaded), f"unrelated {kind}")
            need(all(e[1] == OWN for e in of("download_list")), "downloaded lists of others")
            need(set(lookups) <= {(OWN, self.own_dev)}, "downloaded bundles of others")
            for ns, *_ in of("upload_bundle"):
                failed = ns not in {e[0] for e in of("download_bundle")}
                key = (ns, OWN, self.own_dev)
                need(
                    failed or before.bundles.get(key) != self.server.bundles.get(key), f"published the unchanged {ns} bundle"
                )
            self.hit("C29", name)
        elif name == "purge_backend":
            ns = arguments["namespace"]
            only(download_list=1, upload_list=1, download_bundle=many, delete_bundle=1)
            identity_keys({OWN})
            need(all(e[1] == ns for e in events if e[0] != "download_bundle"), "data of other backends")
            need(
                not of("upload_list") or self.own_dev in before.lists.get((ns, OWN), {}),
                "published a device list without this device again"
            )
            self.hit("C29", name)
        else:
            need(not events, "there is nothing to do online")
            self.hit("C29", name)

    def op_idle(self, days: int, *_: int) -> None:
        """Time passes; the only thing that happens by itself is the rotation of signed pre keys."""
        days = [1, 5, 8, 13][days % 4]
        before, log, sent = dict(self.server.bundles), len(self.server.log), len(self.app.sent)
        self.h(asyncio.sleep(days * 24 * 60 * 60))
        self.say(f"{days} days pass")
        events = self.server.log[log:]
        need = [(ns, OWN, self.own_dev) for ns in self.loaded]
        for event in events:
            self.expect(
                "C29", event[0] == "upload_bundle" and event[1:] in need and before.get(event[1:]) != self.server.bundles[event[1:]],
                f"{event} while idle for {days} days, all traffic: {events}"
            )
            self.expect("C29", events.count(event) <= 1 + days // 7, f"{events} while idle for {days} days")
        self.expect("C29", len(self.app.sent) == sent, f"messages were sent while idle for {days} days")
        self.hit("C29", "idle.rotated" if events else "idle.nothing")

    def start(self, names: List[str], own_label: Optional[str], first: bool) -> None:
        previous: Set[str] = set() if first else set(self.m_dev[OWN][self.own_dev]["ns"])
        log, sent = len(self.server.log), len(self.app.sent)
        super().start(names, own_label, first)
        events = self.server.log[log:]
        changed = previous ^ set(names)
        for event in events:
            self.expect(
                "C29", (event[1] in changed and event[0] != "download_bundle") or (
                    event[0] == "download_bundle" and changed != set() and event[2] == OWN and event[3] != self.own_dev
                ) or event[0] == "download_bundle" and event[2] == OWN and event[3] != self.own_dev,
                f"start-up: {event}, although only {changed} changed; traffic: {events}"
            )
        for kind, most in ("upload_bundle", 1), ("upload_list", 1), ("delete_bundle", 1), ("download_list", 1 + first):
            for ns in names:
                count = sum(e[0] == kind and e[1] == ns for e in events)
                self.expect("C29", count <= most, f"start-up: {kind} {count} times for {ns}; traffic: {events}")
        self.expect("C29", len(self.app.sent) == sent, "start-up sent messages")
        self.hit("C29", "start.changed" if changed else "start.same")


def run(case: Any, ctx: Ctx) -> None:
    machine = Traffic(case, {"C29"}, trace=ctx.trace is not None)
    if ctx.trace is not None:
        machine.trace = ctx.trace
    machine.run()
    ctx.events.update(machine.events)
    ctx.nontrivial += machine.hits["C29"]



def check(prop: str) -> Check:
    from .machine_checks import machine_strategy
    from ..runner import Part
    return Check(
        prop, [Part("machine", machine_strategy(prop), run, 3600, 50000)],
        "case = configuration + operation sequence for one real session manager with symbolic backends; the network"
        " traffic of every single call is compared with what the call may need, given what was known before; non-trivial"
        " if there was something not to be downloaded, published or sent (known identity keys, existing sessions,"
        " unchanged data)"
    )
