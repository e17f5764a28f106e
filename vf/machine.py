"""
Model-based machine around ONE session manager (the device under test, DUT).

A case is {"cfg": [ints], "ops": [[name, ints...], ...]}; the interpreter below decodes the integers (modulo
whatever is available), applies each operation to the real session manager and to a reference model, and compares
everything observable after every step. All other parties are scripted: other devices run the symbolic backend
directly on dictionaries and share no code with the session manager.

Every comparison carries the ids of the properties it decides. A run is focussed on one property: a failed comparison
that belongs to it is a violation, any other failed comparison ends the case ("abandoned", counted).
"""
from __future__ import annotations

import asyncio
import copy
import json
import re
from collections import Counter
from typing import Any, Dict, FrozenSet, Iterable, List, Optional, Set, Tuple

from . import bootstrap  # noqa: F401

import omemo
from omemo.session import Initiation

from .sym import (
    DictKV, Ids, StorageKV, SymBackend, SymBundle, SymContent, SymEKM, SymKex, SymPlain, SymSession,
    peer_identity_key, sid_identity_keys
)
from .world import (
    TRUST_NAMES, Abandon, App, Faults, Hang, MemStorage, Server, Violation, VirtualLoop, deterministic_secrets,
    make_manager_class, virtual_loop
)

OWN = "me@x.org"
BOB = "bob@x.org"
BOB2 = "bob@x.org.uk"  # has the other JID as a prefix
JIDS = [OWN, BOB, BOB2]
PEERS = [BOB, BOB2]
NAMESPACES = ["ns:a", "ns:b", "ns:b:2"]
DEVICES = [11, 12, 111, 2147483647]
LABELS: List[Optional[str]] = [None, "", "phone", "Tüte 📱", "phone "]
LEVELS = ["verified", "rejected", "new", "blind", "pending", "revoked", "mystery"]
THRESHOLDS = [99, 25, 98, 97, 60]
UNDECIDED_NAMES = ["new", "pending"]
MODES = ["ok", "ok", "ok", "notfound", "failed", "badsig", "nopk", "evil"]
STALENESS = 53


class Raw:
    """A remote device: symbolic backends over dictionaries."""

    def __init__(self, jid: str, dev: int, ik: bytes, ids: Ids) -> None:
        self.jid, self.dev, self.ik = jid, dev, ik
        self.backends = {
            ns: SymBackend(ns, DictKV(), ids, lambda: 0.0, ik=ik) for ns in NAMESPACES
        }
        self.ready: Set[str] = set()
        self.seen_bundle: Dict[str, SymBundle] = {}

    async def backend(self, ns: str) -> SymBackend:
        backend = self.backends[ns]
        if ns not in self.ready:
            self.ready.add(ns)
            await backend.generate_pre_keys(3)
        return backend


def level_of(name: str) -> Optional[omemo.TrustLevel]:
    return TRUST_NAMES.get(name)


class Machine:
    same = False

    def __init__(self, case: Dict[str, Any], focus: Set[str], trace: bool = False) -> None:
        self.case = case
        self.focus = focus
        self.hits: Counter[str] = Counter()
        self.events: Counter[str] = Counter()
        self.trace: Optional[List[str]] = [] if trace else None
        self.scribble = False  # change containers after having passed them to the library

    # ------------------------------------------------------------------------------------------------------
    # plumbing
    # ------------------------------------------------------------------------------------------------------

    def say(self, text: str) -> None:
        if self.trace is not None:
            self.trace.append(text)

    def expect(self, tags: str, cond: bool, message: str) -> None:
        if cond:
            return
        tagset = set(tags.split())
        hit = tagset & self.focus
        self.say(f"FAILED {tags}: {message}")
        if hit:
            raise Violation(sorted(hit)[0], message)
        raise Abandon(f"{tags}: {message}")

    def hit(self, tags: str, event: str) -> None:
        for tag in tags.split():
            self.hits[tag] += 1
        self.events[event] += 1

    def call(self, coro: Any) -> Tuple[Any, Optional[BaseException]]:
        """Run an operation of the code under test; exceptions are results."""
        try:
            return self.loop.run(coro), None
        except (Violation, Abandon):
            raise
        except Exception as e:  # pylint: disable=broad-except
            return None, e

    def h(self, coro: Any) -> Any:
        """Run harness code."""
        return self.loop.run(coro)

    def run(self) -> None:
        cfg = self.case["cfg"]
        with virtual_loop() as loop, deterministic_secrets(cfg[0]):
            self.loop: VirtualLoop = loop
            self.setup(cfg)
            for op in self.case["ops"]:
                self.step(op)

    def step(self, op: List[Any]) -> None:
        name, args = op[0], list(op[1:]) + [0] * 10
        self.log_mark = len(self.server.log)
        self.sent_mark = len(self.app.sent)
        self.before = dict(self.data)
        getattr(self, "op_" + name)(*args[:7])
        self.invariants(name)

    # ------------------------------------------------------------------------------------------------------
    # set-up and restart
    # ------------------------------------------------------------------------------------------------------

    def setup(self, cfg: List[int]) -> None:
        cfg = list(cfg) + [0] * 12
        self.ids = Ids()
        self.server = Server()
        self.server.bundle_source = self.serve_bundle
        self.faults = Faults()
        self.data: Dict[str, str] = {}
        self.cache = bool(cfg[1] % 2)
        self.threshold = THRESHOLDS[cfg[2] % len(THRESHOLDS)]
        self.share = [0, 1, 0, 2][cfg[3] % 4]  # accounts that use the same identity keys
        self.same = cfg[3] & 12 == 12  # the first two devices of each account use the same identity key
        self.undecided_name = UNDECIDED_NAMES[cfg[4] % 2]
        self.raws: Dict[Tuple[str, int, bool], Raw] = {}
        self.modes: Dict[Tuple[str, str, int], str] = {}
        self.app = App(OWN, self.server, self.faults)
        self.app.strict_namespaces = bool(cfg[5] % 2)
        self.app.decide = self.decide
        self.loaded: List[str] = []
        self.own_dev = 0
        self.twin = bool(cfg[5] & 2)  # a device of each other account has the id of this device
        self.own_ik = b""
        self.m_dev: Dict[str, Dict[int, Dict[str, Any]]] = {jid: {} for jid in JIDS}
        self.m_trust: Dict[Tuple[str, bytes], str] = {}
        self.queue: Dict[Tuple[str, str, int], str] = {}
        self.ended_badly = False
        self.sync = True
        self.purges = ""  # properties about purges since the end of the last catch-up
        self.list_drift: Set[str] = set()
        self.bundle_drift: Set[str] = set()
        self.inbox: List[Tuple[Raw, omemo.Message]] = []
        self.outbox: List[Tuple[omemo.Message, str, int]] = []
        self.used_keys: Set[Any] = set()
        self.expect_send: Optional[Counter[Any]] = None
        self.manager: Any = None
        self.candidates: Dict[Tuple[str, int], Set[bytes]] = {}

        # other devices of the own account that were there first
        for i, dev in enumerate(DEVICES[:2]):
            for j, ns in enumerate(NAMESPACES):
                if (cfg[6] >> (i * 3 + j)) & 1:
                    self.server.lists.setdefault((ns, OWN), {})[dev] = LABELS[(cfg[6] + i + j) % len(LABELS)]

        own_label = LABELS[cfg[7] % len(LABELS)]
        self.log_mark = self.sent_mark = 0
        self.before = {}
        self.start(self.pick_backends(cfg[8]), own_label, first=True)
        self.invariants("create")

        prelude = cfg[9] % 5
        if prelude >= 1:
            for jid in PEERS:
                for ns in self.loaded:
                    self.step(["list", JIDS.index(jid), NAMESPACES.index(ns), 0, 3, cfg[10], 0])
        if prelude >= 2:
            for jid in JIDS:
                for d in range(2):
                    self.step(["trust", JIDS.index(jid), d, 0])
        if prelude >= 3:
            self.step(["sync", 0])
        if prelude >= 4:
            self.step(["encrypt", 3, 0, 0, 0])

    @staticmethod
    def pick_backends(n: int) -> List[str]:
        a, b, c = NAMESPACES
        return [
            [a, b], [b, a], [a, b, c], [c, b, a], [b], [a], [b, c], [c, a, b]
        ][n % 8]

    def make_backends(self, names: List[str], storage: omemo.Storage) -> List[SymBackend]:
        return [
            SymBackend(ns, StorageKV(storage), self.ids, self.loop.time, storage=storage) for ns in names
        ]

    def start(self, names: List[str], own_label: Optional[str], first: bool) -> None:
        """create() and what it must do."""
        for t in asyncio.all_tasks(self.loop):
            t.cancel()
        storage = MemStorage(self.data, self.cache, self.faults)
        backends: List[omemo.Backend] = list(self.make_backends(names, storage))
        self.backends = {backend.namespace: backend for backend in backends}
        arg = list(backends)
        manager_class = make_manager_class(self.app)
        self.app.loaded = set(names)
        lists_before = {
            ns: dict(self.server.lists.get((ns, OWN), {})) for ns in NAMESPACES
        }
        before = dict(self.data)
        previous = set() if first else set(self.m_dev[OWN][self.own_dev]["ns"])
        log_mark = len(self.server.log)
        manager, exc = self.call(manager_class.create(
            backends=arg,
            storage=storage,
            own_bare_jid=OWN,
            initial_own_label=own_label,
            undecided_trust_level_name=self.undecided_name,
            pre_key_refill_threshold=self.threshold
        ))
        self.say(f"create(backends={names}, label={own_label!r}, threshold={self.threshold}) -> {exc!r}")
        self.expect("C12", exc is None, f"create failed without any injected fault: {exc!r}")
        self.expect("C24", arg == backends, "create modified the list of backends passed by the caller")
        if self.scribble:
            arg.reverse()
            arg.pop()
        self.hit("C24", "container.backends")
        self.manager = manager
        self.loaded = list(names)
        self.sync = True

        (own, others), exc = self.own_info()
        if first:
            self.own_dev = own.device_id
            self.own_ik = own.identity_key
            self.expect("C12", 1 <= self.own_dev <= 2 ** 31 - 1, f"own device id {self.own_dev} out of range")
            self.expect(
                "C12", all(self.own_dev not in lists_before[ns] for ns in names),
                f"generated device id {self.own_dev} is already taken on an own device list"
            )
            self.m_dev[OWN][self.own_dev] = {"ns": {}, "label": own_label, "ik": self.own_ik}
            self.hit("C12", "create.first")
        else:
            self.expect(
                "C12", own.device_id == self.own_dev and own.identity_key == self.own_ik,
                "device id or identity key changed across a restart"
            )
            self.hit("C12", "create.again")
            if previous != set(names):
                self.hit("C12 C14", "create.backends_changed")

        changed = previous ^ set(names)
        for event in self.server.log[log_mark:]:
            self.expect(
                "C12 C29", event[0].startswith("download") or event[1] in changed,
                f"start-up published or deleted data of {event[1]}, which was loaded before and still is: {event}"
            )
        if not first and not changed:
            self.hit("C12", "create.same_backends")

        rec = self.m_dev[OWN][self.own_dev]
        for ns in sorted(previous - set(names)):
            # backend gone: online data removed, offline backend data kept
            want = dict(lists_before[ns])
            want.pop(self.own_dev, None)
            self.expect(
                "C12 C14", self.server.lists.get((ns, OWN), {}) == want,
                f"device list of omitted backend {ns}: {self.server.lists.get((ns, OWN), {})} instead of {want}"
            )
            self.expect(
                "C12 C14", (ns, OWN, self.own_dev) not in self.server.bundles,
                f"bundle of omitted backend {ns} still published"
            )
            for key in (f"/{ns}/state", f"/{ns}/sessions"):
                self.expect(
                    "C12 C14", self.data.get(key) == before.get(key),
                    f"offline data of omitted backend {ns} changed"
                )
            rec["ns"].pop(ns, None)
            self.list_drift.discard(ns)
            self.bundle_drift.discard(ns)
        own_labels = {rec["label"]} | {
            lists_before[ns][self.own_dev] for ns in names if ns not in previous and self.own_dev in lists_before[ns]
        }
        for ns in names:
            if ns in previous:
                continue
            want = dict(lists_before[ns])
            if self.own_dev not in want:
                want[self.own_dev] = self.republished_label(ns, own_labels)
            self.expect(
                "C12 C07", self.server.lists.get((ns, OWN), {}) == want,
                f"own device list of new backend {ns}: {self.server.lists.get((ns, OWN))} instead of {want}"
            )
            self.list_drift.discard(ns)
            self.bundle_drift.discard(ns)
            self.model_update(OWN, ns, want)
            state = json.loads(before[f"/{ns}/state"]) if f"/{ns}/state" in before else {"pks": []}
            visible = len(state["pks"])
            want_visible = 100 if visible <= self.threshold else visible
            now = json.loads(self.data[f"/{ns}/state"])
            self.expect(
                "C08 C12", len(now["pks"]) == want_visible,
                f"{ns}: {len(now['pks'])} pre keys after initialisation, expected {want_visible}"
            )
            self.expect(
                "C12", self.server.bundles.get((ns, OWN, self.own_dev)) is not None,
                f"bundle of new backend {ns} not published"
            )
        self.settle_labels(OWN, {ns: self.server.lists[(ns, OWN)] for ns in names if ns not in previous})
        for ns in names:
            bundle = self.server.bundles.get((ns, OWN, self.own_dev))
            if bundle is not None and ns not in self.bundle_drift:
                self.expect(
                    "C12 C21", bundle.identity_key == self.own_ik, f"{ns} published a different identity key"
                )
        self.may_resolve(OWN)

    def own_info(self) -> Tuple[Any, Optional[BaseException]]:
        self.server.freeze = True
        try:
            value, exc = self.call(self.manager.get_own_device_information())
        finally:
            self.server.freeze = False
        self.expect("C12 C06", exc is None, f"get_own_device_information raised {exc!r}")
        return value, exc

    # ------------------------------------------------------------------------------------------------------
    # the others
    # ------------------------------------------------------------------------------------------------------

    def devs(self, jid: str) -> List[int]:
        """The devices of an account; those of others may have the id of this device."""
        return [DEVICES[0], self.own_dev, *DEVICES[2:]] if self.twin and jid != OWN else DEVICES

    def raw(self, jid: str, dev: int, evil: bool = False) -> Raw:
        key = (jid, dev, evil)
        if key not in self.raws:
            j = JIDS.index(jid)
            if self.share == 2:
                j = 0  # the same identity key pairs under all accounts
            elif self.share == 1 and j == 2:
                j = 1  # under two accounts
            # keys that differ in few bits, with bytes that need the url-safe base64 alphabet
            d = self.devs(jid).index(dev)
            if self.same and d == 1:
                d = 0
            ik = bytes([0xfb, 0xff, 0xfe, 0x3e]) * 7 + bytes([0, 0xff if evil else 0xfe, j, d])
            self.raws[key] = Raw(jid, dev, ik, self.ids)
        return self.raws[key]

    def serve_bundle(self, ns: str, jid: str, dev: int) -> Optional[SymBundle]:
        if (jid, dev) == (OWN, self.own_dev):
            return self.server.bundles.get((ns, jid, dev))
        if dev not in self.devs(jid):
            return None
        mode = self.modes.get((ns, jid, dev), "ok")
        if mode == "notfound":
            raise omemo.BundleNotFound("scripted")
        if mode == "failed":
            raise omemo.BundleDownloadFailed("scripted")
        return self.peer_bundle(ns, jid, dev, mode)

    def peer_bundle(self, ns: str, jid: str, dev: int, mode: str) -> SymBundle:
        raw = self.raw(jid, dev, mode == "evil")
        # no event loop here: run the (never suspending) coroutine by hand
        bundle = drive(self._peer_bundle(raw, ns))
        if mode == "badsig":
            bundle = bundle.replace(sig_ok=False)
        if mode == "nopk":
            bundle = bundle.replace(pks=frozenset())
        return bundle

    @staticmethod
    async def _peer_bundle(raw: Raw, ns: str) -> SymBundle:
        return await (await raw.backend(ns)).get_bundle(raw.jid, raw.dev)

    # ------------------------------------------------------------------------------------------------------
    # the model
    # ------------------------------------------------------------------------------------------------------

    def model_update(self, jid: str, ns: str, lst: Dict[int, Optional[str]]) -> None:
        recs = self.m_dev[jid]
        for dev in recs:
            if dev not in lst and ns in recs[dev]["ns"]:
                recs[dev]["ns"][ns] = False
        for dev, label in lst.items():
            if dev not in recs:
                recs[dev] = {"ns": {ns: True}, "label": label, "ik": None}
            else:
                recs[dev]["ns"][ns] = True
                if label is not None:
                    recs[dev]["label"] = label
                    recs[dev].pop("alt", None)

    def republished_label(self, ns: str, allowed: Set[Optional[str]]) -> Optional[str]:
        """
        The label this device was re-added with. When several lists are processed by one operation, those that do
        contain this device may have changed its label before.
        """
        label = self.server.lists.get((ns, OWN), {}).get(self.own_dev)
        return label if label in allowed else self.m_dev[OWN][self.own_dev]["label"]

    def settle_labels(self, jid: str, lists: Dict[str, Dict[int, Optional[str]]]) -> None:
        """
        Several lists were processed in one operation. The order is not specified, thus neither is which of their
        labels wins.
        """
        for dev, rec in self.m_dev[jid].items():
            labels = {lst[dev] for lst in lists.values() if lst.get(dev) is not None}
            if len(labels) > 1:
                rec["alt"] = labels

    def resolvable(self, jid: str, dev: int) -> Set[bytes]:
        out = set()
        for ns in self.m_dev[jid][dev]["ns"]:
            if self.app.strict_namespaces and ns not in self.app.loaded:
                continue
            if dev not in self.devs(jid):
                continue
            mode = self.modes.get((ns, jid, dev), "ok")
            if mode in ("notfound", "failed"):
                continue
            out.add(self.raw(jid, dev, mode == "evil").ik)
        return out

    def may_resolve(self, *jids: str) -> None:
        """The operation may have looked up identity keys: learn them, they must come from a served bundle."""
        for jid in jids:
            infos = {d.device_id: d for d in self.peek(jid)}
            for dev, rec in self.m_dev[jid].items():
                if rec["ik"] is None and dev in infos:
                    ik = infos[dev].identity_key
                    self.expect(
                        "C06 C01", ik in self.resolvable(jid, dev),
                        f"identity key assigned to {jid}/{dev} is not that of any of its bundles"
                    )
                    rec["ik"] = ik

    def must_resolve(self, *jids: str) -> None:
        self.may_resolve(*jids)
        for jid in jids:
            for dev, rec in self.m_dev[jid].items():
                if rec["ik"] is None:
                    self.expect(
                        "C06", not self.resolvable(jid, dev),
                        f"{jid}/{dev} left out although a bundle of it can be downloaded"
                    )

    def peek(self, jid: str) -> FrozenSet[omemo.DeviceInformation]:
        self.server.freeze = True
        try:
            value, exc = self.call(self.manager.get_device_information(jid))
        finally:
            self.server.freeze = False
        self.expect("C06", exc is None, f"get_device_information({jid}) raised {exc!r}")
        return value  # type: ignore[no-any-return]

    def trust_name(self, jid: str, ik: bytes) -> str:
        return self.m_trust.get((jid, ik), self.undecided_name)

    def trust_fits(self, info: omemo.DeviceInformation) -> bool:
        if info.trust_level_name == self.trust_name(info.bare_jid, info.identity_key):
            return True
        # this device's own level is of no consequence; the undecided level of any start will do
        return (info.bare_jid, info.device_id) == (OWN, self.own_dev) \
            and (OWN, info.identity_key) not in self.m_trust and info.trust_level_name in UNDECIDED_NAMES

    def compare_info(self, jid: str, infos: Iterable[omemo.DeviceInformation]) -> None:
        infos = list(infos)
        by_id = {d.device_id: d for d in infos}
        self.expect("C06", len(by_id) == len(infos), f"{jid}: a device is reported twice")
        want = {dev for dev, rec in self.m_dev[jid].items() if rec["ik"] is not None}
        self.expect("C06", set(by_id) == want, f"{jid}: devices {sorted(by_id)} reported, expected {sorted(want)}")
        for dev, info in by_id.items():
            rec = self.m_dev[jid][dev]
            own = (jid, dev) == (OWN, self.own_dev)
            extra = " C07 C12" if own else ""
            if info.label in rec.pop("alt", ()):
                rec["label"] = info.label
            self.expect("C06", info.bare_jid == jid, f"{jid}/{dev}: reported under {info.bare_jid}")
            self.expect(
                "C06" + extra, info.namespaces == frozenset(rec["ns"]),
                f"{jid}/{dev}: namespaces {sorted(info.namespaces)}, expected {sorted(rec['ns'])}"
            )
            self.expect(
                "C06" + extra, info.active == frozenset(rec["ns"].items()),
                f"{jid}/{dev}: activity {sorted(info.active)}, expected {sorted(rec['ns'].items())}"
            )
            self.expect(
                "C06" + (" C07" if own else ""), info.label == rec["label"],
                f"{jid}/{dev}: label {info.label!r}, expected {rec['label']!r}"
            )
            self.expect(
                "C06 C01" + extra, info.identity_key == rec["ik"], f"{jid}/{dev}: identity key changed"
            )
            self.expect(
                "C16", self.trust_fits(info),
                f"{jid}/{dev}: trust level {info.trust_level_name!r}, expected"
                f" {self.trust_name(jid, rec['ik'])!r}"
            )

    def sessions(self, data: Optional[Dict[str, str]] = None) -> Dict[Tuple[str, str, int], Dict[str, Any]]:
        data = self.data if data is None else data
        out = {}
        for ns in NAMESPACES:
            for jid, devs in json.loads(data.get(f"/{ns}/sessions", "{}")).items():
                for dev, st in devs.items():
                    out[(ns, jid, int(dev))] = st
        return out

    def states(self, data: Optional[Dict[str, str]] = None) -> Dict[str, Any]:
        data = self.data if data is None else data
        return {ns: json.loads(data[f"/{ns}/state"]) for ns in NAMESPACES if f"/{ns}/state" in data}

    def invariants(self, op: str) -> None:
        """What must hold after every operation."""
        uploads = {e[1] for e in self.server.log[self.log_mark:] if e[0] == "upload_bundle"}
        self.bundle_drift -= uploads
        self.list_drift -= {e[1] for e in self.server.log[self.log_mark:] if e[0] == "upload_list"}
        for jid in JIDS:
            self.compare_info(jid, self.peek(jid))
        states = self.states()
        for ns in self.loaded:
            st = states.get(ns)
            if st is None:
                continue
            visible = len(st["pks"])
            self.expect(
                "C08", self.lowest(ns) <= visible <= 100 and len(set(st["pks"])) == visible,
                f"{ns}: {visible} visible pre keys, allowed range is {self.lowest(ns)}..100"
            )
            if ns not in self.bundle_drift:
                local = SymBundle(ns, OWN, self.own_dev, self.own_ik, st["spk"], frozenset(st["pks"]))
                remote = self.server.bundles.get((ns, OWN, self.own_dev))
                self.expect(
                    "C08" + {"ensure": " C18", "create": " C12", "restart": " C12", "cycle": " C12"}.get(op, ""),
                    remote == local, f"{ns}: published bundle differs from the local one after {op}"
                )
            if ns not in self.list_drift:
                self.expect(
                    "C07", self.own_dev in self.server.lists.get((ns, OWN), {}),
                    f"{ns}: this device is not on its own published device list after {op}"
                )
        if op not in ("deliver", "exchange", "talk", "sync", "replace", "phase", "duel"):
            self.expect(
                "C09 C10 C11", len(self.app.sent) == self.sent_mark,
                f"{op} made the library send a message"
            )

    def lowest(self, ns: str) -> int:
        # the threshold may have been different in earlier runs
        return min(self.low_threshold.get(ns, self.threshold), self.threshold) + 1

    @property
    def low_threshold(self) -> Dict[str, int]:
        if not hasattr(self, "_low"):
            self._low: Dict[str, int] = {}
        for ns in self.loaded:
            self._low[ns] = min(self._low.get(ns, 99), self.threshold)
        return self._low

    # ------------------------------------------------------------------------------------------------------
    # operations: device lists, bundles, trust
    # ------------------------------------------------------------------------------------------------------

    def op_list(self, j: int, n: int, how: int, mask: int, lab: int, own: int, *_: int) -> None:
        jid, ns = JIDS[j % 3], NAMESPACES[n % 3]
        lst: Dict[int, Optional[str]] = {}
        for i, dev in enumerate(self.devs(jid)):
            if (mask >> i) & 1:
                lst[dev] = LABELS[(lab >> i) % len(LABELS)]
        if jid == OWN and own % 3 != 0:
            lst[self.own_dev] = LABELS[(lab + own) % len(LABELS)]
        how %= 4
        if how != 3:
            self.server.lists[(ns, jid)] = dict(lst)
            if jid == OWN and self.own_dev not in lst and ns in self.loaded:
                self.list_drift.add(ns)
        if how == 1:
            self.say(f"server-side list of {jid} in {ns} := {lst} (not announced)")
            return
        if how == 2:
            self.do_refresh(ns, jid)
        else:
            self.do_push(ns, jid, lst)

    def apply_list(
        self, ns: str, jid: str, lst: Dict[int, Optional[str]], own_labels: Optional[Set[Optional[str]]] = None
    ) -> None:
        """Model of processing a list for a loaded namespace, own account included."""
        lst = dict(lst)
        if jid == OWN and self.own_dev not in lst:
            lst[self.own_dev] = self.m_dev[OWN][self.own_dev]["label"] if own_labels is None else \
                self.republished_label(ns, own_labels)
            self.expect(
                "C07", self.server.lists.get((ns, OWN)) == lst,
                f"{ns}: own device was missing from the list; published {self.server.lists.get((ns, OWN))},"
                f" expected {lst}"
            )
            self.list_drift.discard(ns)
            self.hit("C07", "list.own_readded")
        recs = self.m_dev[jid]
        if any(r["ns"].get(ns) and d not in lst for d, r in recs.items()):
            self.hit("C06", "list.deactivates")
        if any(d in recs and recs[d]["ns"].get(ns) is False for d in lst):
            self.hit("C06", "list.reactivates")
        if any(d in recs and ns not in recs[d]["ns"] for d in lst):
            self.hit("C06", "list.adds_namespace")
        self.model_update(jid, ns, lst)

    def do_push(self, ns: str, jid: str, lst: Dict[int, Optional[str]]) -> None:
        arg = dict(lst)
        server_before = copy.deepcopy(self.server.lists)
        _, exc = self.call(self.manager.update_device_list(ns, jid, arg))
        self.say(f"update_device_list({ns}, {jid}, {lst}) -> {exc!r}")
        self.expect("C24", arg == lst, "update_device_list modified the dictionary passed by the caller")
        if self.scribble:
            arg.clear()
            arg[424242] = "changed later"
        self.hit("C24", "container.device_list")
        if ns not in self.loaded:
            self.expect(
                "C06", isinstance(exc, omemo.UnknownNamespace), f"list for unloaded {ns} processed: {exc!r}"
            )
            self.expect("C07", self.server.lists == server_before, "a list was published for an unloaded backend")
            self.events["list.unknown_namespace"] += 1
            return
        self.expect("C06", exc is None, f"update_device_list raised {exc!r}")
        self.events["list.push"] += 1
        if jid != OWN or self.own_dev in lst:
            self.expect("C07", self.server.lists == server_before, "update_device_list changed a published list")
            if jid == OWN:
                # what we were told is what is published, unless told something outdated
                if self.own_dev in self.server.lists.get((ns, OWN), {}):
                    self.list_drift.discard(ns)
        self.apply_list(ns, jid, lst)

    def do_refresh(self, ns: str, jid: str) -> None:
        lst = dict(self.server.lists.get((ns, jid), {}))
        server_before = copy.deepcopy(self.server.lists)
        _, exc = self.call(self.manager.refresh_device_list(ns, jid))
        self.say(f"refresh_device_list({ns}, {jid}) [{lst}] -> {exc!r}")
        if ns not in self.loaded:
            self.expect(
                "C06", isinstance(exc, omemo.UnknownNamespace), f"refresh for unloaded {ns}: {exc!r}"
            )
            return
        self.expect("C06", exc is None, f"refresh_device_list raised {exc!r}")
        self.events["list.refresh"] += 1
        if jid != OWN or self.own_dev in lst:
            self.expect("C07", self.server.lists == server_before, "refresh_device_list changed a published list")
        self.apply_list(ns, jid, lst)

    def op_refresh_all(self, j: int, *_: int) -> None:
        jid = JIDS[j % 3]
        lists = {ns: dict(self.server.lists.get((ns, jid), {})) for ns in self.loaded}
        _, exc = self.call(self.manager.refresh_device_lists(jid))
        self.say(f"refresh_device_lists({jid}) -> {exc!r}")
        self.expect("C06", exc is None, f"refresh_device_lists raised {exc!r}")
        own_labels = None
        if jid == OWN:
            own_labels = {self.m_dev[OWN][self.own_dev]["label"]} | {
                lst[self.own_dev] for lst in lists.values() if self.own_dev in lst
            }
        for ns in self.loaded:
            self.apply_list(ns, jid, lists[ns], own_labels)
        if jid == OWN:
            lists = {ns: self.server.lists[(ns, OWN)] for ns in self.loaded}
        self.settle_labels(jid, lists)
        self.events["list.refresh_all"] += 1

    def op_bundle(self, j: int, d: int, n: int, m: int, *_: int) -> None:
        key = (NAMESPACES[n % 3], JIDS[j % 3], self.devs(JIDS[j % 3])[d % 4])
        self.modes[key] = MODES[m % len(MODES)]
        self.say(f"bundle {key} := {self.modes[key]}")

    def op_outage(self, j: int, n: int, mask: int, m: int, first: int, *_: int) -> None:
        """The bundles of several devices of an account can't be used (any more), those of others can."""
        if first % 4:
            self.op_info(j, 0)
        for d in range(4):
            if (mask >> d) & 1:
                for n2 in range(3):
                    if n2 == n % 3 or m & 128:
                        self.op_bundle(j, d, n2, 3 + (m + (d if m & 64 else 0)) % 5)

    def op_swap(self, j: int, d: int, n: int, *_: int) -> None:
        """The server starts to hand out somebody else's bundle for a device whose identity key is known."""
        self.op_info(j, 0)
        self.op_bundle(j, d % 2, n, MODES.index("evil"))

    def op_trust(self, j: int, d: int, level: int, which: int = 0, *_: int) -> None:
        jid = JIDS[j % 3]
        ik = self.raw(jid, self.devs(jid)[d % 4], which % 5 == 4).ik
        if which % 7 == 6:
            jid, ik = OWN, self.own_ik
        name = LEVELS[level % len(LEVELS)]
        before = self.manager_view()
        _, exc = self.call(self.manager.set_trust(jid, ik, name))
        self.say(f"set_trust({jid}, {ik.hex()[-8:]}, {name!r}) -> {exc!r}")
        self.expect("C16", exc is None, f"set_trust raised {exc!r}")
        self.m_trust[(jid, ik)] = name
        del before
        if any(r["ik"] == ik for r in self.m_dev[jid].values()):
            self.hit("C16", "trust.set_known")
        else:
            self.events["trust.set_unknown"] += 1

    def manager_view(self) -> None:
        return None

    def op_info(self, j: int, own: int, *_: int) -> None:
        jid = JIDS[j % 3]
        if jid == OWN and own % 2:
            value, exc = self.call(self.manager.get_own_device_information())
            self.say(f"get_own_device_information() -> {exc!r}")
            self.expect("C06", exc is None, f"get_own_device_information raised {exc!r}")
            this, others = value
            self.expect(
                "C06", this.device_id == self.own_dev and all(d.device_id != self.own_dev for d in others),
                "get_own_device_information mixed up this device and the others"
            )
            infos = frozenset(others) | {this}
        else:
            infos, exc = self.call(self.manager.get_device_information(jid))
            self.say(f"get_device_information({jid}) -> {exc!r}")
            self.expect("C06", exc is None, f"get_device_information raised {exc!r}")
        newly = [d for d, r in self.m_dev[jid].items() if r["ik"] is None]
        self.must_resolve(jid)
        self.compare_info(jid, infos)
        if newly:
            self.hit("C06", "info.resolve")
        if any((jid, r["ik"]) in self.m_trust for r in self.m_dev[jid].values()):
            self.hit("C16", "info.with_trust")

    # ------------------------------------------------------------------------------------------------------
    # operations: encryption
    # ------------------------------------------------------------------------------------------------------

    async def decide(
        self, manager: omemo.SessionManager, undecided: FrozenSet[omemo.DeviceInformation], _: Optional[str]
    ) -> None:
        plan = self.plan
        if plan % 16 == 15:
            raise omemo.TrustDecisionFailed("scripted")
        for i, device in enumerate(sorted(undecided, key=lambda d: (d.bare_jid, d.device_id))):
            choice = (plan >> (2 * i)) % 8 if plan else 0
            name = ["verified", "blind", "verified", "rejected", "revoked", "pending", None, "verified"][choice]
            if plan == 14:
                name = "mystery"
            if name is not None:
                await manager.set_trust(device.bare_jid, device.identity_key, name)
                self.m_trust[(device.bare_jid, device.identity_key)] = name
        if plan & 128:
            # the decision may also revise earlier ones
            decided = sorted(k for k in self.m_trust if k not in {(d.bare_jid, d.identity_key) for d in undecided})
            if decided:
                jid, ik = decided[(plan >> 4) % len(decided)]
                name = ["rejected", "verified", "pending", "revoked"][plan % 4]
                await manager.set_trust(jid, ik, name)
                self.m_trust[(jid, ik)] = name

    def op_encrypt(self, jmask: int, order_code: int, plan: int, ident: int, body: int, *_: int) -> None:
        jids = frozenset(jid for i, jid in enumerate([BOB, BOB2, OWN]) if (jmask >> i) & 1)
        orders: List[Optional[List[str]]] = [
            None, None, list(reversed(self.loaded)), self.loaded[:1], self.loaded[-1:], NAMESPACES,
            self.loaded[1:] + self.loaded[:1], [], self.loaded[::-1] + self.loaded
        ]
        order = orders[order_code % len(orders)]
        order = None if order is None else list(order)
        identifier = [None, "tab-1", ""][ident % 3]
        self.plan = plan
        blank = [NAMESPACES, NAMESPACES[:1], NAMESPACES[1:2], [], []][body % 5]
        plaintext = {ns: b"" if ns in blank else f"m{self.ids()}-{ns}".encode() for ns in NAMESPACES}
        self.app.decisions.clear()

        trust_before = dict(self.m_trust)
        sessions_before = self.sessions()
        states_before = self.states()
        a_jids, a_plain, a_order = frozenset(jids), dict(plaintext), None if order is None else list(order)
        passed = (plaintext, order)
        result, exc = self.call(self.manager.encrypt(jids, plaintext, order, identifier))
        self.say(
            f"encrypt({sorted(jids)}, order={order}, plan={plan}, identifier={identifier!r}) ->"
            f" {exc!r} decisions={[sorted((d.bare_jid, d.device_id) for d in u) for u, _ in self.app.decisions]}"
        )
        self.expect(
            "C24", (a_jids, a_plain, a_order) == (jids, plaintext, order),
            "encrypt modified a parameter passed by the caller"
        )
        if self.scribble:
            plaintext = a_plain
            order = a_order
            for container in passed:
                if container is not None:
                    container.clear()
        self.hit("C24", "container.plaintext" + ("" if order is None else "+order"))
        sessions_after = self.sessions()
        self.expect("C08 C05", self.states() == states_before, "encrypt changed own pre key state")

        if order is not None and not set(order) <= set(self.loaded):
            self.expect("C02", isinstance(exc, omemo.UnknownNamespace), f"unloaded backend in order: {exc!r}")
            self.expect("C05", sessions_after == sessions_before, "refused encryption changed session state")
            self.may_resolve(*(jids | {OWN}))
            self.hit("C02", "encrypt.unknown_namespace")
            return
        effective = list(self.loaded) if order is None else order

        recipients = jids | {OWN}
        self.must_resolve(*recipients)

        cands: Dict[Tuple[str, int], str] = {}
        for jid in recipients:
            for dev, rec in self.m_dev[jid].items():
                if rec["ik"] is None or (jid, dev) == (OWN, self.own_dev):
                    continue
                usable = [ns for ns in effective if rec["ns"].get(ns)]
                if usable:
                    cands[(jid, dev)] = usable[0]

        def level(trust: Dict[Tuple[str, bytes], str], jd: Tuple[str, int]) -> Optional[omemo.TrustLevel]:
            return level_of(trust.get((jd[0], self.m_dev[jd[0]][jd[1]]["ik"]), self.undecided_name))

        asked = [(frozenset((d.bare_jid, d.device_id) for d in u), i) for u, i in self.app.decisions]

        def refused(kinds: Tuple[type, ...], what: str) -> None:
            self.expect("C01", isinstance(exc, kinds), f"{what}, but encrypt ended with {exc!r}")
            self.expect("C05", sessions_after == sessions_before, f"failed encryption ({what}) changed sessions")
            self.hit("C01 C05", f"encrypt.refused.{what}")

        if any(level(trust_before, jd) is None for jd in cands):
            refused((omemo.UnknownTrustLevel,), "unknown trust level")
            return
        undecided = frozenset(jd for jd in cands if level(trust_before, jd) is omemo.TrustLevel.UNDECIDED)
        if undecided:
            self.expect(
                "C01", asked == [(undecided, identifier)],
                f"trust decisions requested: {asked}, expected one request for {sorted(undecided)} with"
                f" identifier {identifier!r}"
            )
            for devices, _ in self.app.decisions:
                for info in devices:
                    self.expect(
                        "C01 C16",
                        info.identity_key == self.m_dev[info.bare_jid][info.device_id]["ik"]
                        and info.trust_level_name == trust_before.get(
                            (info.bare_jid, info.identity_key), self.undecided_name
                        ),
                        "device information given to the trust decision is wrong"
                    )
            if plan % 16 == 15:
                refused((omemo.TrustDecisionFailed,), "trust decision failed")
                return
        else:
            self.expect("C01", asked == [], f"needless trust decision requested: {asked}")
        if any(level(self.m_trust, jd) is None for jd in cands):
            refused((omemo.UnknownTrustLevel, omemo.StillUndecided), "unknown trust level decided")
            return
        if any(level(self.m_trust, jd) is omemo.TrustLevel.UNDECIDED for jd in cands):
            refused((omemo.StillUndecided,), "still undecided")
            return

        trusted = {jd for jd in cands if level(self.m_trust, jd) is omemo.TrustLevel.TRUSTED}
        failures: Dict[Tuple[str, str, int], Tuple[type, ...]] = {}
        for jid, dev in trusted:
            ns = cands[(jid, dev)]
            if (ns, jid, dev) in sessions_before:
                continue
            mode = self.modes.get((ns, jid, dev), "ok")
            kinds: Optional[Tuple[type, ...]] = {
                "notfound": (omemo.BundleNotFound,),
                "failed": (omemo.BundleDownloadFailed,),
                "badsig": (omemo.KeyExchangeFailed,),
                "nopk": (omemo.KeyExchangeFailed,)
            }.get(mode)
            if kinds is None and self.raw(jid, dev, mode == "evil").ik != self.m_dev[jid][dev]["ik"]:
                kinds = (omemo.OMEMOException,)
                self.hit("C01", "encrypt.substituted_bundle")
            if kinds is not None:
                failures[(ns, jid, dev)] = kinds
        covered = {(cands[jd], *jd) for jd in trusted} - set(failures)
        missing = frozenset(
            jid for jid in jids - {OWN} if not any(c[1] == jid for c in covered)
        )
        if len(cands) > len(trusted) and trusted:
            self.hit("C01", "encrypt.some_untrusted")

        if missing:
            substituted = any(k == (omemo.OMEMOException,) for k in failures.values())
            self.expect(
                "C02" + (" C01" if substituted or len(cands) > len(trusted) else ""),
                isinstance(exc, omemo.NoEligibleDevices),
                f"{sorted(missing)} have no eligible device, but encrypt ended with {exc!r}"
            )
            self.expect(
                "C02", frozenset(exc.bare_jids) == missing,  # type: ignore[union-attr]
                f"NoEligibleDevices names {sorted(exc.bare_jids)}, expected {sorted(missing)}"  # type: ignore[union-attr]
            )
            self.expect("C05", sessions_after == sessions_before, "NoEligibleDevices, but sessions were persisted")
            self.hit("C02", "encrypt.no_eligible")
            if covered:
                self.hit("C05", "encrypt.no_eligible_partial")
            return

        about_trust = isinstance(exc, (omemo.StillUndecided, omemo.UnknownTrustLevel, omemo.TrustDecisionFailed))
        self.expect("C01 C02 C16" if about_trust else "C02", exc is None, f"encrypt failed: {exc!r}")
        messages, errors = result
        got_errors = {(e.namespace, e.bare_jid, e.device_id): e.exception for e in errors}
        self.expect(
            "C02" + (" C01" if set(failures) - set(got_errors) else ""),
            set(got_errors) == set(failures) and len(got_errors) == len(errors),
            f"encryption errors {sorted(got_errors)}, expected {sorted(failures)}"
        )
        for key, kinds in failures.items():
            self.expect(
                "C02", isinstance(got_errors[key], kinds), f"error for {key} is {got_errors[key]!r}"
            )
        seen: Counter[Any] = Counter()
        namespaces_seen: Counter[str] = Counter()
        fresh_kex = 0
        for message, plain in messages.items():
            namespaces_seen[message.namespace] += 1
            self.expect(
                "C02 C03", message.bare_jid == OWN and message.device_id == self.own_dev,
                "message does not name this device as its sender"
            )
            self.expect(
                "C03", isinstance(message.content, SymContent)
                and message.content.body == plaintext[message.namespace]
                and not message.content.empty and plain.keyid == message.content.keyid,
                f"content of the {message.namespace} message is not the plaintext given for it"
            )
            for ekm, kex in message.keys:
                jd = (ekm.bare_jid, ekm.device_id)
                seen[(message.namespace, *jd)] += 1
                self.expect(
                    "C01" if jd in cands and jd not in trusted else "C01 C02",
                    jd in trusted, f"message carries a key for {jd}, which is not a trusted recipient device"
                )
                active_ik, passive_ik = sid_identity_keys(ekm.sid)
                peer_ik = passive_ik if ekm.side == "A" else active_ik
                pinned = self.m_dev[jd[0]][jd[1]]["ik"]
                self.expect(
                    "C01", peer_ik == pinned,
                    f"key for {jd} can be opened by identity key ...{peer_ik.hex()[-8:]}, the trusted one is"
                    f" ...{pinned.hex()[-8:]}"
                )
                self.expect(
                    "C03", ekm.keyid == message.content.keyid,
                    f"key material for {jd} does not fit the content"
                )
                self.note_key_use(ekm)
                st = sessions_after.get((message.namespace, *jd))
                self.expect("C05", st is not None and st["sid"] == ekm.sid, f"session used for {jd} not persisted")
                self.check_kex(message.namespace, jd, kex, sessions_before, sessions_after)
                if kex is not None:
                    fresh_kex += 1
                self.outbox.append((message, *jd))
        self.expect("C02", all(n == 1 for n in namespaces_seen.values()), "several messages for one backend")
        self.expect(
            "C02", set(seen) == covered and all(n == 1 for n in seen.values()),
            f"keys for {sorted(seen.items())}, expected exactly one for each of {sorted(covered)}"
        )
        # session state: exactly the used sessions moved, by one message each
        for key in set(sessions_before) | set(sessions_after):
            if key in covered:
                if key in sessions_before:
                    want = dict(sessions_before[key])
                    want["send_n"] += 1
                    self.expect("C05", sessions_after[key] == want, f"session {key} was not advanced by one message")
                else:
                    self.expect(
                        "C05", sessions_after[key]["send_n"] == 1 and sessions_after[key]["side"] == "A",
                        f"new session {key} has an odd state"
                    )
            else:
                self.expect(
                    "C05", sessions_before.get(key) == sessions_after.get(key),
                    f"session {key} changed although nothing was encrypted for it"
                )
        if covered:
            self.hit("C05 C03", "encrypt.ok")
        else:
            self.events["encrypt.nobody"] += 1
        if len({ns for ns, *_ in covered}) > 1:
            self.hit("C02", "encrypt.multi_backend")
        if failures:
            self.hit("C02", "encrypt.partial_errors")
        if any(c[1] == OWN for c in covered):
            self.hit("C02", "encrypt.own_devices")
        if order is not None and covered:
            self.hit("C02", "encrypt.explicit_order")
        if fresh_kex:
            self.events["encrypt.with_kex"] += 1

    def note_key_use(self, ekm: SymEKM) -> None:
        key = (ekm.sid, ekm.side, ekm.bare_jid, ekm.device_id, ekm.epoch, ekm.n)
        self.expect("C05", key not in self.used_keys, f"ratchet message key {key} used for two messages")
        self.used_keys.add(key)

    def check_kex(
        self, ns: str, jd: Tuple[str, int], kex: Any, before: Dict[Any, Any], after: Dict[Any, Any]
    ) -> None:
        st = after[(ns, *jd)]
        session = SymSession(ns, jd[0], jd[1], st)
        needs = session.initiation is Initiation.ACTIVE and not session.confirmed
        if needs:
            self.expect(
                "C10 C03", kex == session.key_exchange,
                f"{ns} message to {jd}: key exchange of the unconfirmed session is missing or wrong"
            )
            self.hit("C10", "kex.unconfirmed_again" if (ns, *jd) in before else "kex.initial")
        else:
            self.expect("C10", kex is None, f"{ns} message to {jd}: needless key exchange attached")
            self.hit("C10", "kex.none")

    # ------------------------------------------------------------------------------------------------------
    # operations: messages
    # ------------------------------------------------------------------------------------------------------

    def op_flood(self, jmask: int, order_code: int, plan: int, n: int, *_: int) -> None:
        """Many messages in a row, unanswered."""
        for _i in range([1, 2, 3, 12, 26, 58, 1, 2][n % 8]):
            self.step(["encrypt", jmask, order_code, plan, 0, 1])

    def op_recv(self, k: int, *_: int) -> None:
        """A remote device receives something the DUT produced (out of order, or never)."""
        if not self.outbox:
            return
        message, jid, dev = self.outbox.pop(-1 - (k % min(len(self.outbox), 4)))
        self.h(self._recv(message, jid, dev))

    async def _recv(self, message: omemo.Message, jid: str, dev: int) -> Optional[Raw]:
        ns = message.namespace
        key = [(e, x) for e, x in message.keys if (e.bare_jid, e.device_id) == (jid, dev)]
        self.expect("C02 C10", len(key) == 1, "device not addressed exactly once")
        ekm, kex = key[0]
        active_ik, passive_ik = sid_identity_keys(ekm.sid)
        peer_ik = passive_ik if ekm.side == "A" else active_ik
        raw = next((r for r in (self.raw(jid, dev), self.raw(jid, dev, True)) if r.ik == peer_ik), None)
        if raw is None:
            return None
        backend = await raw.backend(ns)
        session = await backend.load_session(OWN, self.own_dev)
        try:
            if kex is not None:
                if session is not None and session.st["side"] == "B" \
                        and session.key_exchange.builds_same_session(kex):
                    plain = await backend.decrypt_key_material(session, ekm)
                else:
                    session, plain = await backend.build_session_passive(OWN, self.own_dev, kex, ekm)
            else:
                if session is None or session.st["sid"] != ekm.sid:
                    self.events["recv.other_session"] += 1
                    return None
                plain = await backend.decrypt_key_material(session, ekm)
            body = None if message.content.empty else await backend.decrypt_plaintext(message.content, plain)
        except omemo.BackendException as e:
            self.expect("C03 C10", False, f"{jid}/{dev} can't read a {ns} message made for it: {e!r}")
            return None
        if body is None:
            self.expect("C09 C10", message.content.empty, "empty message with content")
        await backend.store_session(session)
        self.say(f"  {jid}/{dev} [{ns}] reads {body!r}")
        self.hit("C03", "recv.ok" if body is not None else "recv.empty")
        return raw

    def op_send(self, j: int, d: int, n: int, flags: int, burst: int, pick: int, *_: int) -> None:
        """A remote device composes message(s) for the DUT; delivery is a separate operation."""
        jid, ns = JIDS[j % 3], NAMESPACES[n % 3]
        dev = self.devs(jid)[d % (3 if flags & 32 else 2)]
        self.h(self._send(self.raw(jid, dev, flags & 64 > 0 and flags & 1 > 0), ns, flags, burst, pick))

    async def _send(self, raw: Raw, ns: str, flags: int, burst: int, pick: int) -> None:
        backend = await raw.backend(ns)
        published = self.server.bundles.get((ns, OWN, self.own_dev))
        fresh = flags & 3 == 3
        stale = flags & 4 > 0
        count = [1, 1, 1, 2, 3, 1, STALENESS, STALENESS + 1, STALENESS + 2, 30][burst % 10]
        session = None if fresh else await backend.load_session(OWN, self.own_dev)
        for i in range(count):
            empty = flags & 24 == 24
            content, plain = await backend.encrypt_empty() if empty else await backend.encrypt_plaintext(
                b"" if flags & 24 == 8 else f"in{self.ids()}".encode()
            )
            if session is None:
                bundle = raw.seen_bundle.get(ns) if stale else None
                bundle = bundle or published
                if bundle is None:
                    return
                raw.seen_bundle.setdefault(ns, bundle)
                if not stale:
                    raw.seen_bundle[ns] = bundle
                choice = sorted(bundle.pks)
                if not choice:
                    return
                backend.pick = lambda pks: sorted(pks)[pick % 3 if len(pks) > 3 else 0]
                session, ekm = await backend.build_session_active(OWN, self.own_dev, bundle, plain)
            else:
                ekm = await backend.encrypt_key_material(session, plain)
            kex = session.key_exchange if session.st["side"] == "A" and not session.confirmed else None
            if i >= count - 2:
                self.inbox.append((raw, omemo.Message(ns, raw.jid, raw.dev, content, frozenset({(ekm, kex)}))))
        assert session is not None
        await backend.store_session(session)
        self.say(
            f"  {raw.jid}/{raw.dev} composes {count} [{ns}] message(s) for this device"
            f" (session {session.st['side']}, kex {session.st['kex'][1:]}, n={session.st['send_n'] - 1})"
        )

    def op_deliver(self, k: int, mut: int, decoy: int, keep: int, *_: int) -> None:
        if not self.inbox:
            return
        index = -1 - (k % min(len(self.inbox), 5))
        raw, message = self.inbox[index]
        if keep % 4 != 0:
            self.inbox.pop(index)
        mutated = self.mutate(message, raw, mut, decoy)
        self.do_decrypt(mutated)

    def op_exchange(self, j: int, d: int, n: int, flags: int, burst: int, pick: int, mut: int) -> None:
        """Compose and deliver at once."""
        before = len(self.inbox)
        self.op_send(j, d, n, flags & ~64, burst, pick)
        if len(self.inbox) > before:
            raw, message = self.inbox.pop()
            self.do_decrypt(self.mutate(message, raw, mut, mut))

    def op_talk(self, k: int, burst: int, flags: int, order: int, mut: int, *_: int) -> None:
        """A remote device reads what the DUT sent it and answers through the same session."""
        if not self.outbox:
            return
        message, jid, dev = self.outbox.pop(-1 - (k % min(len(self.outbox), 4)))
        raw = self.h(self._recv(message, jid, dev))
        if raw is None:
            return
        before = len(self.inbox)
        self.h(self._send(raw, message.namespace, flags & 28, burst, 0))
        new = self.inbox[before:]
        del self.inbox[before:]
        if order % 2:
            new.reverse()
        for i, (raw, answer) in enumerate(new):
            if order & 4 and i == 0 and len(new) > 1:
                self.inbox.append((raw, answer))
                continue
            self.do_decrypt(self.mutate(answer, raw, mut if i == len(new) - 1 else 0, order >> 4))
            self.invariants("deliver")

    def mutate(self, message: omemo.Message, raw: Raw, mut: int, decoy: int) -> omemo.Message:
        (ekm, kex), = message.keys
        kind = [
            "tamper_ekm", "tamper_content", "other_device", "other_jid", "strip_kex", "kex_ik", "kex_pk", "unknown_ns",
            "spoof_device", "spoof_jid", "foreign_kex", "kex_spk"
        ][mut // 3 % 12] if mut % 3 == 1 else ""
        if kind == "tamper_ekm":
            ekm = ekm.replace(tampered=True)
        elif kind == "tamper_content":
            c = message.content
            if not c.empty:
                message = message._replace(content=SymContent(self.ids(), c.body))
        elif kind == "other_device":
            ekm = ekm.replace(_dev=DEVICES[2])
        elif kind == "other_jid":
            ekm = ekm.replace(_jid=BOB)
        elif kind == "strip_kex":
            kex = None
        elif kind == "kex_ik" and kex is not None:
            kex = SymKex(self.raw(raw.jid, raw.dev, raw.ik != self.raw(raw.jid, raw.dev, True).ik).ik, kex.ek, kex.spk, kex.pk)
        elif kind == "kex_pk" and kex is not None:
            kex = SymKex(kex.ik, kex.ek, kex.spk, 999999999)
        elif kind == "kex_spk" and kex is not None:
            kex = SymKex(kex.ik, kex.ek, 999999999, kex.pk)
        elif kind == "unknown_ns":
            other = [ns for ns in NAMESPACES if ns not in self.loaded] or ["ns:zzz"]
            message = message._replace(namespace=other[0])
        elif kind == "spoof_device":
            devs = self.devs(message.bare_jid)
            message = message._replace(device_id=devs[(devs.index(message.device_id) + 1) % 2])
        elif kind == "spoof_jid":
            message = message._replace(bare_jid=JIDS[(JIDS.index(message.bare_jid) + 1) % 3])
        elif kind == "foreign_kex":
            kex = SymKex(raw.ik, self.ids(), 1, 1)
        if kind:
            self.say(f"  message mutated: {kind}")
        keys: Set[Any] = {(ekm, kex)}
        if decoy & 1:
            keys.add((SymEKM(OWN, DEVICES[0], "x|1|x|1|1", "A", 1, 0, 0, 1), None))
        if decoy & 2:
            keys.add((SymEKM(BOB2, self.own_dev, "y|1|y|1|1", "A", 1, 0, 0, 1), None))
        return message._replace(keys=frozenset(keys))

    def do_decrypt(self, message: omemo.Message) -> None:
        ns, jid, dev = message.namespace, message.bare_jid, message.device_id
        sessions_before, states_before = self.sessions(), self.states()
        lists_before = copy.deepcopy(self.server.lists)
        data_before = dict(self.data)
        sent_before = len(self.app.sent)
        result, exc = self.call(self.manager.decrypt(message))
        self.say(
            f"decrypt([{ns}] from {jid}/{dev}, kex={sum(x is not None for _, x in message.keys)}) ->"
            f" {(exc if exc is not None else result[0])!r}"
        )
        sessions_after, states_after = self.sessions(), self.states()
        sent = self.app.sent[sent_before:]

        def rejected(kinds: Tuple[type, ...], what: str) -> None:
            self.expect("C04", isinstance(exc, kinds), f"{what}, but decrypt ended with {exc!r} / {result!r}")
            self.expect("C05", sessions_after == sessions_before, f"failed decryption ({what}) changed sessions")
            self.expect("C05 C08", states_after == states_before, f"failed decryption ({what}) changed pre keys")
            self.expect("C05 C09 C10", not sent, f"failed decryption ({what}) sent a message")
            self.hit("C04 C05", f"decrypt.rejected.{what}")

        if ns not in self.loaded:
            self.may_resolve(jid)
            rejected((omemo.UnknownNamespace,), "unknown namespace")
            return
        mine = [(e, x) for e, x in message.keys if (e.bare_jid, e.device_id) == (OWN, self.own_dev)]
        if not mine:
            self.may_resolve(jid)
            rejected((omemo.MessageNotForUs,), "not for us")
            return
        (ekm, kex), = mine

        # is the sender known, or does a refresh of the device list make it known?
        rec = self.m_dev[jid].get(dev)
        if rec is None or (rec["ik"] is None and not self.resolvable(jid, dev)):
            self.apply_list_after(ns, jid, lists_before)
            rec = self.m_dev[jid].get(dev)
            self.events["decrypt.refresh"] += 1
        self.may_resolve(jid)
        if rec is None or rec["ik"] is None:
            self.expect(
                "C04 C06", rec is None or not self.resolvable(jid, dev),
                f"sender {jid}/{dev} treated as unknown: {exc!r}"
            )
            rejected((omemo.SenderNotFound,), "sender not found")
            return
        self.must_resolve(jid)
        level = level_of(self.trust_name(jid, rec["ik"]))
        if level is None:
            rejected((omemo.UnknownTrustLevel,), "unknown trust level")
            return
        if level is omemo.TrustLevel.DISTRUSTED:
            rejected((omemo.SenderDistrusted,), "sender distrusted")
            return
        if kex is not None and kex.identity_key != rec["ik"]:
            rejected((omemo.PublicDataInconsistency,), "identity key mismatch")
            return

        # reference decryption on a copy of the persisted state
        ref = SymBackend(ns, DictKV(dict(data_before)), Ids(), lambda: 0.0, ik=self.own_ik)
        try:
            ref_session, plain, body, rebuilt = drive(self.ref_decrypt(ref, jid, dev, ekm, kex, message.content))
        except omemo.OMEMOException as e:
            kinds: Tuple[type, ...] = (type(e),)
            what = {
                "NoSession": "no session", "KeyExchangeFailed": "key exchange failed"
            }.get(type(e).__name__, "undecryptable")
            rejected(kinds, what)
            return

        self.expect("C04 C03", exc is None, f"acceptable message from {jid}/{dev} refused: {exc!r}")
        got_body, info, got_plain = result
        self.expect("C04 C03", got_body == body, f"decrypt returned {got_body!r} instead of {body!r}")
        self.expect("C04", got_plain == plain, "decrypt returned the wrong key material")
        want_info = next(d for d in self.peek(jid) if d.device_id == dev)
        self.expect("C04", info == want_info, f"decrypt names {info} as the sender instead of {want_info}")

        # automatic replies
        st = ref_session.st
        if rebuilt:
            # A key exchange whose pre key is retained can be processed twice. That gives another session, in which
            # this side uses another ratchet key pair, although the symbolic names are the same.
            self.used_keys = {k for k in self.used_keys if k[:4] != (st["sid"], "B", jid, dev)}
        trigger = kex is not None or (st["recv_n"] or 0) > STALENESS
        if trigger and not self.sync:
            drive(ref.encrypt_key_material(ref_session, SymPlain(None)))
            self.check_empty(sent, {(ns, jid, dev)}, sessions_after, "C10 C09" if self.ended_badly else "C10")
            self.hit("C10", "decrypt.reply.kex" if kex is not None else "decrypt.reply.stale")
        else:
            self.expect(
                "C09 C10" if self.sync else "C10", not sent,
                f"decrypt sent {len(sent)} message(s), none were due" + (" while catching up" if self.sync else "")
            )
            if trigger:
                self.queue[(ns, jid, dev)] = "must"
                self.hit("C09", "decrypt.deferred.kex" if kex is not None else "decrypt.deferred.stale")
        # persisted session
        for key in set(sessions_before) | set(sessions_after):
            if key == (ns, jid, dev):
                self.expect(
                    "C05 C03", sessions_after.get(key) == ref_session.st,
                    f"session {key} not persisted as it should be after decryption:"
                    f" {sessions_after.get(key)} vs. {ref_session.st}"
                )
            else:
                self.expect("C05", sessions_before.get(key) == sessions_after.get(key), f"session {key} changed")
        # pre keys
        self.check_pre_keys(ns, kex, states_before, states_after)
        self.hit("C03 C05", "decrypt.ok.kex" if kex is not None else "decrypt.ok")
        if level is omemo.TrustLevel.UNDECIDED:
            self.hit("C04", "decrypt.undecided")
        if kex is not None and (ns, jid, dev) in sessions_before:
            self.hit("C03", "decrypt.kex_replaces" if rebuilt else "decrypt.kex_same")
        if dev in self.m_dev[jid] and not any(self.m_dev[jid][dev]["ns"].values()):
            self.events["decrypt.inactive_sender"] += 1

    def apply_list_after(self, ns: str, jid: str, lists_before: Dict[Any, Any]) -> None:
        lst = dict(lists_before.get((ns, jid), {}))
        self.apply_list(ns, jid, lst)

    @staticmethod
    async def ref_decrypt(
        ref: SymBackend, jid: str, dev: int, ekm: SymEKM, kex: Optional[SymKex], content: SymContent
    ) -> Tuple[SymSession, SymPlain, Optional[bytes], bool]:
        session = await ref.load_session(jid, dev)
        rebuilt = False
        if kex is None:
            if session is None:
                raise omemo.NoSession("reference: no session")
            plain = await ref.decrypt_key_material(session, ekm)
        elif session is not None and session.initiation is Initiation.PASSIVE \
                and session.key_exchange.builds_same_session(kex):
            plain = await ref.decrypt_key_material(session, ekm)
        else:
            rebuilt = True
            session, plain = await ref.build_session_passive(jid, dev, kex, ekm)
        body = None if content.empty else await ref.decrypt_plaintext(content, plain)
        return session, plain, body, rebuilt

    def check_pre_keys(
        self, ns: str, kex: Optional[SymKex], before: Dict[str, Any], after: Dict[str, Any]
    ) -> None:
        for other in set(before) | set(after):
            if other != ns:
                self.expect("C08", before.get(other) == after.get(other), f"pre keys of {other} changed")
        b, a = before[ns], after[ns]
        if kex is None:
            self.expect("C08", b == a, f"{ns}: a message without key exchange changed the pre keys")
            return
        visible, hidden = set(b["pks"]), set(b["hidden"])
        was_visible = kex.pk in visible
        visible.discard(kex.pk)
        if self.sync:
            if was_visible:
                hidden.add(kex.pk)
        else:
            hidden.discard(kex.pk)
        self.expect(
            "C08", kex.pk not in a["pks"], f"{ns}: used pre key {kex.pk} is still offered to others"
        )
        self.expect(
            "C08 C09", set(a["hidden"]) == hidden,
            f"{ns}: retained pre keys {sorted(a['hidden'])}, expected {sorted(hidden)}"
            + (" (while catching up)" if self.sync else "")
        )
        self.expect("C08", visible <= set(a["pks"]), f"{ns}: unrelated pre keys disappeared")
        want = len(visible)
        if (was_visible or kex.pk in b["hidden"]) and want <= self.threshold:
            want = 100
        # a pre key that was hidden before does not change the visible bundle; refilling is optional then
        allowed = {want} if was_visible else {want, len(visible)}
        self.expect(
            "C08", len(a["pks"]) in allowed,
            f"{ns}: {len(a['pks'])} pre keys offered after using one, expected {sorted(allowed)}"
        )
        if was_visible:
            self.hit("C08", "prekey.hidden" if self.sync else "prekey.deleted")
            if want == 100:
                self.events["prekey.refill"] += 1
            else:
                self.hit("C08", "prekey.no_refill")
        elif kex.pk in b["hidden"]:
            self.hit("C09", "prekey.reused_while_syncing")

    def check_empty(
        self, sent: List[Tuple[str, omemo.Message]], want: Set[Tuple[str, str, int]], sessions: Dict[Any, Any],
        tags: str, optional: Optional[Set[Tuple[str, str, int]]] = None
    ) -> None:
        got: Counter[Any] = Counter()
        for to, message in sent:
            self.expect(
                tags, message.bare_jid == OWN and message.device_id == self.own_dev,
                "automatic message does not name this device as its sender"
            )
            self.expect(tags, message.content.empty, "automatic message is not empty")
            self.expect(tags, len(message.keys) == 1, f"automatic message has {len(message.keys)} keys")
            (ekm, kex), = message.keys
            jd = (ekm.bare_jid, ekm.device_id)
            self.expect(tags, to == jd[0], f"automatic message for {jd} sent to {to}")
            got[(message.namespace, *jd)] += 1
            st = sessions.get((message.namespace, *jd))
            self.expect(tags, st is not None and st["sid"] == ekm.sid, f"automatic message to {jd} uses no stored session")
            self.check_kex(message.namespace, jd, kex, {}, sessions)
            self.note_key_use(ekm)
            self.outbox.append((message, *jd))
        optional = optional or set()
        self.expect(
            tags, all(n == 1 for n in got.values()) and want <= set(got) and set(got) <= want | optional,
            f"automatic messages {sorted(got.items())}, expected one for each of {sorted(want)}"
        )

    # ------------------------------------------------------------------------------------------------------
    # operations: catch-up, sessions
    # ------------------------------------------------------------------------------------------------------

    def op_sync(self, on: int, kind: int = 0, at: int = 0, *_: int) -> None:
        if on % 3 != 1 and kind % 8 == 7:
            self.interrupted_sync(at)
        sessions_before = self.sessions()
        states_before = self.states()
        sent_before = len(self.app.sent)
        if on % 3 == 1:
            try:
                self.manager.before_history_sync()
            except Exception as e:  # pylint: disable=broad-except
                self.expect("C09", False, f"before_history_sync raised {e!r}")
            self.say("before_history_sync()")
            self.sync = True
            self.expect("C09", len(self.app.sent) == sent_before, "entering catch-up sent a message")
            self.expect("C09", self.states() == states_before, "entering catch-up changed pre keys")
            return
        # messages that can't be sent are not sent again, but don't keep others from being sent
        attempts: List[Tuple[str, omemo.Message]] = []
        self.app.send_hook = lambda message, to: attempts.append((to, message))
        if kind % 8 in (5, 6):
            self.faults.arm({i: "before" for i in (range(99) if kind % 8 == 6 else [at % 3])}, {"n.send"})
        _, exc = self.call(self.manager.after_history_sync())
        failed = len(self.faults.fired)
        self.faults.disarm()
        self.app.send_hook = None
        sent = self.app.sent[sent_before:]
        tags = "C09" + self.purges
        self.purges = ""
        self.say(f"after_history_sync() -> {exc!r}, sent {len(sent)} ({failed} failed)")
        if failed:
            self.expect("C09", isinstance(exc, omemo.MessageSendingFailed), f"sending failed, but the result is {exc!r}")
            self.expect(
                tags, len(attempts) == len(sent) + failed, "the harness lost track of the messages sent"
            )
            sent = attempts
            self.hit("C09", "sync.send_failed")
        else:
            self.expect("C09", exc is None, f"after_history_sync raised {exc!r}")
        was_sync = self.sync
        self.sync = False
        self.ended_badly = failed > 0
        sessions_after, states_after = self.sessions(), self.states()
        due = {q for q, v in self.queue.items() if q[0] in self.loaded and q in sessions_before and v == "must"}
        maybe = {q for q, v in self.queue.items() if q[0] in self.loaded and q in sessions_before and v == "may"}
        got = {
            (m.namespace, e.bare_jid, e.device_id) for _, m in sent for e, _ in m.keys
        }
        self.check_empty(sent, due, sessions_after, tags, maybe)
        for q in list(self.queue):
            if q[0] in self.loaded:
                del self.queue[q]
        for key in set(sessions_before) | set(sessions_after):
            if key in got:
                want = dict(sessions_before[key])
                want["send_n"] += 1
                self.expect("C09 C05", sessions_after.get(key) == want, f"session {key} not persisted after replying")
            else:
                self.expect("C09 C05", sessions_before.get(key) == sessions_after.get(key), f"session {key} changed")
        for ns in self.loaded:
            if ns in states_before:
                self.expect(
                    "C09 C08", states_after[ns]["hidden"] == [],
                    f"{ns}: retained pre keys survive the end of catch-up"
                )
                self.expect(
                    "C09 C08", states_after[ns]["pks"] == states_before[ns]["pks"],
                    f"{ns}: offered pre keys changed at the end of catch-up"
                )
                if states_before[ns]["hidden"] and was_sync:
                    self.hit("C09", "sync.deletes_hidden")
        if due:
            self.hit("C09", f"sync.sends.{min(len(due), 3)}")
        if len({q[0] for q in due}) > 1:
            self.hit("C09", "sync.multi_backend")

    def interrupted_sync(self, at: int) -> None:
        """
        The end of the catch-up is interrupted by a failure of the storage, to be repeated. What was due remains due,
        except that what was sent already may or may not be sent again.
        """
        if not self.queue:
            return
        sessions_before = self.sessions()
        sent_before = len(self.app.sent)
        self.faults.arm({at % 64: "before" if at & 64 else "after"}, {"s.load", "s.store", "s.delete"})
        _, exc = self.call(self.manager.after_history_sync())
        fired = list(self.faults.fired)
        self.faults.disarm()
        sent = self.app.sent[sent_before:]
        self.say(f"after_history_sync() -> {exc!r}, sent {len(sent)}, failing: {fired}")
        self.expect(
            "C09", (exc is None) if not fired else isinstance(exc, omemo.StorageException),
            f"after_history_sync with failing storage ended with {exc!r}"
        )
        sessions_after = self.sessions()
        due = {q for q in self.queue if q[0] in self.loaded and q in sessions_before}
        self.check_empty(sent, set(), sessions_after, "C09", due)
        got = {(m.namespace, e.bare_jid, e.device_id) for _, m in sent for e, _ in m.keys}
        for key in set(sessions_before) | set(sessions_after):
            steps = [1] if key in got else [0, 1] if key in due else [0]
            self.expect(
                "C09 C05", sessions_after.get(key) in [{**sessions_before[key], "send_n": sessions_before[key]["send_n"] + n}
                                                       for n in steps],
                f"session {key} changed"
            )
        for q in got:
            self.queue[q] = "may"
        self.sync = False
        if fired:
            self.hit("C09", "sync.interrupted" + (".sent" if got else ""))
            if at & 128 or fired[0][2] == "after":  # a store that fails after taking effect leaves an outdated cache
                self.start(list(self.loaded), None, first=False)
        elif exc is None:
            self.queue = {q: v for q, v in self.queue.items() if q[0] not in self.loaded}

    def op_phase(self, j: int, n: int, first: int, second: int, flags: int, restart: int, *_: int) -> None:
        """One or two whole catch-up phases in which devices of one account start sessions."""
        for mask in (first, second):
            if not self.sync:
                self.step(["sync", 1])
            if mask & 64:
                self.step(["list", j, n, 0, 7, 0, 1])
            for d, bit in enumerate((1, 2, 64)):
                if mask & bit:
                    f = (flags | 3 if mask & 16 else flags) & ~32 | (32 if d == 2 else 0)
                    self.step(["exchange", j, d, n + (mask >> (2 + d % 2) & 1), f, 0, mask >> 5, 0])
            if restart % 8 == 1:
                self.step(["restart", 0, 1, 0])
            if restart % 8 == 2 and self.loaded:
                # the sessions are gone, what is due is not
                names = list(self.loaded)
                self.step(["purge_ns", NAMESPACES.index(names[n % len(names)]), 0])
                self.start(names, None, first=False)
                self.invariants("restart")
            if restart % 8 == 3:
                self.step(["purge_jid", 0 if JIDS[j % 3] == BOB2 else 1, 0])
            if restart % 8 == 4 and self.loaded:
                self.step(["forget", j, n])
                if mask & 4:  # not all of them come back
                    d = (mask >> 3) % 3
                    self.step(["exchange", j, d, n, flags & ~32 | 3 | (32 if d == 2 else 0), 0, 0, 0])
            if restart % 8 in (2, 4) and restart & 8:
                # other sessions with the same devices, which nothing is due for
                self.step(["trust", j, 0, 0])
                self.step(["trust", j, 1, 0])
                self.step(["flood", [4, 1, 2][j % 3], 0, 0, restart >> 4 & 3])
            if mask & 32:
                self.step(["sync", 0, restart >> 4, flags + second])

    def op_forget(self, j: int, n: int, *_: int) -> None:
        """The data a backend has about an account is purged through the backend, which is allowed at any time."""
        jid, ns = JIDS[j % 3], self.loaded[n % len(self.loaded)]
        self.h(self.backends[ns].purge_bare_jid(jid))
        self.say(f"backend {ns} forgets its sessions with {jid}")
        for q in self.queue:
            if q[:2] == (ns, jid):
                self.queue[q] = "may"

    def op_duel(self, j: int, d: int, lab: int, modes: int, modes2: int, fault: int, flags: int) -> None:
        """Sessions with one device in every loaded namespace, whose bundles then differ in what is wrong with them."""
        d %= 2
        for n, ns in enumerate(NAMESPACES):
            if ns in self.loaded:
                self.op_list(j, n, 0, 3, lab, 1)
                if (ns, JIDS[j % 3], self.devs(JIDS[j % 3])[d]) not in self.sessions():
                    self.op_exchange(j, d, n, flags | 3, 0, lab, 0)
        for n, ns in enumerate(NAMESPACES):
            if ns in self.loaded:
                self.op_bundle(j, d, n, [modes, modes2, modes >> 4][n])
        self.op_replace(j, d, fault)

    def op_replace(self, j: int, d: int, fault: int, *_: int) -> None:
        jid = JIDS[j % 3]
        dev = self.devs(jid)[d % 2]
        self.may_resolve(jid)
        rec = self.m_dev[jid].get(dev)
        if rec is None or (rec["ik"] is None and not self.resolvable(jid, dev)):
            return
        if rec["ik"] is None:
            self.call(self.manager.get_device_information(jid))
            self.may_resolve(jid)
            if rec["ik"] is None:
                self.must_resolve(jid)
                return
        info = next(i for i in self.peek(jid) if i.device_id == dev)
        if fault & 8:  # callers may hold outdated information
            info = info._replace(namespaces=frozenset(), active=frozenset(), label="old", trust_level_name="old")
        sessions_before, states_before = self.sessions(), self.states()
        sent_before = len(self.app.sent)
        usable = [ns for ns in self.loaded if ns in rec["ns"] and (ns, jid, dev) in sessions_before]

        # outcome per namespace: a send fault hits the k-th message actually attempted
        failures: Dict[str, Tuple[type, ...]] = {}
        for ns in usable:
            mode = self.modes.get((ns, jid, dev), "ok")
            kinds: Optional[Tuple[type, ...]] = {
                "notfound": (omemo.BundleNotFound,),
                "failed": (omemo.BundleDownloadFailed,),
                "badsig": (omemo.KeyExchangeFailed,),
                "nopk": (omemo.KeyExchangeFailed,)
            }.get(mode)
            if kinds is None and self.raw(jid, dev, mode == "evil").ik != rec["ik"]:
                kinds = (omemo.OMEMOException,)
            if kinds is not None:
                failures[ns] = kinds
        attempts: List[str] = []
        fail_all = fault % 3 == 1
        stored_early: List[str] = []

        def hook(message: omemo.Message, _to: str) -> None:
            attempts.append(message.namespace)
            if self.sessions().get((message.namespace, jid, dev)) != sessions_before[(message.namespace, jid, dev)]:
                stored_early.append(message.namespace)

        fail_first = fault % 3 == 2
        self.app.send_hook = hook
        if fail_all:
            self.faults.arm({i: "before" for i in range(9)}, {"n.send"})
        elif fail_first:
            self.faults.arm({0: "before"}, {"n.send"})
        result, exc = self.call(self.manager.replace_sessions(info))
        self.faults.disarm()
        self.app.send_hook = None
        sent = self.app.sent[sent_before:]
        self.say(
            f"replace_sessions({jid}/{dev}, send fault {['none', 'all', 'first'][fault % 3]}) -> {exc!r} {result!r}"
        )
        self.must_resolve(jid)
        self.expect("C11", exc is None, f"replace_sessions raised {exc!r}")
        self.expect(
            "C11", not stored_early, f"{stored_early}: session replaced before the other side was notified"
        )
        if fail_all:
            for ns in attempts:
                failures.setdefault(ns, (omemo.MessageSendingFailed,))
        elif fail_first and attempts:
            failures.setdefault(attempts[0], (omemo.MessageSendingFailed,))
        self.expect("C11", set(attempts) <= set(usable), f"notified through {attempts}, sessions only in {usable}")
        self.expect(
            "C11 C01" if any(k == (omemo.OMEMOException,) for k in failures.values()) else "C11",
            set(result) == set(failures), f"reported failures {sorted(result)}, expected {sorted(failures)}"
        )
        for ns, kinds in failures.items():
            self.expect("C11", isinstance(result[ns], kinds), f"{ns}: failure reported as {result[ns]!r}")
        sessions_after = self.sessions()
        self.expect("C11", self.states() == states_before, "session replacement changed own pre keys")
        replaced = [ns for ns in usable if ns not in failures]
        for key in set(sessions_before) | set(sessions_after):
            if key[1:] == (jid, dev) and key[0] in replaced:
                st = sessions_after.get(key)
                self.expect(
                    "C11", st is not None and st["sid"] != sessions_before[key]["sid"] and st["side"] == "A"
                    and not st["confirmed"] and st["send_n"] == 1 and peer_identity_key(st) == rec["ik"],
                    f"{key}: no fresh session after a successful replacement"
                )
            else:
                self.expect(
                    "C11", sessions_before.get(key) == sessions_after.get(key),
                    f"{key}: session changed although it was not (successfully) replaced"
                )
        got: Counter[str] = Counter()
        for to, message in sent:
            self.expect(
                "C11", to == jid and message.content.empty and len(message.keys) == 1
                and (message.bare_jid, message.device_id) == (OWN, self.own_dev),
                "odd notification message"
            )
            (ekm, kex), = message.keys
            st = sessions_after[(message.namespace, jid, dev)]
            self.expect("C11 C10", kex is not None, "the notification carries no key exchange data")
            self.expect(
                "C11", (ekm.bare_jid, ekm.device_id) == (jid, dev) and ekm.sid == st["sid"]
                and kex == SymSession(message.namespace, jid, dev, st).key_exchange,
                "the notification does not announce the new session"
            )
            got[message.namespace] += 1
            self.note_key_use(ekm)
            self.outbox.append((message, jid, dev))
        self.expect("C11", got == Counter(replaced), f"notified {sorted(got.items())}, expected once per {replaced}")
        if replaced:
            self.hit("C11", "replace.ok")
        if set(failures) & set(usable):
            self.hit("C11", "replace.failed")
        if replaced and failures:
            self.hit("C11", "replace.mixed")
        if not usable:
            self.events["replace.nothing"] += 1

    def op_chain(self, j: int, d: int, *_: int) -> None:
        jid = JIDS[j % 3]
        dev = self.devs(jid)[d % 2]
        info = next((i for i in self.peek(jid) if i.device_id == dev), None)
        if info is None:
            return
        sessions = self.sessions()
        result, exc = self.call(self.manager.get_sending_chain_length(info))
        self.say(f"get_sending_chain_length({jid}/{dev}) -> {exc!r} {result!r}")
        self.expect("C11", exc is None, f"get_sending_chain_length raised {exc!r}")
        want = {
            ns: sessions[(ns, jid, dev)]["send_n"] if (ns, jid, dev) in sessions else None
            for ns in self.loaded if ns in info.namespaces
        }
        self.expect("C11", result == want, f"sending chain lengths {result}, expected {want}")
        if any(v is not None for v in want.values()):
            self.hit("C11", "chain.some")

    # ------------------------------------------------------------------------------------------------------
    # operations: own device
    # ------------------------------------------------------------------------------------------------------

    def op_label(self, lab: int, *_: int) -> None:
        label = LABELS[lab % len(LABELS)]
        lists_before = copy.deepcopy(self.server.lists)
        _, exc = self.call(self.manager.set_own_label(label))
        self.say(f"set_own_label({label!r}) -> {exc!r}")
        self.expect("C07", exc is None, f"set_own_label raised {exc!r}")
        for ns in NAMESPACES:
            want = dict(lists_before.get((ns, OWN), {}))
            if ns in self.loaded:
                want[self.own_dev] = label
                self.list_drift.discard(ns)
            self.expect(
                "C07", self.server.lists.get((ns, OWN), {}) == want,
                f"{ns}: published list {self.server.lists.get((ns, OWN))}, expected {want}"
            )
        self.m_dev[OWN][self.own_dev]["label"] = label
        self.hit("C07", "label.set")

    def op_drift(self, what: int, n: int, x: int, *_: int) -> None:
        """Something else (another client, the server) changes our published data."""
        if not self.loaded:
            return
        ns = self.loaded[n % len(self.loaded)]
        kind = ["bundle_gone", "bundle_other", "list_no_own", "list_gone", "list_extra", "bundle_foreign"][what % 6]
        key = (ns, OWN, self.own_dev)
        lst = self.server.lists.get((ns, OWN), {})
        if kind == "bundle_gone":
            self.server.bundles.pop(key, None)
            self.bundle_drift.add(ns)
        elif kind == "bundle_other" and key in self.server.bundles:
            b = self.server.bundles[key]
            self.server.bundles[key] = b.replace(pks=b.pks - {min(b.pks, default=0)}) if x % 2 else \
                b.replace(spk=b.spk + 1000000)
            self.bundle_drift.add(ns)
        elif kind == "bundle_foreign" and key in self.server.bundles:
            self.server.bundles[key] = self.server.bundles[key].replace(_ik=self.raw(OWN, DEVICES[0]).ik)
            self.bundle_drift.add(ns)
        elif kind == "list_no_own":
            lst.pop(self.own_dev, None)
            self.list_drift.add(ns)
        elif kind == "list_gone":
            self.server.lists.pop((ns, OWN), None)
            self.list_drift.add(ns)
        elif kind == "list_extra":
            self.server.lists.setdefault((ns, OWN), {})[DEVICES[x % 3]] = LABELS[x % len(LABELS)]
            if self.own_dev not in self.server.lists[(ns, OWN)]:
                self.list_drift.add(ns)
        self.drifted = True
        self.say(f"published data drifts: {kind} in {ns}")

    def op_ensure(self, flaky: int, *_: int) -> None:
        lists_before = copy.deepcopy(self.server.lists)
        drift = bool(self.bundle_drift or self.list_drift)
        states = self.states()
        matching = [
            ns for ns in self.loaded if flaky % 3 != 2 and self.server.bundles.get((ns, OWN, self.own_dev)) == SymBundle(
                ns, OWN, self.own_dev, self.own_ik, states[ns]["spk"], frozenset(states[ns]["pks"])
            )
        ]
        log_mark = len(self.server.log)
        if flaky % 3 == 2:
            self.faults.arm({i: "before" for i in range(9)}, {"n.download_bundle"})
        _, exc = self.call(self.manager.ensure_data_consistency())
        self.faults.disarm()
        self.say(f"ensure_data_consistency() -> {exc!r}")
        self.expect("C18", exc is None, f"ensure_data_consistency raised {exc!r}")
        self.expect("C18 C08", self.states() == states, "ensure_data_consistency changed local key material")
        for event in self.server.log[log_mark:]:
            self.expect(
                "C18", not (event[0] == "upload_bundle" and event[1] in matching),
                f"{event[1]}: bundle uploaded although it was published already"
            )
            self.expect(
                "C18 C07",
                not (event[0] == "upload_list" and self.own_dev in lists_before.get((event[1], OWN), {})),
                f"{event[1]}: device list uploaded although it contained this device"
            )
            self.expect("C18", event[0] != "delete_bundle", "ensure_data_consistency deleted a bundle")
        own_labels = {self.m_dev[OWN][self.own_dev]["label"]} | {
            lists_before.get((ns, OWN), {}).get(self.own_dev) for ns in self.loaded
        }
        for ns in NAMESPACES:
            want = dict(lists_before.get((ns, OWN), {}))
            if ns in self.loaded and self.own_dev not in want:
                want[self.own_dev] = self.republished_label(ns, own_labels)
            self.expect(
                "C18 C07", self.server.lists.get((ns, OWN), {}) == want,
                f"{ns}: published list {self.server.lists.get((ns, OWN))}, expected {want}"
            )
            if ns in self.loaded:
                st = states[ns]
                local = SymBundle(ns, OWN, self.own_dev, self.own_ik, st["spk"], frozenset(st["pks"]))
                self.expect(
                    "C18", self.server.bundles.get((ns, OWN, self.own_dev)) == local,
                    f"{ns}: published bundle is not the local one after ensure_data_consistency"
                )
                self.list_drift.discard(ns)
                self.bundle_drift.discard(ns)
                self.model_update(OWN, ns, want)
        if drift:
            self.hit("C18", "ensure.repaired" + (".flaky" if flaky % 3 == 2 else ""))
        else:
            self.events["ensure.nothing"] += 1
        self.settle_labels(OWN, {ns: self.server.lists[(ns, OWN)] for ns in self.loaded})
        # the offline device list is brought up to date, too
        self.compare_own_after_ensure()

    def compare_own_after_ensure(self) -> None:
        by_id = {d.device_id: d for d in self.peek(OWN)}
        for dev, rec in self.m_dev[OWN].items():
            if rec["ik"] is not None:
                self.expect(
                    "C18", dev in by_id and by_id[dev].active == frozenset(rec["ns"].items())
                    and (by_id[dev].label == rec["label"] or by_id[dev].label in rec.get("alt", ())),
                    f"own device list not brought up to date for device {dev}"
                )

    def op_cycle(self, n: int, use: int, thr: int, *_: int) -> None:
        """A backend is left out of one start and comes back with the next, possibly with another threshold."""
        if len(self.loaded) < 2:
            return
        names = list(self.loaded)
        ns = names[n % len(names)]
        if use % 3:
            self.op_exchange(use, use >> 2, NAMESPACES.index(ns), 3, 0, use >> 4, 0)
            self.sent_mark = len(self.app.sent)
        self.start([other for other in names if other != ns], None, first=False)
        self.invariants("restart")
        self.log_mark = len(self.server.log)
        if thr % 2:
            self.threshold = THRESHOLDS[thr // 2 % len(THRESHOLDS)]
        self.start(names if thr & 64 else names[::-1], None, first=False)

    def op_restart(self, backends: int, change: int, thr: int, undecided: int = 0, *_: int) -> None:
        names = list(self.loaded) if change % 3 and self.loaded else self.pick_backends(backends)
        if thr % 4 == 3:
            self.threshold = THRESHOLDS[thr // 4 % len(THRESHOLDS)]
        if undecided % 4 == 3:
            self.undecided_name = UNDECIDED_NAMES[undecided // 4 % 2]
        self.start(names, LABELS[backends % len(LABELS)], first=False)

    def op_badcreate(self, kind: int, n: int, *_: int) -> None:
        """Invalid parameters are refused before anything happens."""
        names = self.pick_backends(n)
        threshold = self.threshold
        if kind % 2:
            names = names + [names[n % len(names)]]
            what = f"duplicate backend in {names}"
        else:
            threshold = [24, 100, 0, -1, 1000, 23, 101][n % 7]
            what = f"threshold {threshold}"
        data, lists, bundles = dict(self.data), copy.deepcopy(self.server.lists), dict(self.server.bundles)
        storage = MemStorage(self.data, self.cache, self.faults)
        _, exc = self.call(make_manager_class(self.app).create(
            backends=list(self.make_backends(names, storage)), storage=storage, own_bare_jid=OWN,
            initial_own_label=None, undecided_trust_level_name=self.undecided_name,
            pre_key_refill_threshold=threshold
        ))
        self.say(f"create with {what} -> {exc!r}")
        self.expect("C12", isinstance(exc, ValueError), f"create with {what} ended with {exc!r}")
        self.expect(
            "C12", (self.data, self.server.lists, self.server.bundles) == (data, lists, bundles),
            f"create with {what} had effects"
        )
        self.hit("C12", "create.refused")

    # ------------------------------------------------------------------------------------------------------
    # operations: purging
    # ------------------------------------------------------------------------------------------------------

    def op_purge_ns(self, n: int, again: int = 0, *_: int) -> None:
        ns = NAMESPACES[n % 3]
        if self.loaded == [ns] and again % 4:
            return
        lists_before = copy.deepcopy(self.server.lists)
        bundles_before = dict(self.server.bundles)
        sessions_before, states_before = self.sessions(), self.states()
        was_loaded = ns in self.loaded
        _, exc = self.call(self.manager.purge_backend(ns))
        self.say(f"purge_backend({ns}) -> {exc!r}")
        self.expect("C14", exc is None, f"purge_backend raised {exc!r}")
        self.may_resolve(OWN)
        want_lists = copy.deepcopy(lists_before)
        if (ns, OWN) in want_lists:
            want_lists[(ns, OWN)].pop(self.own_dev, None)
        self.expect(
            "C14", {k: v for k, v in self.server.lists.items() if v} == {k: v for k, v in want_lists.items() if v},
            "published device lists are wrong after purging a backend"
        )
        bundles_before.pop((ns, OWN, self.own_dev), None)
        self.expect(
            "C14", self.server.bundles == bundles_before, "published bundles are wrong after purging a backend"
        )
        want_sessions = {k: v for k, v in sessions_before.items() if not (was_loaded and k[0] == ns)}
        want_states = {k: v for k, v in states_before.items() if not (was_loaded and k == ns)}
        self.expect("C14", self.sessions() == want_sessions, "stored sessions are wrong after purging a backend")
        self.expect("C14", self.states() == want_states, "stored key material is wrong after purging a backend")
        if was_loaded:
            self.loaded.remove(ns)
            self.app.loaded = set(self.loaded)
            self.hit("C14", "purge_ns.loaded")
            data = dict(self.data)
            for what, coro in (
                ("a device list", self.manager.update_device_list(ns, BOB, {})),
                ("an encryption", self.manager.encrypt(frozenset({OWN}), {ns: b""}, [ns]))
            ):
                _, exc = self.call(coro)
                self.expect(
                    "C14", isinstance(exc, omemo.UnknownNamespace),
                    f"{ns} was purged, but {what} for it is not refused: {exc!r}"
                )
            self.expect("C14", self.data == data, "refused operation changed something")
        else:
            self.hit("C14", "purge_ns.unloaded")
        self.m_dev[OWN][self.own_dev]["ns"].pop(ns, None)
        self.list_drift.discard(ns)
        self.bundle_drift.discard(ns)
        if "C14" not in self.purges:
            self.purges += " C14"
        if was_loaded:
            for q in list(self.queue):
                if q[0] == ns:
                    del self.queue[q]
                    self.events["purge_ns.queued"] += 1
        for jid in JIDS:
            own = {d.device_id: d for d in self.peek(jid)}
            for dev, rec in self.m_dev[jid].items():
                if rec["ik"] is not None:
                    self.expect(
                        "C14", dev in own and own[dev].active == frozenset(rec["ns"].items()),
                        f"{jid}/{dev}: device information wrong after purging a backend"
                    )
        if not self.loaded:
            # the last backend; of little use until the next start
            self.hit("C14", "purge_ns.last")
            self.invariants("purge_ns")
            self.log_mark = len(self.server.log)
            self.start(self.pick_backends(again >> 2), None, first=False)

    def op_purge_jid(self, j: int, relearn: int = 0, *_: int) -> None:
        jid = PEERS[j % 2]
        sessions_before, states_before = self.sessions(), self.states()
        lists_before, bundles_before = copy.deepcopy(self.server.lists), dict(self.server.bundles)
        _, exc = self.call(self.manager.purge_bare_jid(jid))
        self.say(f"purge_bare_jid({jid}) -> {exc!r}")
        self.expect("C15", exc is None, f"purge_bare_jid raised {exc!r}")
        had = bool(self.m_dev[jid])
        had_trust = False
        for rec in self.m_dev[jid].values():
            if rec["ik"] is not None and (jid, rec["ik"]) in self.m_trust:
                del self.m_trust[(jid, rec["ik"])]
                had_trust = True
        self.m_dev[jid] = {}
        stray = any(k[0] == jid for k in self.m_trust) or any(
            q[1] == jid and q[0] not in self.loaded for q in self.queue
        )
        if not stray:
            # nothing keeps track of the account any more, so nothing in storage may mention it
            mention = re.compile(re.escape(jid) + r"(?![.\w])")
            backend_keys = {f"/{ns}/{what}" for ns in NAMESPACES for what in ("sessions", "state")}
            left = sorted(
                k for k, v in self.data.items() if k not in backend_keys and mention.search(f"{k} {v}")
            )
            self.expect("C15", not left, f"storage still mentions the purged account {jid}: {left}")
            if had:
                self.hit("C15", "purge_jid.scan")
        want = {k: v for k, v in sessions_before.items() if not (k[1] == jid and k[0] in self.loaded)}
        self.expect("C15", self.sessions() == want, "stored sessions are wrong after purging an account")
        self.expect("C15", self.states() == states_before, "own key material changed by purging an account")
        self.expect(
            "C15", self.server.lists == lists_before and self.server.bundles == bundles_before,
            "published data changed by purging an account"
        )
        self.expect("C15", self.peek(jid) == frozenset(), "devices of the purged account are still known")
        for other in JIDS:
            infos = {d.device_id: d for d in self.peek(other)}
            for dev, rec in self.m_dev[other].items():
                if rec["ik"] is not None:
                    self.expect(
                        "C15", dev in infos and infos[dev].active == frozenset(rec["ns"].items())
                        and infos[dev].label == rec["label"] and infos[dev].identity_key == rec["ik"]
                        and self.trust_fits(infos[dev]),
                        f"{other}/{dev} damaged by purging {jid}"
                    )
        for q in list(self.queue):
            if q[1] == jid:
                if q[0] in self.loaded:
                    del self.queue[q]
                else:
                    self.queue[q] = "may"
        if "C15" not in self.purges:
            self.purges += " C15"
        if had:
            self.hit("C15", "purge_jid.devices" + (".trust" if had_trust else ""))
        if want != sessions_before:
            self.hit("C15", "purge_jid.sessions")
        if relearn % 3:
            # whatever is known about the same devices from now on is as if they had never been seen
            self.do_push(self.loaded[relearn % len(self.loaded)], jid, {d: None for d in DEVICES})
            infos, exc = self.call(self.manager.get_device_information(jid))
            self.expect("C15 C06", exc is None, f"get_device_information raised {exc!r}")
            self.must_resolve(jid)
            for info in infos:
                self.expect(
                    "C15", info.trust_level_name == self.trust_name(jid, info.identity_key) and info.label is None
                    and info.namespaces == {self.loaded[relearn % len(self.loaded)]},
                    f"{jid}/{info.device_id} is not like new after purging {jid}: {info}"
                )


def drive(coro: Any) -> Any:
    """Run a coroutine that never suspends."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    raise RuntimeError("coroutine suspended")
