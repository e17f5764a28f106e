"""
C28: a restart goes unnoticed, and so does the storage cache.

The same generated history is run twice, with and without restarts in between, and with and without cache. Everything
that can be observed has to be the same.
"""
from __future__ import annotations

import re
from typing import Any, Dict, List, Optional

from hypothesis import strategies as st

from ..machine import JIDS, OWN
from ..runner import Check, Ctx, Part
from ..sym import SymBundle
from ..world import Abandon, deterministic_secrets, virtual_loop
from .chaos import Chaos
from .machine_checks import expand

OPS = "list*5 refresh encrypt*6 exchange*6 talk*5 sync*3 label*2 ensure purge_jid replace*2 trust*3 mode"


class Told(Chaos):
    """Writes down whatever can be observed. Names (key ids) that depend on the order of sets are left out."""

    def __init__(self, case: Any, ctx: Ctx, cache: bool, restarts: bool) -> None:
        super().__init__(case, ctx)
        self.with_cache, self.with_restarts = cache, restarts
        self.seen: List[Any] = []
        self.live = False
        self.last: Any = None
        self.restarted = 0

    def say(self, text: str) -> None:
        if self.with_restarts:
            super().say(text)

    def call(self, coro: Any) -> Any:
        result, exc = super().call(coro)
        self.last = result
        return result, exc

    def go(self) -> None:
        cfg = self.case["cfg"]
        with virtual_loop() as loop, deterministic_secrets(cfg[0]):
            self.loop = loop
            self.prepare(cfg)
            for i, (name, restart, look, *args) in enumerate(self.case["ops"]):
                if restart % 3 == 0:
                    self.restart()
                if name == "mode" and args[3] % 4 == 0:
                    args[3] += 1  # which of several identity keys gets known depends on the order of sets
                self.one(name, 255, 0, args)
                if name == "sync":
                    self.live = args[0] % 3 != 1
                self.seen.append((i, name, self.look(look & 1 > 0)))
            self.restart()
            _, exc = self.call(self.manager.after_history_sync())
            self.after("end", [], exc)
            self.seen.append((len(self.case["ops"]), "end", self.look(True)))

    def prepare(self, cfg: List[int]) -> None:
        super().prepare([cfg[0], int(self.with_cache), *cfg[2:]])

    def restart(self) -> None:
        if not self.with_restarts:
            # starting includes looking at the devices of the own account
            _, exc = self.call(self.manager.get_own_device_information())
            if exc is not None:
                raise Abandon(f"get_own_device_information: {exc!r}")
            return
        self.restarted += 1
        self.boot(list(self.loaded), 255, 0)
        if self.live:
            _, exc = self.call(self.manager.after_history_sync())
            if exc is not None:
                raise Abandon(f"after_history_sync after a restart: {exc!r}")

    def after(self, name: str, args: List[int], exc: Optional[BaseException]) -> None:
        value: Any = None
        if exc is None and name == "encrypt":
            value = sorted((e.namespace, e.bare_jid, e.device_id, type(e.exception).__name__) for e in self.last[1])
        elif exc is None and name == "decrypt":
            value = (re.sub(r"\d", "", repr(self.last[0])), tuple(self.last[1])[2:])
        elif exc is None and name == "replace":
            value = sorted((ns, type(e).__name__) for ns, e in self.last.items())
        sent = sorted(
            (m.namespace, m.content.empty, jid, e.bare_jid, e.device_id, kex is not None)
            for jid, m in self.app.sent[self.sent_seen:] for e, kex in m.keys
        )
        self.seen.append((name, args, type(exc).__name__, value, sent))
        super().after(name, args, exc)

    def left(self, message: Any) -> None:
        self.seen.append(sorted(
            (message.namespace, message.content.empty, e.bare_jid, e.device_id, e.n, e.epoch, kex is not None)
            for e, kex in message.keys
        ))
        super().left(message)

    def look(self, closely: bool) -> Dict[str, Any]:
        states = self.states()
        out: Dict[str, Any] = {
            "lists": {f"{ns} {jid}": dict(sorted(lst.items())) for (ns, jid), lst in sorted(self.server.lists.items())},
            "sessions": {
                who: (st["side"], st["confirmed"], st["send_n"], st["recv_n"], st["epoch"])
                for who, st in sorted(self.sessions().items())
            },
            "pre keys": {
                ns: (
                    len(s["pks"]), len(s["hidden"]),
                    self.server.bundles.get((ns, OWN, self.own_dev)) == SymBundle(
                        ns, OWN, self.own_dev, self.own_ik, s["spk"], frozenset(s["pks"])
                    )
                ) for ns, s in sorted(states.items())
            },
            "bundles": sorted(self.server.bundles)
        }
        if closely:
            for jid in JIDS:
                infos, exc = self.call(self.manager.get_device_information(jid))
                out[f"devices of {jid}"] = type(exc).__name__ if exc is not None else sorted((
                    (
                        d.device_id, sorted(d.namespaces), sorted(d.active), repr(d.label), d.identity_key.hex(),
                        d.trust_level_name
                    ) for d in infos
                ))
        return out


def run(case: Any, ctx: Ctx) -> None:
    cfg = case["cfg"]
    plain, other = Told(case, ctx, bool(cfg[1] & 1), False), Told(case, ctx, bool(cfg[1] & 2), True)
    plain.go()
    other.go()
    what = f"{other.restarted} restarts, caching {plain.with_cache} and {other.with_cache}"
    ctx.hit("restarts" if other.restarted > 1 else "one restart")
    ctx.note(f"cache {plain.with_cache} {other.with_cache}")
    for i, (a, b) in enumerate(zip(plain.seen, other.seen)):
        if a == b:
            continue
        if isinstance(a, tuple) and isinstance(a[-1], dict) and isinstance(b, tuple) and isinstance(b[-1], dict):
            diff = {k: (a[-1].get(k), b[-1].get(k)) for k in {*a[-1], *b[-1]} if a[-1].get(k) != b[-1].get(k)}
            ctx.expect(False, f"{what}: after {a[:2]}, without and with restarts: {diff}")
        ctx.expect(False, f"{what}: without restarts {a}, with restarts {b}")
    ctx.expect(len(plain.seen) == len(other.seen), f"{what}: {len(plain.seen)} and {len(other.seen)} observations")


def strategy(tier: str) -> Any:
    op = st.tuples(st.sampled_from(expand(OPS)), st.binary(min_size=8, max_size=8)).map(lambda t: [t[0], *t[1]])
    sizes = {"quick": [6, 14, 14, 30], "thorough": [6, 14, 30, 60]}[tier]
    ops = st.sampled_from(sizes).flatmap(lambda n: st.lists(op, min_size=n // 2, max_size=n))
    return st.builds(lambda cfg, ops: {"cfg": list(cfg), "ops": ops}, st.binary(min_size=4, max_size=4), ops)


def check(prop: str) -> Check:
    return Check(
        prop,
        [Part("restarts", strategy, run, 4000, 60000)],
        "case = generated history, run with and without restarts in between and with or without storage cache; all"
        " results, messages, sessions, pre keys and published data compared after every operation; non-trivial with"
        " at least two restarts",
        bounds="up to 30 operations (60 thorough), a restart before every third one on average"
    )
