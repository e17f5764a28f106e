"""C19 to C22: storage, Maybe, identity key pair, limits."""
from __future__ import annotations

import asyncio
import copy
import hashlib
import json
import secrets
from typing import Any, Callable, Dict, List, Optional, Tuple

from hypothesis import strategies as st

import omemo
from omemo.identity_key_pair import IdentityKeyPair, IdentityKeyPairPriv, IdentityKeyPairSeed

from ..runner import Check, Ctx, Part
from ..sym import DictKV, Ids, SymBackend
from ..world import Faults, MemStorage, deterministic_secrets, virtual_loop

# --------------------------------------------------------------------------------------------------------------
# values
# --------------------------------------------------------------------------------------------------------------

PRIMITIVES = st.one_of(
    st.none(), st.booleans(), st.integers(-2**63, 2**63), st.sampled_from([0, 1, -1, 0.0, 1.0, "", "0", "null"]),
    st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=6)
)
FLOOD = 700  # more keys than a cache of limited size would be expected to hold
LONG = "/bundle/" + "x" * 300 + "@" + "y" * 300 + "/"
KEYS = [
    "/devices/a@b/list", "/devices/a@b/list/", "", "/trust/ä", "/q",
    # pairs that are different strings, but alike
    "/trust/a\u0308", "/Q", " /q", "/q\0", LONG + "1", LONG + "2", "\ud800", "/devices/A@b/list"
]


def json_values(depth: int = 3) -> Any:
    return st.recursive(
        PRIMITIVES,
        lambda inner: st.one_of(st.lists(inner, max_size=3), st.dictionaries(st.text(max_size=3), inner, max_size=3)),
        max_leaves=6
    )


def same(a: Any, b: Any) -> bool:
    """Equality that tells True from 1 and 1 from 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return bool(a == b)


def scribble(value: Any) -> bool:
    """Change a container in place, as deep as possible."""
    if isinstance(value, list):
        if not any(scribble(v) for v in value):
            value.append("scribble")
        return True
    if isinstance(value, dict):
        if not any(scribble(v) for v in value.values()):
            value["scribble"] = 1
        return True
    return False


MISSING = object()


def as_result(maybe: Any, how: int = 0) -> Any:
    if maybe.is_nothing:
        return MISSING
    if how % 3 == 1:
        return maybe.maybe(MISSING)
    if how % 3 == 2:
        out = []
        maybe.fmap(out.append)
        return out[0]
    return maybe.from_just()


def alike(value: Any) -> Any:
    """Something of other types that compares equal, if possible."""
    if isinstance(value, list):
        return [alike(v) for v in value]
    if isinstance(value, dict):
        return {k: alike(v) for k, v in value.items()}
    if isinstance(value, bool):
        return int(value)
    if isinstance(value, int):
        return bool(value) if value in (0, 1) else float(value) if abs(value) < 2**50 else value
    if isinstance(value, float) and value.is_integer() and abs(value) < 2**50:
        return int(value)
    return value


# --------------------------------------------------------------------------------------------------------------
# C19 sequential
# --------------------------------------------------------------------------------------------------------------

def seq_strategy(tier: str) -> Any:
    key = st.integers(0, len(KEYS) - 1)
    fault = st.sampled_from([0, 0, 0, 1])
    op = st.one_of(
        st.tuples(st.just("store"), key, json_values(), fault),
        st.tuples(st.just("delete"), key, fault),
        st.tuples(st.just("load"), key, fault),
        st.tuples(st.just("bytes"), key, st.binary(max_size=5).map(list)),
        st.tuples(st.sampled_from(["scribble_in", "scribble_out"])),
        st.tuples(st.just("alike"), key),
        st.tuples(st.sampled_from(["reopen", "reopen", "flood"])),
    ).map(list)
    return st.fixed_dictionaries({
        "cache": st.booleans(),
        # whether all keys are loaded after each operation (which leaves nothing to be loaded to the cache)
        "lazy": st.booleans(), "ops": st.lists(op, min_size=1, max_size=24 if tier == "quick" else 60)
    })


def seq_run(case: Any, ctx: Ctx) -> None:
    data: Dict[str, str] = {}
    faults = Faults()
    ref: Dict[str, Any] = {}
    storage = MemStorage(data, case["cache"], faults)
    passed: List[Any] = []
    returned: List[Any] = []
    flooded = 0
    lazy = case.get("lazy", False)

    def check(storage: Any, key: str, i: int, op: Any) -> None:
        got = as_result(loop.run(storage.load(key)), i + len(returned))
        want = ref.get(key, MISSING)
        ctx.expect(same(got, want), f"after {op}: load({key!r}) gives {got!r}, stored is {want!r}")
        returned.append(got)

    with virtual_loop() as loop:
        for op in case["ops"]:
            name, args = op[0], op[1:]
            if name == "alike":
                if KEYS[args[0]] not in ref:
                    continue
                name, args = "store", [args[0], alike(ref[KEYS[args[0]]]), 0]
                ctx.note("stored something alike")
            ctx.say(repr(op))
            written = None
            fail = bool(args) and isinstance(args[-1], int) and args[-1] == 1 and name in ("store", "delete", "load")
            faults.arm({0: "before"} if fail else {})
            try:
                if name == "store":
                    key, value = KEYS[args[0]], copy.deepcopy(args[1])
                    passed.append(value)
                    written = (key, copy.deepcopy(value))
                    loop.run(storage.store(key, value))
                    ctx.expect(same(value, written[1]), "store modified the value it was given")
                elif name == "bytes":
                    key = KEYS[args[0]]
                    loop.run(storage.store_bytes(key, bytes(args[1])))
                    ref[key] = json.loads(data[key])
                    ctx.expect(
                        as_result(loop.run(storage.load_bytes(key))) == bytes(args[1]), "bytes do not come back"
                    )
                elif name == "delete":
                    written = (KEYS[args[0]], MISSING)
                    loop.run(storage.delete(KEYS[args[0]]))
                elif name == "load":
                    got = as_result(loop.run(storage.load(KEYS[args[0]])))
                    want = ref.get(KEYS[args[0]], MISSING)
                    ctx.expect(
                        same(got, want), f"load({KEYS[args[0]]!r}) gave {got!r}, stored was {want!r}"
                    )
                    returned.append(got)
                elif name == "scribble_in":
                    if any([scribble(v) for v in passed]):
                        ctx.hit("mutated passed value")
                elif name == "scribble_out":
                    if any([scribble(v) for v in returned]):
                        ctx.hit("mutated returned value")
                elif name == "flood":
                    flooded += 1
                    for i in range(FLOOD):
                        loop.run(storage.store(f"/flood/{i}", [i, flooded]))
                    ctx.note("flood")
                elif name == "reopen":
                    storage = MemStorage(data, case["cache"], faults)
                if written is not None:
                    ctx.expect(not faults.fired, f"{name} reports success although the storage failed")
                    if written[1] is MISSING:
                        ref.pop(written[0], None)
                        ctx.hit("deleted")
                    else:
                        ref[written[0]] = written[1]
            except omemo.StorageException as e:
                ctx.expect(bool(faults.fired), f"{name} failed although the storage did not: {e!r}")
                ctx.hit(f"failed {name}")
            faults.disarm()
            for i, key in enumerate(KEYS):
                raw = json.loads(data[key]) if key in data else MISSING
                want = ref.get(key, MISSING)
                ctx.expect(same(raw, want), f"after {op}: {key!r} is {raw!r} in the backing storage, not {want!r}")
                if not lazy:
                    check(storage, key, i, op)
            returned = returned[-12:]
        for i, key in enumerate(KEYS):
            check(storage, key, i, "everything")
        for i in range(FLOOD if flooded else 0):
            got = as_result(loop.run(storage.load(f"/flood/{i}")))
            ctx.expect(same(got, [i, flooded]), f"load('/flood/{i}') gives {got!r}, stored is {[i, flooded]}")


# --------------------------------------------------------------------------------------------------------------
# C19 interleaved
# --------------------------------------------------------------------------------------------------------------

class Gated(omemo.Storage):
    """Every access waits for a permission twice: before it takes effect and before it returns."""

    def __init__(self, cache: bool) -> None:
        super().__init__(disable_cache=not cache)
        self.data: Dict[str, str] = {}
        self.waiting: List[Tuple[Any, asyncio.Future[bool]]] = []
        self.free = False

    async def gate(self, what: Any) -> bool:
        if self.free:
            return True
        future: asyncio.Future[bool] = asyncio.get_running_loop().create_future()
        self.waiting.append((what, future))
        return await future

    async def _load(self, key: str) -> Any:
        if not await self.gate(("load", key)):
            raise omemo.StorageException("injected")
        result = omemo.Just(json.loads(self.data[key])) if key in self.data else omemo.Nothing()
        await self.gate(("loaded", key))
        return result

    async def _store(self, key: str, value: Any) -> None:
        text = json.dumps(value)
        if not await self.gate(("store", key)):
            raise omemo.StorageException("injected")
        self.data[key] = text
        await self.gate(("stored", key))

    async def _delete(self, key: str) -> None:
        if not await self.gate(("delete", key)):
            raise omemo.StorageException("injected")
        self.data.pop(key, None)
        await self.gate(("deleted", key))


def race_strategy(tier: str) -> Any:
    action = st.one_of(
        st.tuples(st.just("start"), st.sampled_from(["load", "load", "store", "delete"]), st.integers(0, 1)),
        st.tuples(st.just("go"), st.integers(0, 5), st.sampled_from([1, 1, 1, 1, 1, 0])),
        st.tuples(st.just("go"), st.integers(0, 5), st.just(1))
    ).map(list)
    return st.fixed_dictionaries({
        "cache": st.sampled_from([True, True, True, False]), "initial": st.sampled_from([3, 3, 1, 0]),
        "ops": st.lists(action, min_size=4, max_size=30 if tier == "quick" else 60)
    })


def race_run(case: Any, ctx: Ctx) -> None:
    """Single writer per key, any number of readers: the history of each key has to be that of an atomic register."""
    with virtual_loop() as loop:
        storage = Gated(case["cache"])
        clock = [0]
        history: List[Dict[str, Any]] = []
        keys = KEYS[:2]
        writes: Dict[str, int] = {}
        for i, key in enumerate(keys):
            if (case["initial"] >> i) & 1:  # stored in an earlier run
                storage.data[key] = json.dumps(["value", 1])
                writes[key] = 1
                history.append({"kind": "store", "key": key, "start": -2, "end": -1, "n": 1, "value": 1, "ok": True})

        def tick() -> int:
            clock[0] += 1
            return clock[0]

        async def perform(record: Dict[str, Any]) -> None:
            try:
                if record["kind"] == "load":
                    got = as_result(await storage.load(record["key"]))
                    record["value"] = None if got is MISSING else got[1]
                elif record["kind"] == "store":
                    await storage.store(record["key"], ["value", record["value"]])
                else:
                    await storage.delete(record["key"])
                record["ok"] = True
            except omemo.StorageException:
                record["ok"] = False
            record["end"] = tick()

        async def settle() -> None:
            for _ in range(8):
                await asyncio.sleep(0)

        async def main() -> None:
            tasks = []
            for op in case["ops"]:
                if op[0] == "start":
                    kind, key = op[1], keys[op[2] % 2]
                    if kind != "load" and any(
                        r["key"] == key and r["kind"] != "load" and "end" not in r for r in history
                    ):
                        continue  # one writer at a time per key
                    record = {"kind": kind, "key": key, "start": tick()}
                    if kind != "load":
                        writes[key] = writes.get(key, 0) + 1
                        record["n"] = writes[key]
                        record["value"] = writes[key] if kind == "store" else None
                    history.append(record)
                    tasks.append(asyncio.ensure_future(perform(record)))
                    if len([r for r in history if "end" not in r]) > 1:
                        ctx.note("overlap")
                elif storage.waiting:
                    what, future = storage.waiting.pop(op[1] % len(storage.waiting))
                    ctx.say(f"  proceed {what} {'ok' if op[2] else 'FAIL'}")
                    future.set_result(bool(op[2]))
                await settle()
                ctx.say(f"{op} -> {[(r['kind'], r['key'][-4:], r.get('value'), r['start'], r.get('end')) for r in history[-4:]]}")
            storage.free = True
            while storage.waiting:
                storage.waiting.pop(0)[1].set_result(True)
                await settle()
            await asyncio.gather(*tasks)
            for key in keys:
                record = {"kind": "load", "key": key, "start": tick()}
                history.append(record)
                await perform(record)

        loop.run(main())

        for key in keys:
            ws = [r for r in history if r["key"] == key and r["kind"] != "load" and r["ok"]]
            loads = [r for r in history if r["key"] == key and r["kind"] == "load" and r["ok"]]
            for load in loads:
                # indices into ws this load may have seen; -1: nothing written yet
                floor = max([i for i, w in enumerate(ws) if w["end"] < load["start"]], default=-1)
                for other in loads:
                    if other["end"] < load["start"]:
                        floor = max(floor, other["floor"])
                options = [
                    i for i in range(floor, len(ws))
                    if i == -1 or ws[i]["start"] < load["end"]
                ]
                seen = [i for i in options if (None if i == -1 else ws[i]["value"]) == load["value"]]
                ctx.expect(
                    bool(seen),
                    f"load of {key!r} during [{load['start']}, {load['end']}] returned value"
                    f" {load['value']}, writes were {[(w['kind'], w['value'], w['start'], w['end']) for w in ws]}"
                )
                load["floor"] = min(seen)
            if any(
                a is not b and a["start"] < b["end"] and b["start"] < a["end"]
                for a in loads for b in ws
            ):
                ctx.hit("load overlaps write" + (" (cache)" if case["cache"] else ""))


# --------------------------------------------------------------------------------------------------------------
# C20
# --------------------------------------------------------------------------------------------------------------

TYPES: Dict[str, Any] = {"none": type(None), "float": float, "int": int, "str": str, "bool": bool}


def typed_strategy(tier: str) -> Any:
    values = st.one_of(
        json_values(),
        *[st.lists(s, max_size=4) for s in (st.integers(), st.text(max_size=3), st.booleans(), st.floats(
            allow_nan=False, allow_infinity=False
        ))],
        *[st.dictionaries(st.text(max_size=3), s, max_size=4) for s in (st.integers(), st.booleans(), st.none())],
        st.lists(PRIMITIVES, min_size=1, max_size=3),
        st.dictionaries(st.text(max_size=3), PRIMITIVES, min_size=1, max_size=3)
    )
    return st.fixed_dictionaries({
        "cache": st.booleans(), "reopen": st.booleans(), "value": values, "key": st.text(max_size=8),
        "type": st.sampled_from(sorted(TYPES)), "bytes": st.binary(max_size=70).map(list),
        "delete": st.booleans(), "default": PRIMITIVES
    })


def fits(value: Any, primitive: Any) -> Optional[bool]:
    """None: a boolean where an integer is asked for; Python considers that an int, either answer is fine."""
    if primitive is int and type(value) is bool:
        return None
    return type(value) is primitive


def fits_all(values: List[Any], primitive: Any) -> Optional[bool]:
    each = [fits(v, primitive) for v in values]
    return False if False in each else (None if None in each else True)


def typed_run(case: Any, ctx: Ctx) -> None:
    key, primitive = case["key"], TYPES[case["type"]]
    value = copy.deepcopy(case["value"])
    with virtual_loop() as loop:
        data: Dict[str, str] = {}
        box = [MemStorage(data, case["cache"])]

        def storage() -> omemo.Storage:
            if case["reopen"]:
                box[0] = MemStorage(data, case["cache"])
            return box[0]

        def loaders(s: omemo.Storage) -> Dict[str, Callable[[], Any]]:
            return {
                "load": lambda: s.load(key),
                "load_primitive": lambda: s.load_primitive(key, primitive),
                "load_bytes": lambda: s.load_bytes(key),
                "load_optional": lambda: s.load_optional(key, primitive),
                "load_list": lambda: s.load_list(key, primitive),
                "load_dict": lambda: s.load_dict(key, primitive)
            }

        def absent(when: str) -> None:
            for name, loader in loaders(storage()).items():
                maybe = loop.run(loader())
                ctx.expect(
                    maybe.is_nothing is True and maybe.is_just is False, f"{name} of a missing key ({when}): {maybe}"
                )
                default: List[Any] = [case["default"]]
                ctx.expect(maybe.maybe(default) is default, "maybe() of an absent value does not return the default")
                try:
                    got = maybe.from_just()
                except omemo.NothingException:
                    pass
                else:
                    ctx.expect(False, f"from_just of an absent value returned {got!r}")
                calls: List[Any] = []
                mapped = maybe.fmap(calls.append)
                ctx.expect(mapped.is_nothing and not calls, "fmap invents a value")

        absent("never stored")
        loop.run(storage().store(key, value))
        expected: Dict[str, Optional[bool]] = {
            "load": True,
            "load_primitive": fits(value, primitive),
            "load_optional": True if value is None else fits(value, primitive),
            "load_list": fits_all(value, primitive) if isinstance(value, list) else False,
            "load_dict": fits_all(list(value.values()), primitive) if isinstance(value, dict) else False
        }
        if not isinstance(value, str):
            expected["load_bytes"] = False
        for name, want in expected.items():
            try:
                maybe = loop.run(loaders(storage())[name]())
                ctx.expect(maybe.is_just is True and maybe.is_nothing is False, f"{name}: stored value is absent")
                got = maybe.from_just()
            except TypeError as e:
                ctx.expect(want is not True, f"{name}({case['type']}) refuses {value!r}: {e}")
                ctx.hit(f"refused.{name}")
                continue
            ctx.expect(want is not False, f"{name}({case['type']}) returns {got!r}, which is of another type")
            ctx.expect(same(got, value), f"{name}({case['type']}) returns {got!r} instead of {value!r}")
            ctx.expect(same(maybe.maybe("default"), value), f"{name}: maybe() returns something else than from_just()")
            if name != "load":
                ctx.hit(f"accepted.{name}")
            if scribble(got):
                ctx.expect(same(maybe.from_just(), case["value"]), f"{name}: Maybe shares its value with the caller")
                scribble(maybe.maybe(None))
                maybe.fmap(scribble)
                ctx.expect(same(maybe.from_just(), case["value"]), f"{name}: Maybe shares its value with the caller")
                again = as_result(loop.run(loaders(storage())[name]()))
                ctx.expect(same(again, case["value"]), f"{name}: returned value is shared with the storage")
        raw = bytes(case["bytes"])
        loop.run(storage().store_bytes(key, raw))
        got = as_result(loop.run(storage().load_bytes(key)))
        ctx.expect(got == raw and type(got) is bytes, f"bytes {raw!r} come back as {got!r}")
        if case["delete"]:
            loop.run(storage().delete(key))
            absent("deleted")

        just = omemo.Just(value)
        scribble(value)
        ctx.expect(same(just.from_just(), case["value"]), "Just shares its value with its creator")
        mapped = just.fmap(lambda v: [v])
        ctx.expect(same(mapped.from_just(), [case["value"]]), "fmap does not map the value")


# --------------------------------------------------------------------------------------------------------------
# C21
# --------------------------------------------------------------------------------------------------------------

P = 2**255 - 19
D = (-121665 * pow(121666, P - 2, P)) % P
BY = 4 * pow(5, P - 2, P) % P


def recover_x(y: int, sign: int) -> int:
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * pow(2, (P - 1) // 4, P) % P
    assert (x * x - x2) % P == 0
    return P - x if x & 1 != sign else x


BASE = (recover_x(BY, 0), BY)


def multiply(n: int, point: Tuple[int, int]) -> Tuple[int, int]:
    """Extended homogeneous coordinates (RFC 8032, 5.1.4)."""
    Point = Tuple[int, int, int, int]

    def add(a: Point, b: Point) -> Point:
        aa, bb = (a[1] - a[0]) * (b[1] - b[0]) % P, (a[1] + a[0]) * (b[1] + b[0]) % P
        cc, dd = 2 * a[3] * b[3] * D % P, 2 * a[2] * b[2] % P
        e, f, g, h = bb - aa, dd - cc, dd + cc, bb + aa
        return e * f % P, g * h % P, f * g % P, e * h % P

    result: Point = (0, 1, 1, 0)
    step: Point = (point[0], point[1], 1, point[0] * point[1] % P)
    while n:
        if n & 1:
            result = add(result, step)
        step = add(step, step)
        n >>= 1
    inverse = pow(result[2], P - 2, P)
    return result[0] * inverse % P, result[1] * inverse % P


def ed25519_public(scalar: int) -> bytes:
    x, y = multiply(scalar, BASE)
    return (y | (x & 1) << 255).to_bytes(32, "little")


def clamp(b: bytes) -> int:
    n = int.from_bytes(b[:32], "little")
    return (n & ~7 & ((1 << 255) - 1)) | (1 << 254)


def curve25519_form(ed: bytes) -> bytes:
    y = int.from_bytes(ed, "little") & ((1 << 255) - 1)
    return ((1 + y) * pow(1 - y, P - 2, P) % P).to_bytes(32, "little")


def ikp_strategy(tier: str) -> Any:
    step = st.tuples(
        st.sampled_from(["get", "get", "reopen"]), st.integers(0, 7), st.sampled_from(["before", "after"]),
        st.booleans()
    ).map(list)
    return st.fixed_dictionaries({
        "seed": st.integers(0, 2**32), "cache": st.booleans(),
        "preset": st.sampled_from(["none", "none", "seed", "priv"]),
        "key": st.one_of(st.binary(min_size=32, max_size=32), st.sampled_from([b"\0" * 32, b"\xff" * 32])).map(list),
        "ops": st.lists(step, min_size=1, max_size=8)
    })


def describe(pair: IdentityKeyPair) -> Tuple[Any, ...]:
    return pair.is_seed, pair.is_priv, bytes(pair.identity_key), bytes(
        pair.seed if isinstance(pair, IdentityKeyPairSeed) else pair.priv  # type: ignore[attr-defined]
    )


def ikp_run(case: Any, ctx: Ctx) -> None:
    key = bytes(case["key"])
    faults = Faults()
    with virtual_loop() as loop, deterministic_secrets(case["seed"]):
        data: Dict[str, str] = {}
        storage = MemStorage(data, case["cache"], faults)
        known: Optional[Tuple[Any, ...]] = None
        if case["preset"] == "priv":
            key = clamp(key).to_bytes(32, "little")
        if case["preset"] != "none":
            loop.run(storage.store("/ikp/is_seed", case["preset"] == "seed"))
            loop.run(storage.store_bytes("/ikp/key", key))
        for i, (name, index, mode, arm) in enumerate(case["ops"] + [["get", 0, "before", False]]):
            if name == "reopen":
                storage = MemStorage(data, case["cache"], faults)
                continue
            faults.arm({index: mode} if arm else {})
            try:
                pair = loop.run(IdentityKeyPair.get(storage))
            except Exception as e:  # pylint: disable=broad-except
                fired = list(faults.fired)
                faults.disarm()
                ctx.expect(
                    isinstance(e, omemo.StorageException) and bool(fired), f"loading the key pair failed: {e!r}"
                )
                ctx.say(f"get -> {e!r}")
                ctx.hit(f"fault.{fired[0][1]}.{mode}")
                if fired[0][2] == "after":
                    # the storage now holds something its cache does not know of: that process is done
                    storage = MemStorage(data, case["cache"], faults)
                continue
            faults.disarm()
            now = describe(pair)
            ctx.say(f"get -> seed={now[0]} {now[2].hex()[:8]}")
            ctx.expect(known is None or now == known, "the identity key pair changed")
            if known is not None:
                ctx.hit("same again")
            if known is None and case["preset"] != "none":
                ctx.expect(
                    now[0] is (case["preset"] == "seed") and now[3] == key, "stored key pair was not used"
                )
                ctx.hit("preset." + case["preset"])
            elif known is None:
                ctx.expect(now[0] is True and len(now[3]) == 32, "a new key pair is expected to be a seed")
            if known is None:
                check_pair(pair, ctx)
                fingerprint(now[2], ctx)
            known = now
        other = loop.run(IdentityKeyPair.get(MemStorage({}, case["cache"])))
        ctx.expect(known is not None and other.identity_key != known[2], "two storages got the same key pair")


def check_pair(pair: IdentityKeyPair, ctx: Ctx) -> None:
    ctx.expect(pair.is_seed is not pair.is_priv, "both or neither seed and private key")
    ctx.expect(pair.is_seed is isinstance(pair, IdentityKeyPairSeed), "is_seed does not tell the kind")
    if isinstance(pair, IdentityKeyPairSeed):
        scalar = clamp(hashlib.sha512(pair.seed).digest())
    else:
        assert isinstance(pair, IdentityKeyPairPriv)
        scalar = clamp(pair.priv)
    ctx.expect(
        pair.identity_key == ed25519_public(scalar), "the identity key does not belong to the private key"
    )
    private = pair.as_priv()
    ctx.expect(
        private.is_priv and not private.is_seed and clamp(private.priv) == scalar,
        "conversion changed the private key"
    )
    ctx.expect(private.identity_key == pair.identity_key, "conversion changed the public key")


def fingerprint(identity_key: bytes, ctx: Ctx) -> None:
    groups = omemo.SessionManager.format_identity_key(identity_key)
    ctx.expect(
        isinstance(groups, list) and len(groups) == 8
        and all(len(g) == 8 and set(g) <= set("0123456789abcdef") for g in groups),
        f"fingerprint {groups} is not eight groups of eight lowercase hex digits"
    )
    ctx.expect(
        bytes.fromhex("".join(groups)) == curve25519_form(identity_key),
        "fingerprint is not the Curve25519 form of the identity key"
    )


def pair_strategy(tier: str) -> Any:
    return st.fixed_dictionaries({
        "seed": st.integers(0, 2**32), "kind": st.booleans(),
        "key": st.binary(min_size=32, max_size=32).map(list)
    })


def pair_run(case: Any, ctx: Ctx) -> None:
    """Key pairs constructed directly."""
    key = bytes(case["key"])
    pair: IdentityKeyPair
    pair = IdentityKeyPairSeed(key) if case["kind"] else IdentityKeyPairPriv(clamp(key).to_bytes(32, "little"))
    check_pair(pair, ctx)
    fingerprint(pair.identity_key, ctx)
    ctx.hit("seed" if case["kind"] else "priv")


# --------------------------------------------------------------------------------------------------------------
# C22
# --------------------------------------------------------------------------------------------------------------

class Limited(SymBackend):
    """Hands the limits to the base class the way a backend implementation does."""

    def __init__(self, *args: Any, **kwargs: Any) -> None:  # pylint: disable=super-init-not-called
        omemo.Backend.__init__(self, *args, **kwargs)


def limits_strategy(tier: str) -> Any:
    small = st.integers(-3, 12)
    edge = st.sampled_from([0, 1, 2, 999, 1000, 1001, 2**31, -1])
    number = st.one_of(small, edge, st.integers(-2**40, 2**40))
    near = number.flatmap(lambda n: st.tuples(st.just(n), st.integers(n - 2, n + 2)))
    return st.one_of(
        near.map(list), st.tuples(number, st.one_of(st.none(), number)).map(list), number.map(lambda m: ["default", m])
    ).map(lambda p: {"session": p[0], "message": p[1]})


def limits_run(case: Any, ctx: Ctx) -> None:
    session, message = case["session"], case["message"]
    kwargs: Dict[str, Any] = {}
    if session != "default":
        kwargs["max_num_per_session_skipped_keys"] = session
    else:
        session = 1000
    if message is not None:
        kwargs["max_num_per_message_skipped_keys"] = message
    valid = session >= 0 and (
        message is None or 1 <= message <= session or (session == 0 and message == 0)
    )
    try:
        backend = Limited(**kwargs)
    except ValueError:
        ctx.expect(not valid, f"limits {kwargs} refused")
        ctx.hit("refused")
        return
    ctx.expect(valid, f"limits {kwargs} accepted")
    ctx.expect(
        backend.max_num_per_session_skipped_keys == session
        and backend.max_num_per_message_skipped_keys == (session if message is None else message),
        f"limits {kwargs} reported as {backend.max_num_per_session_skipped_keys} per session,"
        f" {backend.max_num_per_message_skipped_keys} per message"
    )
    ctx.hit("accepted")


def check(prop: str) -> Check:
    if prop == "C19":
        return Check(
            prop,
            [
                Part("sequential", seq_strategy, seq_run, 8000, 60000),
                Part("interleaved", race_strategy, race_run, 12000, 80000)
            ],
            "case = sequence of storage operations with failures and in-place modification of passed and returned"
            " values, compared with a dictionary (sequential), or a schedule of overlapping operations on a storage"
            " whose accesses are released one by one, checked as an atomic register per key (interleaved);"
            " non-trivial if something failed, was deleted, was modified in place, or a load overlapped a write"
        )
    if prop == "C20":
        return Check(
            prop, [Part("typed", typed_strategy, typed_run, 12000, 120000)],
            "case = JSON value, type asked for, storage configuration; every loader is compared with the type of the"
            " value; non-trivial if a typed loader accepted or refused a stored value"
        )
    if prop == "C21":
        return Check(
            prop,
            [
                Part("pair", pair_strategy, pair_run, 5000, 40000),
                Part("storage", ikp_strategy, ikp_run, 8000, 60000)
            ],
            "case = key material, or a sequence of loads with storage failures; oracle: a separate implementation of"
            " the curve arithmetic, and equality of all loads; non-trivial if a key pair was checked, was loaded"
            " again, or the storage failed"
        )
    assert prop == "C22"
    return Check(
        prop, [Part("limits", limits_strategy, limits_run, 12000, 60000)],
        "case = pair of limits; non-trivial: all"
    )
