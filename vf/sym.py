"""
A symbolic OMEMO backend: implements omemo.Backend to the letter of its documentation, but with transparent
"cryptography", so that the harness can read off who can open what.

Sessions are identified by a sid that names both identity keys and all keys used in the key exchange; key
material encrypted with a session is readable exactly by the holder of the other half of that session. The
ratchet is a symbolic Double Ratchet: per-direction epochs, message counters, skipped message keys, replays
rejected. All state lives in two JSON documents per backend ("/<ns>/state" and "/<ns>/sessions") in a key-value
store, which is either the omemo.Storage given to the session manager or a plain dictionary.
"""
from __future__ import annotations

import base64
import copy
import json
from typing import Any, Awaitable, Callable, Dict, FrozenSet, Optional, Tuple

from . import bootstrap  # noqa: F401

import omemo
from omemo.backend import Backend, DecryptionFailed, KeyExchangeFailed, TooManySkippedMessageKeys
from omemo.bundle import Bundle
from omemo.identity_key_pair import IdentityKeyPair
from omemo.message import Content, EncryptedKeyMaterial, KeyExchange, PlainKeyMaterial
from omemo.session import Initiation, Session


class Ids:
    """Source of unique names, one per generated case."""

    def __init__(self) -> None:
        self.n = 0

    def __call__(self) -> int:
        self.n += 1
        return self.n


class DictKV:
    """Plain key-value store, independent of the code under test."""

    def __init__(self, data: Optional[Dict[str, str]] = None) -> None:
        self.data: Dict[str, str] = {} if data is None else data

    async def get(self, key: str) -> Any:
        text = self.data.get(key)
        return None if text is None else json.loads(text)

    async def put(self, key: str, value: Any) -> None:
        self.data[key] = json.dumps(value)

    async def remove(self, key: str) -> None:
        self.data.pop(key, None)


class StorageKV:
    """The storage handed to the session manager."""

    def __init__(self, storage: omemo.Storage) -> None:
        self.storage = storage

    async def get(self, key: str) -> Any:
        return (await self.storage.load(key)).maybe(None)

    async def put(self, key: str, value: Any) -> None:
        await self.storage.store(key, value)

    async def remove(self, key: str) -> None:
        await self.storage.delete(key)


class SymContent(Content):
    def __init__(self, keyid: Optional[int], body: bytes) -> None:
        self.keyid = keyid
        self.body = body

    @property
    def empty(self) -> bool:
        return self.keyid is None

    def _key(self) -> Any:
        return ("content", self.keyid, self.body)

    def __eq__(self, other: object) -> bool:
        return isinstance(other, SymContent) and other._key() == self._key()

    def __hash__(self) -> int:
        return hash(self._key())


class SymPlain(PlainKeyMaterial):
    def __init__(self, keyid: Optional[int]) -> None:
        self.keyid = keyid

    def __eq__(self, other: object) -> bool:
        return isinstance(other, SymPlain) and other.keyid == self.keyid

    def __hash__(self) -> int:
        return hash(("plain", self.keyid))


class SymEKM(EncryptedKeyMaterial):
    def __init__(
        self, bare_jid: str, device_id: int, sid: str, side: str, epoch: int, n: int, pn: int,
        keyid: Optional[int], tampered: bool = False, ratchet: Optional[int] = None
    ) -> None:
        self._jid = bare_jid
        self._dev = device_id
        self.sid = sid
        self.side = side
        self.epoch = epoch
        self.n = n
        self.pn = pn
        self.keyid = keyid
        self.tampered = tampered
        self.ratchet = ratchet  # names the ratchet key pair, where the backend has unique_ratchets

    @property
    def bare_jid(self) -> str:
        return self._jid

    @property
    def device_id(self) -> int:
        return self._dev

    def replace(self, **kw: Any) -> "SymEKM":
        new = copy.copy(self)
        for k, v in kw.items():
            assert hasattr(new, k)
            setattr(new, k, v)
        return new

    def _key(self) -> Any:
        return (
            "ekm", self._jid, self._dev, self.sid, self.side, self.epoch, self.n, self.pn, self.keyid,
            self.tampered
        )

    def __eq__(self, other: object) -> bool:
        return isinstance(other, SymEKM) and other._key() == self._key()

    def __hash__(self) -> int:
        return hash(self._key())


class SymKex(KeyExchange):
    def __init__(self, ik: bytes, ek: int, spk: int, pk: int) -> None:
        self.ik = ik
        self.ek = ek
        self.spk = spk
        self.pk = pk

    @property
    def identity_key(self) -> bytes:
        return self.ik

    def builds_same_session(self, other: KeyExchange) -> bool:
        return isinstance(other, SymKex) and other._key() == self._key()

    def _key(self) -> Any:
        return ("kex", self.ik, self.ek, self.spk, self.pk)

    def __eq__(self, other: object) -> bool:
        return isinstance(other, SymKex) and other._key() == self._key()

    def __hash__(self) -> int:
        return hash(self._key())


class SymBundle(Bundle):
    def __init__(
        self, ns: str, jid: str, dev: int, ik: bytes, spk: int, pks: FrozenSet[int], sig_ok: bool = True
    ) -> None:
        self._ns, self._jid, self._dev, self._ik = ns, jid, dev, ik
        self.spk = spk
        self.pks = frozenset(pks)
        self.sig_ok = sig_ok

    @property
    def namespace(self) -> str:
        return self._ns

    @property
    def bare_jid(self) -> str:
        return self._jid

    @property
    def device_id(self) -> int:
        return self._dev

    @property
    def identity_key(self) -> bytes:
        return self._ik

    def replace(self, **kw: Any) -> "SymBundle":
        new = copy.copy(self)
        for k, v in kw.items():
            assert hasattr(new, k)
            setattr(new, k, v)
        return new

    def _key(self) -> Any:
        return ("bundle", self._ns, self._jid, self._dev, self._ik, self.spk, self.pks, self.sig_ok)

    def __eq__(self, other: object) -> bool:
        return isinstance(other, SymBundle) and other._key() == self._key()

    def __hash__(self) -> int:
        return hash(self._key())


def b64(value: bytes) -> str:
    return base64.b64encode(value).decode("ASCII")


def unb64(value: str) -> bytes:
    return base64.b64decode(value)


def make_sid(ik_active: bytes, ek: int, ik_passive: bytes, spk: int, pk: int) -> str:
    return "|".join([b64(ik_active), str(ek), b64(ik_passive), str(spk), str(pk)])


def sid_identity_keys(sid: str) -> Tuple[bytes, bytes]:
    """(identity key of the active side, identity key of the passive side)"""
    parts = sid.split("|")
    return unb64(parts[0]), unb64(parts[2])


class SymSession(Session):
    """st: plain JSON dictionary holding the whole state of the session."""

    def __init__(self, ns: str, jid: str, dev: int, st: Dict[str, Any]) -> None:
        self._ns, self._jid, self._dev = ns, jid, dev
        self.st = st

    @property
    def namespace(self) -> str:
        return self._ns

    @property
    def bare_jid(self) -> str:
        return self._jid

    @property
    def device_id(self) -> int:
        return self._dev

    @property
    def initiation(self) -> Initiation:
        return Initiation.ACTIVE if self.st["side"] == "A" else Initiation.PASSIVE

    @property
    def confirmed(self) -> bool:
        return bool(self.st["confirmed"])

    @property
    def key_exchange(self) -> SymKex:
        ik, ek, spk, pk = self.st["kex"]
        return SymKex(unb64(ik), ek, spk, pk)

    @property
    def receiving_chain_length(self) -> Optional[int]:
        return self.st["recv_n"]  # type: ignore[no-any-return]

    @property
    def sending_chain_length(self) -> int:
        return self.st["send_n"]  # type: ignore[no-any-return]


def peer_identity_key(st: Dict[str, Any]) -> bytes:
    active, passive = sid_identity_keys(st["sid"])
    return passive if st["side"] == "A" else active


class SymBackend(Backend):
    def __init__(
        self,
        ns: str,
        kv: Any,
        ids: Ids,
        clock: Callable[[], float],
        ik: Optional[bytes] = None,
        storage: Optional[omemo.Storage] = None,
        pick: Optional[Callable[[FrozenSet[int]], int]] = None
    ) -> None:
        super().__init__()
        self.ns = ns
        self.kv = kv
        self.ids = ids
        self.clock = clock
        self.fixed_ik = ik
        self.storage = storage
        self.pick = pick or min
        self.rotations: list[float] = []
        # Name ratchet key pairs uniquely, so that processing a message twice, starting from the same stored state,
        # leads to different names, as it does with real ratchets.
        self.unique_ratchets = False

    # -- internal -----------------------------------------------------------------------------------------

    async def _ik(self) -> bytes:
        if self.fixed_ik is not None:
            return self.fixed_ik
        assert self.storage is not None
        return (await IdentityKeyPair.get(self.storage)).identity_key

    async def _state(self) -> Dict[str, Any]:
        st = await self.kv.get(f"/{self.ns}/state")
        if st is None:
            st = {
                "ik": b64(await self._ik()),
                "spk": self.ids(),
                "born": self.clock(),
                "old_spk": None,
                "pks": [],
                "hidden": []
            }
            await self.kv.put(f"/{self.ns}/state", st)
        return st  # type: ignore[no-any-return]

    async def _put_state(self, st: Dict[str, Any]) -> None:
        await self.kv.put(f"/{self.ns}/state", st)

    async def _sessions(self) -> Dict[str, Dict[str, Any]]:
        return await self.kv.get(f"/{self.ns}/sessions") or {}

    # -- Backend interface --------------------------------------------------------------------------------

    @property
    def namespace(self) -> str:
        return self.ns

    async def load_session(self, bare_jid: str, device_id: int) -> Optional[SymSession]:
        st = (await self._sessions()).get(bare_jid, {}).get(str(device_id))
        return None if st is None else SymSession(self.ns, bare_jid, device_id, copy.deepcopy(st))

    async def store_session(self, session: Session) -> None:
        assert isinstance(session, SymSession) and session.namespace == self.ns
        sessions = await self._sessions()
        sessions.setdefault(session.bare_jid, {})[str(session.device_id)] = copy.deepcopy(session.st)
        await self.kv.put(f"/{self.ns}/sessions", sessions)

    async def build_session_active(
        self, bare_jid: str, device_id: int, bundle: Bundle, plain_key_material: PlainKeyMaterial
    ) -> Tuple[SymSession, SymEKM]:
        assert isinstance(bundle, SymBundle) and isinstance(plain_key_material, SymPlain)
        assert bundle.namespace == self.ns
        if not bundle.sig_ok:
            raise KeyExchangeFailed("bad signature")
        if len(bundle.pks) == 0:
            raise KeyExchangeFailed("no pre keys")
        own_ik = unb64((await self._state())["ik"])
        pk = self.pick(bundle.pks)
        kex = (b64(own_ik), self.ids(), bundle.spk, pk)
        st = {
            "sid": make_sid(own_ik, kex[1], bundle.identity_key, bundle.spk, pk),
            "side": "A",
            "kex": list(kex),
            "confirmed": False,
            "epoch": 1,
            "send_n": 0,
            "prev_n": 0,
            "peer_epoch": 0,
            "recv_n": None,
            "skipped": []
        }
        session = SymSession(self.ns, bare_jid, device_id, st)
        return session, await self.encrypt_key_material(session, plain_key_material)

    async def build_session_passive(
        self, bare_jid: str, device_id: int, key_exchange: KeyExchange, encrypted_key_material: EncryptedKeyMaterial
    ) -> Tuple[SymSession, SymPlain]:
        assert isinstance(key_exchange, SymKex) and isinstance(encrypted_key_material, SymEKM)
        state = await self._state()
        if key_exchange.spk not in (state["spk"], state["old_spk"]):
            raise KeyExchangeFailed("unknown signed pre key")
        if key_exchange.pk not in state["pks"] and key_exchange.pk not in state["hidden"]:
            raise KeyExchangeFailed("unknown pre key")
        st = {
            "sid": make_sid(
                key_exchange.ik, key_exchange.ek, unb64(state["ik"]), key_exchange.spk, key_exchange.pk
            ),
            "side": "B",
            "kex": [b64(key_exchange.ik), key_exchange.ek, key_exchange.spk, key_exchange.pk],
            "confirmed": False,
            "epoch": 0,
            "send_n": 0,
            "prev_n": 0,
            "peer_epoch": 0,
            "recv_n": None,
            "skipped": []
        }
        if self.unique_ratchets:
            st["ratchet"] = self.ids()
        session = SymSession(self.ns, bare_jid, device_id, st)
        plain = self._decrypt(session, encrypted_key_material)
        return session, plain

    async def encrypt_plaintext(self, plaintext: bytes) -> Tuple[SymContent, SymPlain]:
        keyid = self.ids()
        return SymContent(keyid, plaintext), SymPlain(keyid)

    async def encrypt_empty(self) -> Tuple[SymContent, SymPlain]:
        return SymContent(None, b""), SymPlain(None)

    async def encrypt_key_material(self, session: Session, plain_key_material: PlainKeyMaterial) -> SymEKM:
        assert isinstance(session, SymSession) and isinstance(plain_key_material, SymPlain)
        assert session.namespace == self.ns
        st = session.st
        ekm = SymEKM(
            session.bare_jid, session.device_id, st["sid"], st["side"], st["epoch"], st["send_n"], st["prev_n"],
            plain_key_material.keyid, ratchet=st.get("ratchet")
        )
        st["send_n"] += 1
        return ekm

    async def decrypt_plaintext(self, content: Content, plain_key_material: PlainKeyMaterial) -> bytes:
        assert isinstance(content, SymContent) and isinstance(plain_key_material, SymPlain)
        assert not content.empty
        if content.keyid != plain_key_material.keyid:
            raise DecryptionFailed("wrong key for this content")
        return content.body

    async def decrypt_key_material(
        self, session: Session, encrypted_key_material: EncryptedKeyMaterial
    ) -> SymPlain:
        assert isinstance(session, SymSession) and isinstance(encrypted_key_material, SymEKM)
        assert session.namespace == self.ns
        plain = self._decrypt(session, encrypted_key_material)
        session.st["confirmed"] = True
        return plain

    def _decrypt(self, session: SymSession, ekm: SymEKM) -> SymPlain:
        st = copy.deepcopy(session.st)
        if ekm.tampered or ekm.sid != st["sid"] or ekm.side == st["side"]:
            raise DecryptionFailed("not readable with this session")
        tag = [ekm.epoch, ekm.n]
        if tag in st["skipped"]:
            st["skipped"].remove(tag)
        elif ekm.epoch < st["peer_epoch"] or (ekm.epoch == st["peer_epoch"] and ekm.n < (st["recv_n"] or 0)):
            raise DecryptionFailed("message key already used")
        else:
            skip = []
            if ekm.epoch > st["peer_epoch"]:
                if st["recv_n"] is not None:
                    skip += [[st["peer_epoch"], i] for i in range(st["recv_n"], ekm.pn)]
                st["peer_epoch"] = ekm.epoch
                st["recv_n"] = 0
                st["prev_n"] = st["send_n"]
                st["epoch"] += 1
                st["send_n"] = 0
                if self.unique_ratchets:
                    st["ratchet"] = self.ids()
            skip += [[ekm.epoch, i] for i in range(st["recv_n"], ekm.n)]
            if len(skip) > self.max_num_per_message_skipped_keys:
                raise TooManySkippedMessageKeys("too many skipped message keys")
            st["skipped"] = (st["skipped"] + skip)[-self.max_num_per_session_skipped_keys:]
            st["recv_n"] = ekm.n + 1
        session.st = st
        return SymPlain(ekm.keyid)

    async def signed_pre_key_age(self) -> int:
        return int(self.clock() - (await self._state())["born"])

    async def rotate_signed_pre_key(self) -> None:
        st = await self._state()
        st["old_spk"] = st["spk"]
        st["spk"] = self.ids()
        st["born"] = self.clock()
        self.rotations.append(self.clock())
        await self._put_state(st)

    async def hide_pre_key(self, session: Session) -> bool:
        assert isinstance(session, SymSession)
        st = await self._state()
        pk = session.st["kex"][3]
        if pk in st["pks"]:
            st["pks"].remove(pk)
            st["hidden"].append(pk)
            await self._put_state(st)
            return True
        return False

    async def delete_pre_key(self, session: Session) -> bool:
        assert isinstance(session, SymSession)
        st = await self._state()
        pk = session.st["kex"][3]
        for where in ("pks", "hidden"):
            if pk in st[where]:
                st[where].remove(pk)
                await self._put_state(st)
                return True
        return False

    async def delete_hidden_pre_keys(self) -> None:
        st = await self._state()
        if st["hidden"]:
            st["hidden"] = []
            await self._put_state(st)

    async def get_num_visible_pre_keys(self) -> int:
        return len((await self._state())["pks"])

    async def generate_pre_keys(self, num_pre_keys: int) -> None:
        st = await self._state()
        st["pks"] += [self.ids() for _ in range(num_pre_keys)]
        await self._put_state(st)

    async def get_bundle(self, bare_jid: str, device_id: int) -> SymBundle:
        st = await self._state()
        return SymBundle(self.ns, bare_jid, device_id, unb64(st["ik"]), st["spk"], frozenset(st["pks"]))

    async def purge(self) -> None:
        await self.kv.remove(f"/{self.ns}/sessions")
        await self.kv.remove(f"/{self.ns}/state")

    async def purge_bare_jid(self, bare_jid: str) -> None:
        sessions = await self._sessions()
        if bare_jid in sessions:
            sessions.pop(bare_jid)
            await self.kv.put(f"/{self.ns}/sessions", sessions)
