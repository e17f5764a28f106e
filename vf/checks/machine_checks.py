"""Properties decided (mainly) by the model-based machine, each with its own operation mix."""
from __future__ import annotations

from typing import Any, Dict, List

from hypothesis import strategies as st

from ..machine import LABELS, NAMESPACES, OWN, Machine
from ..runner import Check, Ctx, Part
from ..sym import Ids, StorageKV, SymBackend
from ..world import (
    App, Faults, MemStorage, Server, Violation, deterministic_secrets, make_manager_class, virtual_loop
)

# weights of operations per property
PROFILES: Dict[str, str] = {
    "C01": "outage encrypt*7 trust*4 swap*3 bundle*2 list*3 info talk*2 exchange purge_jid replace*2 restart refresh_all"
           " purge_ns",
    "C02": "encrypt*8 outage*3 list*5 bundle*4 trust*3 talk*2 exchange purge_jid restart info purge_ns refresh_all swap",
    "C03": "flood encrypt*6 talk*6 exchange*4 recv*2 send*2 deliver*3 sync trust list restart replace",
    "C04": "exchange*6 deliver*4 send*3 talk*4 trust*4 list*3 bundle*2 encrypt*2 sync info purge_jid restart",
    "C05": "forget flood encrypt*6 exchange*4 talk*5 deliver*3 send*3 trust*3 bundle*2 list sync restart swap recv",
    "C06": "outage list*8 refresh_all*3 info*5 bundle*5 trust restart*2 purge_ns purge_jid*2 encrypt exchange ensure label"
           " swap",
    "C07": "list*6 label*4 drift*3 refresh_all*2 ensure*2 restart*3 purge_ns exchange encrypt",
    "C08": "flood cycle phase exchange*8 send*3 deliver*4 sync*3 restart*2 encrypt talk purge_ns ensure trust list",
    "C09": "forget replace phase*4 exchange*7 talk*4 encrypt*3 send*2 deliver*3 sync*4 restart*2 purge_jid purge_ns trust list",
    "C10": "flood replace phase encrypt*5 talk*6 exchange*5 recv*2 sync*2 send*2 deliver*3 restart trust",
    "C11": "duel*3 forget outage replace*7 chain*4 encrypt*4 talk*4 exchange*3 bundle*3 swap*2 trust recv sync restart purge_jid list",
    "C14": "phase*2 cycle purge_ns*5 restart*5 encrypt*2 exchange*3 talk drift*2 list*2 sync label trust",
    "C15": "phase purge_jid*6 encrypt*3 exchange*4 trust*4 list*4 info*2 sync restart*2 talk purge_ns",
    "C16": "trust*8 info*4 list*4 purge_jid*2 encrypt*3 restart*2 exchange bundle",
    "C18": "drift*7 ensure*6 list*3 label exchange*2 restart encrypt sync",
    "C24": "encrypt*4 list*5 restart*2 trust label exchange talk purge_ns refresh_all",
    "C29": "encrypt*7 exchange*5 list*5 refresh_all*2 info*4 bundle*3 trust*2 talk*3 deliver*2 send*2 sync*2 replace*2 chain"
           " label ensure*2 drift restart purge_ns purge_jid outage idle",
    "C12": "cycle*3 restart*6 badcreate*2 exchange*2 encrypt*2 list*2 label drift purge_ns sync talk",
}

SIZES = {"quick": [4, 12, 12, 24, 40], "thorough": [4, 12, 24, 40, 80]}


def expand(profile: str) -> List[str]:
    out: List[str] = []
    for word in profile.split():
        name, _, n = word.partition("*")
        out += [name] * int(n or 1)
    return out


def machine_strategy(prop: str) -> Any:
    names = expand(PROFILES[prop])

    def strategy(tier: str) -> Any:
        op = st.tuples(st.sampled_from(names), st.binary(min_size=7, max_size=7)).map(lambda t: [t[0], *t[1]])
        ops = st.sampled_from(SIZES[tier]).flatmap(lambda n: st.lists(op, min_size=n // 2, max_size=n))
        return st.builds(
            lambda cfg, ops: {"cfg": list(cfg), "ops": ops}, st.binary(min_size=11, max_size=11), ops
        )

    return strategy


def machine_run(prop: str) -> Any:
    def run(case: Any, ctx: Ctx) -> None:
        machine = Machine(case, {prop}, trace=ctx.trace is not None)
        if ctx.trace is not None:
            machine.trace = ctx.trace
        machine.run()
        ctx.events.update(machine.events)
        ctx.nontrivial += machine.hits[prop]

    return run


def scribbling_run(case: Any, ctx: Ctx) -> None:
    """
    C24: containers are changed after they were passed. If anything then deviates from the model, although nothing
    does without those changes, the library still uses the caller's container.
    """
    def once(scribble: bool) -> Machine:
        machine = Machine(case, {"C24"}, trace=ctx.trace is not None)
        if ctx.trace is not None:
            machine.trace = ctx.trace
        machine.scribble = scribble
        machine.run()
        return machine

    try:
        machine = once(True)
    except Violation:
        raise
    except Exception as e:  # pylint: disable=broad-except
        ctx.say("-- the same without changing containers later:")
        once(False)
        ctx.expect(False, f"changing a container after the call that it was passed to has an effect: {e}")
    ctx.events.update(machine.events)
    ctx.nontrivial += machine.hits["C24"]


def first_strategy(tier: str) -> Any:
    return st.fixed_dictionaries({
        "seed": st.integers(0, 2**16), "max": st.sampled_from([3, 4, 6, 10, 2**31 - 1]),
        "names": st.integers(0, 7), "cache": st.booleans(),
        "taken": st.lists(st.lists(st.integers(0, 12), max_size=9), min_size=3, max_size=3),
        "threshold": st.integers(25, 99), "label": st.integers(0, 4)
    })


def first_run(case: Any, ctx: Ctx) -> None:
    """First start in an account that has few device ids left."""
    names = Machine.pick_backends(case["names"])
    server = Server()
    limit = case["max"]
    free = 1 + case["seed"] % (limit - 1) if limit < 100 else None
    for ns, ids in zip(NAMESPACES, case["taken"]):
        taken = {(i if i % 3 else limit - 1 - i) if limit > 100 else 1 + i % (limit - 1) for i in ids} - {free}
        server.lists[(ns, OWN)] = {i: f"label {i}" for i in sorted(taken)}
    before = {k: dict(v) for k, v in server.lists.items()}
    label = LABELS[case["label"]]
    with virtual_loop() as loop, deterministic_secrets(case["seed"]):
        data: Dict[str, str] = {}
        ids = Ids()
        dev = ik = None
        for attempt in ("first start", "second start"):
            storage = MemStorage(data, case["cache"])
            backends = [SymBackend(ns, StorageKV(storage), ids, loop.time, storage=storage) for ns in names]
            app = App(OWN, server, Faults())
            app.loaded = set(names)
            manager_class = make_manager_class(app, {"DEVICE_ID_MAX": limit} if limit < 100 else {})
            manager = loop.run(manager_class.create(
                backends=list(backends), storage=storage, own_bare_jid=OWN, initial_own_label=label,
                undecided_trust_level_name="new", pre_key_refill_threshold=case["threshold"]
            ))
            server.freeze = True
            own, _ = loop.run(manager.get_own_device_information())
            server.freeze = False
            if dev is None:
                dev, ik = own.device_id, own.identity_key
                ctx.say(f"lists {before}, ids below {limit}: got {dev}")
                taken = {d for ns in names for d in before[(ns, OWN)]}
                ctx.expect(
                    1 <= dev <= 2**31 - 1, f"device id {dev} is out of range"
                )
                ctx.expect(dev not in taken, f"device id {dev} is taken, existing ones are {sorted(taken)}")
                ctx.hit("ids." + ("scarce" if limit < 100 else "plenty"))
            ctx.expect((dev, ik) == (own.device_id, own.identity_key), f"{attempt}: device id or identity key changed")
            ctx.expect(own.label == label, f"{attempt}: label {own.label!r} instead of {label!r}")
            for ns in NAMESPACES:
                want = dict(before[(ns, OWN)])
                if ns in names:
                    want[dev] = label
                ctx.expect(
                    server.lists[(ns, OWN)] == want, f"{attempt}: {ns} list {server.lists[(ns, OWN)]}, expected {want}"
                )
                bundle = server.bundles.get((ns, OWN, dev))
                ctx.expect((bundle is not None) is (ns in names), f"{attempt}: {ns} bundle wrongly (un)published")
                if bundle is not None:
                    ctx.expect(bundle.identity_key == ik, f"{attempt}: {ns} has another identity key")
                    ctx.expect(len(bundle.pks) == 100, f"{attempt}: {ns} offers {len(bundle.pks)} pre keys")


def machine_part(prop: str, quick: int = 7200, thorough: int = 80000) -> Part:
    return Part("machine", machine_strategy(prop), machine_run(prop), quick, thorough)


RULES = {
    "C01": "an encryption was refused for lack of a trust decision, excluded an untrusted device, or met a bundle with"
           " another identity key than the known one",
    "C02": "an encryption reached several backends, own devices, partial errors, an explicit priority order, or ended"
           " with no eligible device or an unknown namespace",
    "C04": "a message was rejected for a stated reason, or accepted from an undecided sender",
    "C05": "an en- or decryption changed session state, or failed after having touched a session",
    "C06": "a list deactivated, reactivated or extended a known device, or an identity key was looked up",
    "C07": "this device had to be put back on a list, or its label was changed",
    "C08": "a pre key was used up by an incoming key exchange",
    "C09": "a reply was deferred, a retained pre key was reused or deleted, or deferred replies were sent",
    "C10": "a key exchange was due, no longer due, or an automatic reply was due",
    "C11": "sessions were replaced, a replacement failed, or a chain length was reported",
    "C14": "a backend was purged or left out of a start",
    "C15": "an account with known devices or sessions was purged",
    "C16": "trust was set for a known device or reported for one",
    "C18": "published data had drifted before the repair",
    "C24": "an operation that takes a container from the caller succeeded",
    "C12": "the session manager was created",
}


def check(prop: str) -> Check:
    parts = [machine_part(prop)]
    if prop == "C12":
        parts = [machine_part(prop, 5000), Part("first", first_strategy, first_run, 3000, 20000)]
    if prop == "C24":
        parts.append(Part("scribble", machine_strategy(prop), scribbling_run, 3000, 40000))
        parts[0].examples["quick"] = 3000
    if prop in ("C01", "C05", "C12", "C18"):
        from .chaos import part
        parts.append(part())
    if prop in ("C01", "C02", "C06", "C09", "C15"):
        from . import crowd
        parts.append(crowd.part())
    return Check(
        prop, parts,
        "case = configuration + operation sequence generated by Hypothesis for one real session manager with"
        " symbolic backends, compared with the reference model after every operation; non-trivial if " + RULES[prop]
    )
