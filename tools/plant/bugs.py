"""The planted bugs. Written from the properties and the code; see plant.py."""
SM = "omemo/session_manager.py"
ST = "omemo/storage.py"
IK = "omemo/identity_key_pair.py"
BE = "omemo/backend.py"
BUGS = {}


def bug(id_, prop, needs, breaks, edits, demo):
    BUGS[id_] = {"property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": demo}


bug("c01-trust-by-key", "C01",
    "two recipient accounts that advertise the same identity key, one trusted, the other rejected in the decision",
    "After a trust decision the new levels are looked up per identity key, so a key rejected for one account is used"
    " because another account's identical key was trusted (or the other way around).",
    [(SM, """            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
""", """            trust_levels = { device.identity_key: (await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name) for device in devices }

            devices = {
                device._replace(trust_level_name=trust_levels[device.identity_key]) for device in devices
            }
""")],
    '''
async def demo():
    for trusted in ("bob@x.org", "eve@x.org"):
        for _ in range(4):
            server = Server()
            bob = await Client(server, "bob@x.org").start()
            # eve's account advertises a device with bob's identity key
            eve = await Client(server, "eve@x.org", data={k: v for k, v in bob.data.items() if k.startswith("/ikp")}).start()
            assert eve.ik == bob.ik
            carol = await Client(server, "carol@x.org").start()

            async def decide(m, undecided, _):
                for d in undecided:
                    await m.set_trust(d.bare_jid, d.identity_key, "trusted" if d.bare_jid in (trusted, "carol@x.org") else "distrusted")

            alice = await Client(server, "alice@x.org", decide=decide).start()
            await alice.learn(bob)
            await alice.learn(eve)
            await alice.learn(carol)
            try:
                messages, _ = await alice.say(bob, eve, carol)
            except omemo.NoEligibleDevices as e:
                assert e.bare_jids == frozenset({"bob@x.org", "eve@x.org"} - {trusted}), e.bare_jids
            else:
                raise AssertionError(f"encrypted for {keys(messages)}")
''')

bug("c01-partially-decided", "C01",
    "a trust decision callback that decides on some of the undecided devices only",
    "Encryption goes on if at least one of the undecided devices was decided on, although others are still undecided.",
    [(SM, """        # Make sure the trust status of all previously undecided devices has been decided on
        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(undecided_devices) > 0:
""", """        # Make sure the trust status of all previously undecided devices has been decided on
        still_undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(undecided_devices) > 0 and still_undecided_devices >= undecided_devices:
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    bob2 = await Client(server, "bob@x.org").start()

    async def decide(m, undecided, _):
        for d in undecided:
            if d.device_id == bob.dev:
                await m.set_trust(d.bare_jid, d.identity_key, "trusted")

    alice = await Client(server, "alice@x.org", decide=decide).start()
    await alice.learn(bob)
    try:
        await alice.say(bob)
    except omemo.StillUndecided:
        return
    raise AssertionError("encryption went on although a device is still undecided")
''')

bug("c02-order-of-loading", "C02",
    "an explicit priority order that differs from the order of the loaded backends, and a device in several backends",
    "The backend for a device is chosen by the order in which the backends were loaded, not by the order requested.",
    [(SM, """            ), key=backend_priority_order.index)[0:1]))
""", """            ), key=available_namespaces.index)[0:1]))
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    await alice.learn(bob)
    messages, _ = await alice.say(bob, backend_priority_order=[OLD, NEW])
    assert keys(messages) == [(OLD, bob.jid, bob.dev)], keys(messages)
''')

bug("c02-inactive-preferred", "C02",
    "a device that left the list of the preferred backend but is still on the list of another one",
    "The preferred backend is used for a device although the device is no longer active in it.",
    [(SM, """                if dict(device.active)[namespace] and namespace in backend_priority_order
""", """                if namespace in backend_priority_order
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    await alice.learn(bob)
    await alice.m.update_device_list(NEW, bob.jid, {})
    messages, _ = await alice.say(bob)
    assert keys(messages) == [(OLD, bob.jid, bob.dev)], keys(messages)
''')

bug("c02-errors-one-per-account", "C02",
    "two devices of one recipient whose bundles cannot be used, next to one that works",
    "Only one device per account and backend is reported when bundles can not be used.",
    [(SM, """                    encryption_errors.add(EncryptionError(
                        backend.namespace,
                        device.bare_jid,
                        device.device_id,
                        e
                    ))
""", """                    if all(
                        (error.namespace, error.bare_jid) != (backend.namespace, device.bare_jid)
                        for error in encryption_errors
                    ):
                        encryption_errors.add(EncryptionError(
                            backend.namespace,
                            device.bare_jid,
                            device.device_id,
                            e
                        ))
""")],
    '''
async def demo():
    server = Server()
    bobs = [await Client(server, "bob@x.org").start() for _ in range(3)]
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bobs[0])
    await alice.m.get_device_information("bob@x.org")
    server.fail_bundle = {(NEW, b.jid, b.dev) for b in bobs[1:]}
    messages, errors = await alice.say(bobs[0])
    assert keys(messages) == [(NEW, bobs[0].jid, bobs[0].dev)]
    assert {e.device_id for e in errors} == {b.dev for b in bobs[1:]}, errors
''')

bug("c03-key-of-other-account", "C03",
    "a message that also carries a key for a device of another account with the same device id as this device",
    "The own key is found by the device id alone, so the key meant for another account's device with the same id may"
    " be picked and the message can not be read.",
    [(SM, """                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
""", """                lambda k: k[0].device_id == self.__own_device_id,
""")],
    '''
async def demo():
    import secrets
    real = secrets.randbelow
    for i in range(6):
        server = Server()
        alice = await Client(server, "alice@x.org").start()
        secrets.randbelow = lambda n: 4711
        bob = await Client(server, "bob@x.org").start()
        carol = await Client(server, "carol@x.org").start()
        secrets.randbelow = real
        assert bob.dev == carol.dev
        await alice.learn(bob)
        await alice.learn(carol)
        for who in (bob, carol):
            await who.learn(alice)
        messages, _ = await alice.say(bob, carol, text=b"hello %d" % i)
        for who in (bob, carol):
            for m in messages:
                assert (await who.m.decrypt(m))[0] == b"hello %d" % i
''')

bug("c04-kex-identity-unchecked", "C04",
    "an established session, then a message with a key exchange made by another identity key",
    "The identity key of a key exchange is not compared with the known one if a session exists that it would replace.",
    [(SM, """            # Check whether the identity key matches the one we know
            if key_exchange.identity_key != device.identity_key:
                raise PublicDataInconsistency(
""", """            # Check whether the identity key matches the one we know
            if (
                key_exchange.identity_key != device.identity_key
                and await backend.load_session(device.bare_jid, device.device_id) is None
            ):
                raise PublicDataInconsistency(
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    messages, _ = await alice.say(bob)
    for m in messages:
        await bob.m.decrypt(m)
    # mallory uses alice's account and device id with a key pair of her own
    mallory = await Client(server, "mallory@x.org").start()
    await mallory.learn(bob)
    messages, _ = await mallory.say(bob, text=b"I am alice")
    try:
        for m in messages:
            await bob.m.decrypt(m._replace(bare_jid=alice.jid, device_id=alice.dev))
    except omemo.PublicDataInconsistency:
        return
    except omemo.OMEMOException as e:
        raise AssertionError(f"wrong reason: {e!r}")
    raise AssertionError("message with a foreign identity key was accepted")
''')

bug("c04-no-refresh", "C04",
    "a message from a new device of an account of which other devices are known already",
    "The device list is only refreshed for unknown senders if nothing at all is known about the account.",
    [(SM, """            await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once the device list""", """            if len(devices) == 0:
                await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once the device list""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await bob.learn(alice)
    alice2 = await Client(server, "alice@x.org").start()
    await alice2.learn(bob)
    messages, _ = await alice2.say(bob, text=b"from my new phone")
    for m in messages:
        if (NEW, bob.jid, bob.dev) in keys([m]):
            assert (await bob.m.decrypt(m))[0] == b"from my new phone"
''')

bug("c05-early-persist", "C05",
    "a message whose key material is fine but whose content was damaged on the way",
    "The session is persisted before the content was decrypted, so a failed decryption advances the stored session and"
    " the intact copy of the message can not be read afterwards.",
    [(SM, """        logging.getLogger(SessionManager.LOG_TAG).debug(f"Plain key material: {plain_key_material}")

        # Decrypt the message
""", """        logging.getLogger(SessionManager.LOG_TAG).debug(f"Plain key material: {plain_key_material}")

        # Persist the session
        await backend.store_session(session)

        # Decrypt the message
"""), (SM, """        # Persist the session following successful decryption
        await backend.store_session(session)

""", "")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    for m in (await alice.say(bob))[0]:
        await bob.m.decrypt(m)
    message, = (await alice.say(bob, text=b"second"))[0]
    other, = (await alice.say(bob, text=b"third"))[0]
    try:
        await bob.m.decrypt(message._replace(content=other.content))
    except omemo.DecryptionFailed:
        pass
    else:
        raise AssertionError("garbage decrypted")
    assert (await bob.m.decrypt(message))[0] == b"second"
''')

bug("c05-persist-unless-kex", "C05",
    "two messages sent one after another in a session that the other side has not answered yet",
    "An existing session that still needs its key exchange attached is not stored after encrypting, so the next message"
    " uses the same message key.",
    [(SM, """                    # Keep track of the modified sessions to store them once encryption is fully done.
                    sessions.add((backend, session))
""", """                    # Keep track of the modified sessions to store them once encryption is fully done.
                    if bundle is not None or session.confirmed or session.initiation is Initiation.PASSIVE:
                        sessions.add((backend, session))
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    messages = [m for i in range(3) for m in (await alice.say(bob, text=b"%d" % i))[0]]
    assert [(await bob.m.decrypt(m))[0] for m in messages] == [b"0", b"1", b"2"]
''')

bug("c06-no-reactivation", "C06",
    "a device that disappears from a list and comes back later",
    "A device that was inactive for a backend stays inactive when it is listed again.",
    [(SM, """                if namespace not in active or active[namespace] is False:
""", """                if namespace not in active:
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await alice.m.update_device_list(NEW, bob.jid, {})
    assert dict((await alice.info(bob)).active) == {NEW: False}
    await alice.learn(bob)
    assert dict((await alice.info(bob)).active) == {NEW: True}
''')

bug("c06-label-of-first", "C06",
    "a device listed without label by one backend after another backend had supplied its label",
    "A list of a backend that does not support labels erases the label known for a device.",
    [(SM, """                if device_list[device_id] is not None and device_list[device_id] != label:
""", """                if device_list[device_id] != label:
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    await alice.m.update_device_list(NEW, bob.jid, {bob.dev: "phone"})
    await alice.m.update_device_list(OLD, bob.jid, {bob.dev: None})
    assert (await alice.info(bob)).label == "phone"
''')

bug("c06-one-bundle-tried", "C06",
    "a device in two backends, the bundle of one of them not downloadable when its identity key is looked up",
    "Only one of the backends of a device is tried to find out its identity key.",
    [(SM, """                for namespace in namespaces:
                    try:
                        bundle = await self._download_bundle""", """                for namespace in sorted(namespaces)[:1]:
                    try:
                        bundle = await self._download_bundle""")],
    '''
async def demo():
    for broken in (NEW, OLD):
        server = Server()
        bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
        alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
        await alice.learn(bob)
        server.fail_bundle = {(broken, bob.jid, bob.dev)}
        assert await alice.info(bob) is not None, f"left out because the {broken} bundle is not available"
''')

bug("c07-label-only-if-listed", "C07",
    "this device was dropped from one of the published lists when its label is changed",
    "Changing the label does not publish it for backends whose list does not contain this device.",
    [(SM, """            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""", """            if self.__own_device_id in device_list:
                device_list[self.__own_device_id] = own_label
                await self._upload_device_list(backend.namespace, device_list)
""")],
    '''
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    server.lists[(OLD, alice.jid)] = {17: "other"}
    await alice.m.set_own_label("desk")
    assert server.lists[(NEW, alice.jid)] == {alice.dev: "desk"}
    assert server.lists[(OLD, alice.jid)] == {17: "other", alice.dev: "desk"}
''')

bug("c07-republish-known-only", "C07",
    "a list without this device that contains another device which is not known yet",
    "When this device has to be put back on a list, devices that were not known before get lost from the published list.",
    [(SM, """            )).from_just()
            await self._upload_device_list(namespace, device_list)
""", """            )).from_just()
            await self._upload_device_list(namespace, {
                device_id: label
                for device_id, label
                in device_list.items()
                if device_id in old_device_list
            })
""")],
    '''
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    await alice.m.update_device_list(NEW, alice.jid, {5: "tablet"})
    assert server.lists[(NEW, alice.jid)] == {5: "tablet", alice.dev: None}, server.lists
''')

bug("c08-refill-below", "C08",
    "exactly as many visible pre keys left as the threshold says",
    "Pre keys are only refilled once their number is below the threshold instead of at it.",
    [(SM, """                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger""", """                if num_visible_pre_keys < self.__pre_key_refill_threshold:
                    logging.getLogger""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start(pre_key_refill_threshold=99)
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    await bob.m.after_history_sync()
    for m in (await alice.say(bob))[0]:
        await bob.m.decrypt(m)
    assert await bob.backends[NEW].get_num_visible_pre_keys() == 100
''')

bug("c09-queue-last-device", "C09",
    "key exchanges from two devices of the same account during catch-up",
    "Only the last device per account is kept in the queue of deferred replies.",
    [(SM, """                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""", """                queued_device_ids = { session.device_id }
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alices = [await Client(server, "alice@x.org").start() for _ in range(2)]
    await bob.learn(alices[0])
    for a in alices:
        await a.learn(bob)
        for m in (await a.say(bob))[0]:
            await bob.m.decrypt(m)
    await bob.m.after_history_sync()
    got = sorted(k.device_id for m, _ in server.sent for k, _ in m.keys)
    assert got == sorted(a.dev for a in alices), got
''')

bug("c09-hidden-only-if-queued", "C09",
    "a catch-up in which a key exchange arrived, whose session is purged before the catch-up ends, or a second backend",
    "Retained pre keys are only deleted for backends that have replies queued.",
    [(SM, """        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""", """        for backend in self.__backends:
            if (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]):
                await backend.delete_hidden_pre_keys()
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await bob.learn(alice)
    await alice.learn(bob)
    for m in (await alice.say(bob))[0]:
        await bob.m.decrypt(m)
    await bob.m.purge_bare_jid(alice.jid)
    done = []
    real = bob.backends[NEW].delete_hidden_pre_keys

    async def record():
        done.append(True)
        await real()
    bob.backends[NEW].delete_hidden_pre_keys = record
    await bob.m.after_history_sync()
    assert done, "the pre key used by alice is still there"
''')

bug("c10-stale-at-limit", "C10",
    "exactly 53 messages received in one chain without an answer",
    "The automatic reply against staleness is sent one message too early.",
    [(SM, """            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
""", """            or (session.receiving_chain_length or 0) >= self.__class__.STALENESS_MAGIC_NUMBER
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    await bob.m.after_history_sync()
    await alice.m.after_history_sync()
    for m in (await alice.say(bob))[0]:
        await bob.m.decrypt(m)
    for m, _ in server.sent:
        await alice.m.decrypt(m)
    server.sent.clear()
    for i in range(1, 55):
        for m in (await alice.say(bob))[0]:
            await bob.m.decrypt(m)
        assert len(server.sent) == (1 if i > 53 else 0), f"{len(server.sent)} replies after {i} messages"
''')

bug("c10-kex-once", "C10",
    "a second message in a session that this side initiated and that was not answered yet",
    "Only the first message of a session carries the key exchange, so the others can not be read if it is lost.",
    [(SM, """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        else None
                    )))
""", """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and bundle is not None
                        else None
                    )))
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    await alice.say(bob, text=b"lost")
    for m in (await alice.say(bob, text=b"not lost"))[0]:
        assert (await bob.m.decrypt(m))[0] == b"not lost"
''')

bug("c11-stored-before-sent", "C11",
    "sending the notification about a replaced session fails",
    "The replacement session is stored before the notification was sent; if that fails the old session is lost.",
    [(SM, """                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)

                    # Store the replacement
                    await backend.store_session(session)
""", """                    try:
                        # Send the notification message
                        await self._send_message(Message(
                            backend.namespace,
                            self.__own_bare_jid,
                            self.__own_device_id,
                            content,
                            frozenset({ (encrypted_key_material, session.key_exchange) })
                        ), device.bare_jid)
                    finally:
                        # Store the replacement
                        await backend.store_session(session)
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    await bob.m.after_history_sync()
    for m in (await alice.say(bob))[0]:
        await bob.m.decrypt(m)
    for m, _ in server.sent:
        await alice.m.decrypt(m)
    server.fail_send = True
    assert NEW in await alice.m.replace_sessions(await alice.info(bob))
    server.fail_send = False
    for m in (await alice.say(bob, text=b"still there?"))[0]:
        assert [kex for _, kex in m.keys] == [None], "the old session was replaced"
''')

bug("c11-first-error-wins", "C11",
    "a device with sessions in two backends, the replacement of the first one failing",
    "After a failed replacement the remaining backends are skipped.",
    [(SM, """                    unsuccessful[backend.namespace] = e
""", """                    unsuccessful[backend.namespace] = e
                    break
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    await alice.learn(bob)
    await alice.say(bob, backend_priority_order=[NEW])
    await alice.say(bob, backend_priority_order=[OLD])
    server.fail_bundle = {(NEW, bob.jid, bob.dev)}
    assert set(await alice.m.replace_sessions(await alice.info(bob))) == {NEW}
    assert [m.namespace for m, _ in server.sent] == [OLD]
''')

bug("c12-id-clash-second-backend", "C12",
    "a first start with several backends where the device id drawn is taken on the list of the second one",
    "Only the device list of the first backend is consulted when the device id is generated.",
    [(SM, """                for backend
                in self.__backends
            ])

            # Generate a new device id""", """                for backend
                in self.__backends[:1]
            ])

            # Generate a new device id""")],
    '''
async def demo():
    import secrets
    real = secrets.randbelow
    server = Server()
    server.lists[(OLD, "alice@x.org")] = {4712: None}
    draws = iter([4711, 4711, 4800])
    secrets.randbelow = lambda n: next(draws)
    try:
        alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    finally:
        secrets.randbelow = real
    assert alice.dev != 4712, "device id taken"
''')

bug("c12-refill-100", "C12",
    "a backend that comes back with some pre keys left, not more than the (raised) threshold",
    "A backend that is loaded again gets 100 pre keys on top of those it still has.",
    [(SM, """                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)
""", """                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100)
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start(pre_key_refill_threshold=25)
    alice = await Client(server, "alice@x.org", (OLD,)).start()
    await alice.learn(bob)
    await bob.learn(alice)
    for m in (await alice.say(bob))[0]:
        await bob.m.decrypt(m)
    await bob.m.after_history_sync()
    await bob.start([NEW], pre_key_refill_threshold=25)
    await bob.start([NEW, OLD], pre_key_refill_threshold=99)
    n = await bob.backends[OLD].get_num_visible_pre_keys()
    assert n == 100, n
''')

bug("c13-list-before-devices", "C13",
    "the storage fails while the information about a new device is written",
    "The list of known devices is extended before the information about the new devices is stored; if that fails, the"
    " device is broken for good.",
    [(SM, """        # Add new device information entries for new devices
        for device_id in new_devices:
""", """        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        # Add new device information entries for new devices
        for device_id in new_devices:
"""), (SM, """        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        # Update namespaces""", """
        # Update namespaces""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    alice.storage.fail = lambda what, key: what == "store" and key.endswith("/active")
    try:
        await alice.learn(bob)
    except Fail:
        pass
    alice.storage.fail = lambda what, key: False
    await alice.learn(bob)
    assert (await alice.info(bob)).namespaces == {NEW}
''')

bug("c13-id-before-rest", "C13",
    "the storage fails during the very first start, after the device id was stored",
    "The device id is stored before the information about this device; a first start that fails in between leaves a"
    " storage that can not be used any more.",
    [(SM, """            # Store the device information for this device. The namespaces""", """            await self.__storage.store("/own_device_id", self.__own_device_id)

            # Store the device information for this device. The namespaces"""),
     (SM, """            # Finally store the device id once the other setup is done
            await self.__storage.store("/own_device_id", self.__own_device_id)
""", """            # First run setup done
""")],
    '''
async def demo():
    for i in range(12):
        server = Server()
        data = {}
        count = [0]

        class Failing(Mem):
            async def _store(self, key, value):
                count[0] += 1
                if count[0] == i + 1:
                    raise Fail(key)
                await super()._store(key, value)

        storage = Failing(data)
        try:
            await manager_class(server, "a@x.org", trust_all).create(
                backends=[twomemo.Twomemo(storage)], storage=storage, own_bare_jid="a@x.org", initial_own_label=None,
                undecided_trust_level_name="undecided")
        except Fail:
            pass
        c = await Client(server, "a@x.org", data=data).start()
        assert server.lists[(NEW, "a@x.org")].keys() == {c.dev}
''')

bug("c14-bundle-only-if-listed", "C14",
    "purging a backend whose published list does not contain this device any more",
    "The bundle of a purged backend is only deleted if this device was on the published list.",
    [(SM, """        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
""", """        listed = self.__own_device_id in device_list
        if listed:
            device_list.pop(self.__own_device_id)
"""), (SM, """        await self._delete_bundle(namespace, self.__own_device_id)
""", """        if listed:
            await self._delete_bundle(namespace, self.__own_device_id)
""")],
    '''
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    server.lists[(OLD, alice.jid)] = {}
    await alice.m.purge_backend(OLD)
    assert (OLD, alice.jid, alice.dev) not in server.bundles
''')

bug("c15-trust-of-active", "C15",
    "an account one of whose devices is no longer on the list when the account is purged",
    "Purging an account keeps the trust given to identity keys of inactive devices.",
    [(SM, """        for device_id in device_list:
            try:
                identity_keys.add(""", """        for device_id in device_list:
            active = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).maybe({})
            if not any(active.values()):
                continue

            try:
                identity_keys.add(""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    assert await alice.info(bob) is not None
    await alice.m.set_trust(bob.jid, bob.ik, "trusted")
    await alice.say(bob)
    await alice.m.update_device_list(NEW, bob.jid, {})
    await alice.m.purge_bare_jid(bob.jid)
    await alice.learn(bob)
    assert (await alice.info(bob)).trust_level_name == "undecided"
''')

bug("c16-undecided-not-stored", "C16",
    "trust reset to the undecided level, then a restart with another name for the undecided level",
    "Setting the trust level to the one configured for undecided keys is not recorded, so after a restart with another"
    " configuration another level than the one set is reported.",
    [(SM, """        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )
""", """        trust_key = f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
        if trust_level_name == self.__undecided_trust_level_name:
            await self.__storage.delete(trust_key)
        else:
            await self.__storage.store(trust_key, trust_level_name)
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await alice.m.set_trust(bob.jid, bob.ik, "undecided")
    storage = Mem(alice.data)
    m = await manager_class(server, alice.jid, trust_all).create(
        backends=[twomemo.Twomemo(storage)], storage=storage, own_bare_jid=alice.jid, initial_own_label=None,
        undecided_trust_level_name="trusted")
    for d in await m.get_device_information(bob.jid):
        assert d.trust_level_name == "undecided", d
''')

bug("c16-trust-prefix", "C16",
    "trust set for an identity key of one account that another account uses, too",
    "Trust set for a key that is already trusted under another known account is taken over from there",
    [(SM, """            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)
""", """            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe((await storage.load_primitive(
                f"/trust/{self.__own_bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name))
""")],
    '''
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    # another device of the own account has the same identity key as bob's device
    alice2 = await Client(server, "alice@x.org", data={k: v for k, v in bob.data.items() if k.startswith("/ikp")}).start()
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await alice.m.set_trust(alice.jid, alice2.ik, "trusted")
    assert (await alice.info(bob)).trust_level_name == "undecided"
''')

bug("c17-next-check-of-last", "C17",
    "two backends whose signed pre keys have different ages",
    "The next check is scheduled by the last backend alone, so keys of the others are rotated too late.",
    [(SM, """                    next_check = min(next_check, next_rotation)
""", """                    next_check = next_rotation
""")],
    '''
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    for t in asyncio.all_tasks():
        if t is not asyncio.current_task():
            t.cancel()
    ages = {NEW: 500, OLD: 0}
    sleeps = []
    import twomemo, oldmemo
    real = asyncio.sleep

    async def sleep(seconds, *a):
        sleeps.append(seconds)
        await asyncio.Event().wait()

    async def new_age(self):
        return 500

    async def old_age(self):
        return 0
    twomemo.Twomemo.signed_pre_key_age = new_age
    oldmemo.Oldmemo.signed_pre_key_age = old_age
    asyncio.sleep = sleep
    await alice.start(signed_pre_key_rotation_period=1000)
    for _ in range(20):
        await real(0)
    asyncio.sleep = real
    assert sleeps and sleeps[0] <= 560, sleeps
''')

bug("c17-bundle-before-rotation", "C17",
    "the upload after a rotation fails and pre keys change before the next attempt",
    "The bundle to upload after a rotation is made once, so retries publish an outdated one.",
    [(SM, """                    while True:
                        try:
                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
                        except BundleUploadFailed:
""", """                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                    while True:
                        try:
                            await self._upload_bundle(bundle)
                        except BundleUploadFailed:
""")],
    '''
async def demo():
    import twomemo
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    for t in asyncio.all_tasks():
        if t is not asyncio.current_task():
            t.cancel()
    ages = [10**7, 0, 0, 0]
    real = asyncio.sleep
    fails = [1]

    async def age(self):
        return ages.pop(0)
    twomemo.Twomemo.signed_pre_key_age = age

    async def sleep(seconds, *a):
        # meanwhile, pre keys change
        await alice.backends[NEW].generate_pre_keys(3)
        if not ages:
            await asyncio.Event().wait()
    asyncio.sleep = sleep
    mc = manager_class(server, alice.jid, trust_all)
    up = mc._upload_bundle
    published = []

    async def upload(bundle):
        if fails and fails.pop():
            raise omemo.BundleUploadFailed()
        published.append((bundle, await alice.backends[NEW].get_bundle(alice.jid, alice.dev)))
    mc._upload_bundle = staticmethod(upload)
    await mc.create(
        backends=[alice.backends[NEW]], storage=alice.storage, own_bare_jid=alice.jid, initial_own_label=None,
        undecided_trust_level_name="undecided")
    for _ in range(200):
        await real(0.01)
        if published:
            break
    asyncio.sleep = real
    assert published and published[0][0] == published[0][1], "outdated bundle published"
''')

bug("c18-compare-identity", "C18",
    "a published bundle that has the right identity key but outdated pre keys",
    "The published bundle is regarded as fine if its identity key is.",
    [(SM, """                upload_bundle = remote_bundle != local_bundle
""", """                upload_bundle = remote_bundle.identity_key != local_bundle.identity_key
""")],
    '''
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    await alice.backends[NEW].generate_pre_keys(5)
    local = await alice.backends[NEW].get_bundle(alice.jid, alice.dev)
    assert server.bundles[(NEW, alice.jid, alice.dev)] != local
    await alice.m.ensure_data_consistency()
    assert server.bundles[(NEW, alice.jid, alice.dev)] == local
''')

bug("c18-download-failure", "C18",
    "downloading the own bundle fails for a technical reason",
    "Consistency restoration gives up if the own bundle can not be downloaded for technical reasons.",
    [(SM, """            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
""", """            except BundleNotFound:
                upload_bundle = True
            except BundleDownloadFailed:
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )
""")],
    '''
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    del server.bundles[(NEW, alice.jid, alice.dev)]
    server.fail_bundle = {(NEW, alice.jid, alice.dev)}
    await alice.m.ensure_data_consistency()
    assert (NEW, alice.jid, alice.dev) in server.bundles
''')

bug("c19-cache-before-store", "C19",
    "a write that fails, then a load",
    "The cache is updated before the value was stored; after a failed store it returns a value that is not stored.",
    [(ST, """        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""", """        if self.__cache is not None:
            self.__cache[key] = Just(value)

        await self._store(key, value)
""")],
    '''
async def demo():
    s = Mem(disable_cache=False)
    await s.store("k", 1)
    s.fail = lambda what, key: what == "store"
    try:
        await s.store("k", 2)
    except Fail:
        pass
    assert (await s.load("k")).from_just() == 1
''')

bug("c19-delete-forgets", "C19",
    "a load that is under way while the key is deleted",
    "Deleting only drops the cached value instead of remembering the absence, so that a load that started before puts"
    " the deleted value back into the cache.",
    [(ST, """            self.__cache[key] = Nothing()
""", """            self.__cache.pop(key, None)
""")],
    '''
async def demo():
    gate = asyncio.Event()

    class Slow(Mem):
        async def _load(self, key):
            value = await super()._load(key)
            await gate.wait()
            return value

    s = Slow({"k": 1}, disable_cache=False)
    load = asyncio.ensure_future(s.load("k"))
    await asyncio.sleep(0)
    await s.delete("k")
    gate.set()
    await load
    assert (await s.load("k")).is_nothing
''')

bug("c20-dict-first-value", "C20",
    "a stored dictionary with values of different types",
    "Only the first value of a dictionary is checked, so dictionaries with values of other types are returned.",
    [(ST, """            if isinstance(value, dict) and all(isinstance(v, primitive) for v in value.values()):
""", """            if isinstance(value, dict) and isinstance(next(iter(value.values()), primitive()), primitive):
""")],
    '''
async def demo():
    s = Mem()
    await s.store("k", {"a": 1, "b": "x"})
    try:
        await s.load_dict("k", int)
    except TypeError:
        return
    raise AssertionError("wrong type accepted")
''')

bug("c21-key-not-persisted", "C21",
    "the storage fails between the two values that make up the identity key pair",
    "If only the kind of the key pair was stored, loading yields a new key pair each time.",
    [(IK, """            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
""", """            if (await storage.load_primitive("/ikp/is_seed", bool)).is_nothing:
                await storage.store("/ikp/is_seed", is_seed)
                await storage.store_bytes("/ikp/key", key)
""")],
    '''
async def demo():
    from omemo.identity_key_pair import IdentityKeyPair
    s = Mem()
    s.fail = lambda what, key: what == "store" and key == "/ikp/key"
    try:
        await IdentityKeyPair.get(s)
    except Fail:
        pass
    s.fail = lambda what, key: False
    assert (await IdentityKeyPair.get(s)).identity_key == (await IdentityKeyPair.get(s)).identity_key
''')

bug("c24-list-not-copied", "C24",
    "a device list of the own account without this device, kept by the caller",
    "The device list passed by the caller gets this device added.",
    [(SM, """        # Copy to make sure the original is not modified
        device_list = dict(device_list)

""", "")],
    '''
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    mine = {5: None}
    await alice.m.update_device_list(NEW, alice.jid, mine)
    assert mine == {5: None}, mine
''')

bug("c02-own-id-elsewhere", "C02",
    "a recipient device of another account that happens to have the device id of this device",
    "Devices of other accounts are left out if they have the same device id as this device.",
    [(SM, """            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                return False
""", """            if device.device_id == self.__own_device_id:
                return False
""")],
    """
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    # bob has a second device, alice's device has the id of the first one
    bob2 = await Client(server, "bob@x.org").start()
    data = dict((await Client(Server(), "alice@x.org").start()).data)
    old = data["/own_device_id"]
    alice = Client(server, "alice@x.org", data={
        key.replace(f"/{old}/", f"/{bob.dev}/"):
            bob.dev if value == old else [bob.dev] if value == [old] else value for key, value in data.items()
    })
    await alice.start()
    assert alice.dev == bob.dev
    server.lists[(NEW, alice.jid)] = {alice.dev: None}
    await alice.learn(bob)
    messages, _ = await alice.say(bob)
    assert keys(messages) == sorted([(NEW, bob.jid, bob.dev), (NEW, bob.jid, bob2.dev)]), keys(messages)
""")

bug("c04-sender-by-key", "C04",
    "an account with two devices that use the same identity key",
    "The sender reported for a decrypted message is the first device with that identity key.",
    [(SM, """        # Return the plaintext and information about the sending device
        return (plaintext, device, plain_key_material)""", """        # Return the plaintext and up-to-date information about the sending device
        device = next(filter(
            lambda dev: dev.identity_key == session_identity_key,
            sorted(devices, key=lambda dev: dev.device_id)
        ))
        return (plaintext, device, plain_key_material)"""),
     (SM, """        # Persist the session following successful decryption
        await backend.store_session(session)
""", """        # Persist the session following successful decryption
        await backend.store_session(session)
        session_identity_key = device.identity_key
""")],
    """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    twin = await Client(server, "bob@x.org", data={k: v for k, v in bob.data.items() if k.startswith("/ikp")}).start()
    assert twin.ik == bob.ik and twin.dev != bob.dev
    await alice.learn(bob)
    for sender in (bob, twin):
        await sender.learn(alice)
        for m in (await sender.say(alice))[0]:
            _, info, _ = await alice.m.decrypt(m)
            assert info.device_id == sender.dev, (info.device_id, sender.dev)
""")

bug("c05-sessions-by-device-id", "C05",
    "one message to two devices of different accounts that have the same device id",
    "The sessions to persist are collected by device id, so that of devices with the same id only one gets persisted.",
    [(SM, "sessions: Set[Tuple[Backend, Session]] = set()", "sessions: Dict[Tuple[str, int], Tuple[Backend, Session]] = {}"),
     (SM, "sessions.add((backend, session))", "sessions[(backend.namespace, session.device_id)] = (backend, session)"),
     (SM, "for backend, session in sessions:", "for backend, session in sessions.values():")],
    """
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org").start()
    eve = await Client(server, "eve@x.org").start()
    # eve's bundle is published under bob's device id, too
    eve_bundle = server.bundles[(NEW, eve.jid, eve.dev)]
    server.bundles[(NEW, eve.jid, bob.dev)] = type(eve_bundle)(eve.jid, bob.dev, eve_bundle.bundle, eve_bundle.signed_pre_key_id, eve_bundle.pre_key_ids)
    server.lists[(NEW, eve.jid)] = {bob.dev: None}
    alice = await Client(server, "alice@x.org").start()
    await alice.learn(bob)
    await alice.learn(eve)
    messages, errors = await alice.say(bob, eve)
    assert keys(messages) == [(NEW, bob.jid, bob.dev), (NEW, eve.jid, bob.dev)], (keys(messages), errors)
    backend = alice.backends[NEW]
    for jid in (bob.jid, eve.jid):
        assert await backend.load_session(jid, bob.dev) is not None, f"the session with {jid} was not persisted"
""")

bug("c09-gone-session-ends-account", "C09",
    "replies due to two devices of an account, the session with one of them gone by the end of the catch-up",
    "When the session with one device is gone, the replies due to further devices of the same account are skipped.",
    [(SM, """                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
""", """                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
                        break
"""), (SM, """                for device_id in queued_device_ids:
""", """                for device_id in sorted(queued_device_ids):
""")],
    """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bobs = sorted([await Client(server, "bob@x.org").start() for _ in range(2)], key=lambda b: b.dev)
    await alice.learn(bobs[0])
    await bobs[0].learn(alice)
    for m in (await bobs[0].say(alice))[0]:
        await alice.m.decrypt(m)
    # the sessions are gone, the catch-up goes on after the restart
    await alice.backends[NEW].purge_bare_jid("bob@x.org")
    await alice.start()
    await bobs[1].learn(alice)
    for m in (await bobs[1].say(alice))[0]:
        await alice.m.decrypt(m)
    server.sent.clear()
    await alice.m.after_history_sync()
    assert keys(m for m, _ in server.sent) == [(NEW, "bob@x.org", bobs[1].dev)], keys(m for m, _ in server.sent)
""")

bug("c10-deferred-without-kex", "C10",
    "a reply due since the catch-up, the session replaced by one of this side before the catch-up ends",
    "Automatic replies never carry key exchange data, also not those through an unconfirmed session of this side.",
    [(SM, """            frozenset({ (encrypted_key_material, (
                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
""", """            frozenset({ (encrypted_key_material, None) })
""")],
    """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    for m in (await bob.say(alice))[0]:
        await alice.m.decrypt(m)
    assert not await alice.m.replace_sessions(await alice.info(bob))
    server.sent.clear()
    await alice.m.after_history_sync()
    for m, _ in server.sent:
        for _, kex in m.keys:
            assert kex is not None, "unconfirmed session, but no key exchange data"
""")

bug("c10-kex-for-a-while", "C10",
    "more than twenty messages to a device that has not answered yet",
    "Key exchange data is left out after twenty unanswered messages.",
    [(SM, """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
""", """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        and session.sending_chain_length <= 20
""")],
    """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org").start()
    bob = await Client(server, "bob@x.org").start()
    await alice.learn(bob)
    await bob.learn(alice)
    for _ in range(25):
        last = await alice.say(bob, text=b"anyone?")
    for m in last[0]:
        assert (await bob.m.decrypt(m))[0] == b"anyone?"
""")

bug("c14-empty-list-not-published", "C14",
    "purging a backend whose published device list contains nothing but this device",
    "A list that would become empty is not published, so this device stays listed.",
    [(SM, """            await self._upload_device_list(namespace, device_list)

        # Synchronize""", """            if len(device_list) > 0:
                await self._upload_device_list(namespace, device_list)

        # Synchronize""")],
    """
async def demo():
    server = Server()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    await alice.m.purge_backend(OLD)
    assert server.lists[(OLD, alice.jid)] == {}, server.lists
    assert list(server.lists[(NEW, alice.jid)]) == [alice.dev], server.lists
""")

bug("c19-unchanged-not-stored", "C19",
    "storing a value of another type that compares equal to the stored one (1 and true, 1.0 and 1)",
    "A store of a value equal to the cached one is skipped, although Python considers 1, 1.0 and True equal.",
    [(ST, """        await self._store(key, value)

        if""", """        if self.__cache is not None and self.__cache.get(key, Nothing()).maybe(self) == value:
            return

        await self._store(key, value)

        if""")],
    """
async def demo():
    storage = Mem(disable_cache=False)
    await storage.store("/key", {"a": 1})
    await storage.store("/key", {"a": True})
    assert (await storage.load("/key")).from_just()["a"] is True
    assert storage.data["/key"]["a"] is True
""")

bug("c19-maybe-shared", "C19",
    "the cache, a default given for the absent case, and the caller changing the value in place",
    "A value obtained with a default is not a copy: changing it changes what is loaded later.",
    [(ST, """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)""", """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.__value""")],
    """
async def demo():
    storage = Mem(disable_cache=False)
    await storage.store("/key", [1])
    value = (await storage.load("/key")).maybe(None)
    value.append(2)
    assert (await storage.load("/key")).from_just() == [1]
""")

bug("c24-order-deduplicated", "C24",
    "a backend priority order that names a backend twice",
    "Duplicates are removed from the list that the caller passed.",
    [(SM, """        effective_backend_priority_order = \\
""", """        if backend_priority_order is not None:
            for namespace in available_namespaces:
                while backend_priority_order.count(namespace) > 1:
                    backend_priority_order.reverse()
                    backend_priority_order.remove(namespace)
                    backend_priority_order.reverse()

        effective_backend_priority_order = \\
""")],
    """
async def demo():
    server = Server()
    bob = await Client(server, "bob@x.org", (NEW, OLD)).start()
    alice = await Client(server, "alice@x.org", (NEW, OLD)).start()
    await alice.learn(bob)
    order = [OLD, NEW, OLD]
    messages, _ = await alice.say(bob, backend_priority_order=order)
    assert keys(messages) == [(OLD, bob.jid, bob.dev)], keys(messages)
    assert order == [OLD, NEW, OLD], order
""")
