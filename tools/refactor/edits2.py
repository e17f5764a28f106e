"""Second set of edits that keep the behaviour: concurrency inside, other storage layout, extra reads, split methods."""
from edits import BE, IK, SM, ST

EDITS = [
    # create: backends no longer loaded first
    (SM, """        if loaded_namespaces != active_namespaces:
""", """        if not (loaded_namespaces <= active_namespaces and active_namespaces <= loaded_namespaces):
"""),
    # the own information in one go
    (SM, """        device, _ = await self.get_own_device_information()
        loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
        active_namespaces = device.namespaces
""", """        loaded_namespaces = { backend.namespace for backend in self.__backends }
        active_namespaces = (await self.get_own_device_information())[0].namespaces
"""),
    (SM, """            for namespace in active_namespaces - loaded_namespaces:
                await self.purge_backend(namespace)
""", """            for namespace in sorted(active_namespaces):
                if namespace not in loaded_namespaces:
                    await self.purge_backend(namespace)
"""),
    # purge_bare_jid: backends first queue, then data, per backend
    (SM, """            queued_jids = set((await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]))
            if bare_jid in queued_jids:
                queued_jids.remove(bare_jid)
                await storage.store(f"/queue/{backend.namespace}", list(queued_jids))
""", """            queued_jids = (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([])
            await storage.store(f"/queue/{backend.namespace}", [ jid for jid in queued_jids if jid != bare_jid ])
"""),
    (SM, """        identity_keys: Set[bytes] = set()
        for device_id in device_list:
            try:
                identity_keys.add((await storage.load_bytes(
                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
            except NothingException:
                pass
""", """        maybe_identity_keys = [
            (await storage.load_bytes(f"/devices/{bare_jid}/{device_id}/identity_key")).maybe(None)
            for device_id in sorted(device_list)
        ]
        identity_keys = { identity_key for identity_key in maybe_identity_keys if identity_key is not None }
"""),
    # rotation: early continue
    (SM, """                if next_rotation < 0:
                    logging""", """                overdue = signed_pre_key_age > signed_pre_key_rotation_period
                if overdue:
                    logging"""),
    (SM, """            next_check += 60
""", """            next_check = next_check + 30 + 30
"""),
    # consistency: lists first, then the bundles
    (SM, """            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)

            upload_bundle = False
            try:
                remote_bundle""", """            upload_bundle = False
            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
            try:
                remote_bundle"""),
    # device lists: always store everything about known devices, relevant or not
    (SM, """                if namespace not in active or active[namespace] is False:
                    active[namespace] = True
                    await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
""", """                await storage.store(f"/devices/{bare_jid}/{device_id}/active", { **active, namespace: True })
"""),
    (SM, """                if device_list[device_id] is not None and device_list[device_id] != label:
                    await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
""", """                new_label = device_list[device_id]
                await storage.store(
                    f"/devices/{bare_jid}/{device_id}/label",
                    label if new_label is None else new_label
                )
"""),
    (SM, """                if namespace not in namespaces:
                    namespaces.add(namespace)
                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
            else:
""", """                namespaces.add(namespace)
                await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", sorted(namespaces))
            else:
"""),
    (SM, """        await self.update_device_list(
            namespace,
            bare_jid,
            await self._download_device_list(namespace, bare_jid)
        )
""", """        device_list = await self._download_device_list(namespace, bare_jid)
        await self.update_device_list(namespace, bare_jid, device_list)
"""),
    # information: helper
    (SM, """                        identity_key = bundle.identity_key

                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break
""", """                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            bundle.identity_key
                        )
                        identity_key = bundle.identity_key
                        break
"""),
    # sending chain lengths and labels
    (SM, """        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
""", """        # Store the new label
        label_key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label"
        if (await self.__storage.load_optional(label_key, str)).maybe(None) != own_label:
            await self.__storage.store(label_key, own_label)
"""),
    # queues: one dictionary per backend; end of catch-up split
    (SM, """        # Delete pre keys that were hidden while in history synchronization mode
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""", """        # Delete pre keys that were hidden while in history synchronization mode
        for index in range(len(self.__backends)):
            await self.__backends[index].delete_hidden_pre_keys()
"""),
    (SM, """                for device_id in queued_device_ids:
                    session = await backend.load_session(bare_jid, device_id)
                    if session is None:
""", """                sessions_of_jid = [
                    (device_id, await backend.load_session(bare_jid, device_id))
                    for device_id in sorted(queued_device_ids)
                ]
                for device_id, session in sessions_of_jid:
                    if session is None:
"""),
    # empty messages
    (SM, """        content, plain_key_material = await backend.encrypt_empty()
        encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)

        # Persist""", """        content, plain_key_material = await backend.encrypt_empty()
        needs_key_exchange = not session.confirmed and session.initiation is Initiation.ACTIVE
        encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)

        # Persist"""),
    (SM, """            frozenset({ (encrypted_key_material, (
                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
""", """            frozenset({ (encrypted_key_material, session.key_exchange if needs_key_exchange else None) })
"""),
    # encryption: device information at the same time; trust evaluated once per device
    (SM, """        tmp = frozenset([ await self.__get_device_information(bare_jid) for bare_jid in bare_jids ])
""", """        tmp = [ await self.__get_device_information(bare_jid) for bare_jid in sorted(bare_jids, reverse=True) ]
"""),
    (SM, """        # Keep only trusted devices
        devices = {
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
""", """        # Keep only trusted devices
        for device in list(devices):
            if (await self._evaluate_custom_trust_level(device)) is not TrustLevel.TRUSTED:
                devices.discard(device)
"""),
    (SM, """            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
""", """            updated_devices: Set[DeviceInformation] = set()
            for device in devices:
                trust_key = "/trust/" + device.bare_jid + "/" + base64.urlsafe_b64encode(device.identity_key).decode("ASCII")
                level = await self.__storage.load_primitive(trust_key, str)
                updated_devices.add(device._replace(
                    trust_level_name=level.from_just() if level.is_just else self.__undecided_trust_level_name
                ))
            devices = updated_devices
"""),
    (SM, """            backend_devices = frozenset(
                device for device in devices if next(iter(device.namespaces)) == backend.namespace
            )
""", """            backend_devices = [ device for device in devices if backend.namespace in device.namespaces ]
"""),
    (SM, """        for backend, session in sessions:
""", """        for backend, session in sorted(sessions, key=lambda s: (s[0].namespace, s[1].bare_jid, s[1].device_id)):
"""),
    # decryption
    (SM, """        plaintext = None if message.content.empty else await backend.decrypt_plaintext(
            message.content,
            plain_key_material
        )
""", """        plaintext: Optional[bytes] = None
        if not message.content.empty:
            plaintext = await backend.decrypt_plaintext(message.content, plain_key_material)
"""),
    (SM, """            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is None:
                raise NoSession(""", """            session = await backend.load_session(bare_jid=device.bare_jid, device_id=device.device_id)
            if session is None:
                raise NoSession("""),
    (SM, """                queued_jids = set((await storage.load_list(f"/queue/{session.namespace}", str)).maybe([]))

                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))

                # Add this device id to the queue
                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""", """                queue_key = f"/queue/{session.namespace}"
                device_ids = (await storage.load_list(f"{queue_key}/{session.bare_jid}", int)).maybe([])
                if session.device_id not in device_ids:
                    device_ids.append(session.device_id)
                    await storage.store(f"{queue_key}/{session.bare_jid}", device_ids)

                jids = (await storage.load_list(queue_key, str)).maybe([])
                if session.bare_jid not in jids:
                    await storage.store(queue_key, [ *jids, session.bare_jid ])
"""),
    (SM, """        devices = await self.get_device_information(message.bare_jid)
        device = next(filter(lambda device: device.device_id == message.device_id, devices), None)
        if device is None:
            logging""", """        device: Optional[DeviceInformation] = None
        for candidate in await self.get_device_information(message.bare_jid):
            if candidate.device_id == message.device_id:
                device = candidate
        if device is None:
            logging"""),
    # storage
    (ST, """        if self.__cache is not None and key in self.__cache:
            return self.__cache[key]

        value = await self._load(key)
        if self.__cache is not None:
            # The value could have been stored or deleted while it was being loaded. Never overwrite the newer
            # cached value with the outdated loaded one.
            return self.__cache.setdefault(key, value)
        return value
""", """        cache = self.__cache
        if cache is None:
            return await self._load(key)

        if key not in cache:
            value = await self._load(key)
            if key not in cache:
                cache[key] = value

        return cache[key]
"""),
    (ST, """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)""", """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.from_just()"""),
    (ST, """    def fmap(self, function: Callable[[ValueTypeT], MappedValueTypeT]) -> "Just[MappedValueTypeT]":
        return Just(function(copy.deepcopy(self.__value)))""", """    def fmap(self, function: Callable[[ValueTypeT], MappedValueTypeT]) -> "Just[MappedValueTypeT]":
        mapped = function(self.from_just())
        return Just(mapped)"""),
    # identity key pair
    (IK, """            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()
            key = (await storage.load_bytes("/ikp/key")).from_just()
""", """            key = (await storage.load_bytes("/ikp/key")).from_just()
            is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()
"""),
    (IK, "        return IdentityKeyPairSeed(key) if is_seed else IdentityKeyPairPriv(key)", """        if not is_seed:
            return IdentityKeyPairPriv(key)
        return IdentityKeyPairSeed(key)"""),
    # limits
    (BE, """        if max_num_per_message_skipped_keys == 0 and max_num_per_session_skipped_keys != 0:
            raise ValueError(
                "The number of allowed""", """        if max_num_per_session_skipped_keys and max_num_per_message_skipped_keys == 0:
            raise ValueError(
                "The number of allowed"""),
]
