"""Edits that keep the behaviour, written as someone tidying up might: the checks must stay quiet with all of them."""
SM = "omemo/session_manager.py"
ST = "omemo/storage.py"
IK = "omemo/identity_key_pair.py"
BE = "omemo/backend.py"

EDITS = [
    # create: loops instead of generators, other order of what gets stored, helper for the keys
    (SM, """            device_ids = cast(FrozenSet[int], frozenset()).union(*[
                frozenset((await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys())
                for backend
                in self.__backends
            ])
""", """            device_ids: Set[int] = set()
            for backend in reversed(self.__backends):
                device_ids |= set(await self._download_device_list(backend.namespace, self.__own_bare_jid))
"""),
    (SM, """            self.__own_device_id = next(filter(
                lambda device_id: device_id not in device_ids,
                (
                    secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN
                    for _
                    in itertools.count()
                )
            ))
""", """            while True:
                self.__own_device_id = cls.DEVICE_ID_MIN + secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN)
                if self.__own_device_id not in device_ids:
                    break
"""),
    (SM, """            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces", [])

            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active", {})

            await storage.store(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                initial_own_label
            )

            await storage.store_bytes(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/identity_key",
                self.__identity_key_pair.identity_key
            )
""", """            prefix = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}"
            await storage.store_bytes(f"{prefix}/identity_key", self.__identity_key_pair.identity_key)
            await storage.store(f"{prefix}/label", initial_own_label)
            await storage.store(f"{prefix}/active", {})
            await storage.store(f"{prefix}/namespaces", [])
"""),
    (SM, """            for backend in self.__backends:
                if backend.namespace not in active_namespaces:
                    # Refill pre keys if necessary
                    num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate_pre_keys(100 - num_visible_pre_keys)

                    # Publish""", """            for backend in reversed(self.__backends):
                if backend.namespace not in active_namespaces:
                    await self.__refill_pre_keys(backend)

                    # Publish"""),
    (SM, """    async def purge_backend(self, namespace: str) -> None:
""", """    async def __refill_pre_keys(self, backend: Backend) -> None:
        missing = 100 - await backend.get_num_visible_pre_keys()
        if missing >= 100 - self.__pre_key_refill_threshold:
            await backend.generate_pre_keys(missing)

    def __key(self, bare_jid: str, device_id: int, field: str) -> str:
        return "/".join(("/devices", bare_jid, str(device_id), field))

    async def purge_backend(self, namespace: str) -> None:
"""),
    (SM, """            if bundle_changed:
                num_visible_pre_keys = await backend.get_num_visible_pre_keys()
                if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)

                bundle""", """            if bundle_changed:
                await self.__refill_pre_keys(backend)

                bundle"""),
    # purge_backend
    (SM, """        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)

        # Synchronize the offline device list with the online information
        device, _ = await self.get_own_device_information()
        active = dict(device.active)
        active.pop(namespace, None)
        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))
        device = device._replace(active=frozenset(active.items()))

        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
            dict(device.active)
        )

        await self.__storage.store(
            f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
            list(device.namespaces)
        )
""", """        if self.__own_device_id in device_list:
            await self._upload_device_list(namespace, {
                device_id: label for device_id, label in device_list.items() if device_id != self.__own_device_id
            })

        device, _ = await self.get_own_device_information()
        remaining = sorted(device.namespaces - { namespace })
        await self.__storage.store(self.__key(self.__own_bare_jid, self.__own_device_id, "namespaces"), remaining)
        await self.__storage.store(
            self.__key(self.__own_bare_jid, self.__own_device_id, "active"),
            { ns: is_active for ns, is_active in device.active if ns != namespace }
        )
"""),
    (SM, """            self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))

        # Second""", """            self.__backends = [ other for other in self.__backends if other is not purged_backend ]

        # Second"""),
    # purge_bare_jid
    (SM, """        for device_id in device_list:
            await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/active")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/label")
            await storage.delete(f"/devices/{bare_jid}/{device_id}/identity_key")
""", """        for field in ("label", "active", "namespaces", "identity_key"):
            for device_id in sorted(device_list):
                await storage.delete(self.__key(bare_jid, device_id, field))
"""),
    # rotation
    (SM, """                    retry_delay = 60  # Start with one minute of retry delay
                    while True:
                        try:""", """                    for attempt in itertools.count():
                        try:"""),
    (SM, """                            await async_sleep(retry_delay)
                            retry_delay *= 2  # Double the retry delay
                            retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour
""", """                            await async_sleep(60 * min(2 ** min(attempt, 10), 60))
"""),
    # consistency
    (SM, """            upload_bundle = False
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
            else:
                upload_bundle = remote_bundle != local_bundle

            if upload_bundle:
""", """            remote_bundle: Optional[Bundle]
            try:
                remote_bundle = await self._download_bundle(
                    backend.namespace,
                    self.__own_bare_jid,
                    self.__own_device_id
                )
            except BundleNotFound:
                remote_bundle = None
            except BundleDownloadFailed:
                remote_bundle = None

            if remote_bundle is None or not remote_bundle == local_bundle:
"""),
    # device lists
    (SM, """        if namespace not in frozenset(backend.namespace for backend in self.__backends):
            raise UnknownNamespace(f""", """        if all(namespace != backend.namespace for backend in self.__backends):
            raise UnknownNamespace(f"""),
    (SM, """            bare_jid == self.__own_bare_jid
            and namespace in frozenset(backend.namespace for backend in self.__backends)
            and""", """            bare_jid == self.__own_bare_jid
            and"""),
    (SM, """        for device_id in new_devices:
            await storage.store(f"/devices/{bare_jid}/{device_id}/active", { namespace: True })
            await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
            await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", [ namespace ])
""", """        for device_id in sorted(new_devices, reverse=True):
            await storage.store(self.__key(bare_jid, device_id, "namespaces"), [ namespace ])
            await storage.store(self.__key(bare_jid, device_id, "label"), device_list[device_id])
            await storage.store(self.__key(bare_jid, device_id, "active"), { namespace: True })
"""),
    (SM, """                # Update the status if required
                if namespace in namespaces:
                    if active[namespace] is True:
                        active[namespace] = False
                        await""", """                # Update the status if required
                if namespace in namespaces:
                    if active[namespace]:
                        active = { **active, namespace: False }
                        await"""),
    (SM, """        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, bare_jid)
""", """        namespaces = [ backend.namespace for backend in self.__backends ]
        while len(namespaces) > 0:
            await self.refresh_device_list(namespaces.pop(), bare_jid)
"""),
    # information
    (SM, """                for namespace in namespaces:
                    try:
                        bundle =""", """                for namespace in sorted(namespaces):
                    try:
                        bundle ="""),
    (SM, """        all_own_devices = await self.get_device_information(self.__own_bare_jid)
        other_own_devices = frozenset(filter(
            lambda dev: dev.device_id != self.__own_device_id,
            all_own_devices
        ))

        return next(iter(all_own_devices - other_own_devices)), other_own_devices
""", """        own_devices = { dev.device_id: dev for dev in await self.get_device_information(self.__own_bare_jid) }
        this_device = own_devices.pop(self.__own_device_id)
        return this_device, frozenset(own_devices.values())
"""),
    (SM, """        return [ ik_hex_string[i:i + group_size] for i in range(0, len(ik_hex_string), group_size) ]
""", """        return list(map("".join, zip(*[ iter(ik_hex_string) ] * group_size)))
"""),
    # replacing sessions
    (SM, """        device = next(filter(
            lambda dev: dev.device_id == device.device_id,
            await self.get_device_information(device.bare_jid)
        ))

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Device information from storage: {device}")

        # Remove namespaces that correspond to backends which are not currently loaded or backends which have
        # no session for this device.
        device = device._replace(namespaces=(device.namespaces & frozenset({
            backend.namespace
            for backend
            in self.__backends
            if await backend.load_session(device.bare_jid, device.device_id) is not None
        })))
""", """        known = await self.get_device_information(device.bare_jid)
        device = next(dev for dev in known if dev.device_id == device.device_id)

        with_session: Set[str] = set()
        for backend in self.__backends:
            if (await backend.load_session(device.bare_jid, device.device_id)) is not None:
                with_session.add(backend.namespace)

        device = device._replace(namespaces=frozenset(with_session & device.namespaces))
"""),
    (SM, """                    # Prepare an empty message
                    content, plain_key_material = await backend.encrypt_empty()

                    # Only use bundles that belong to the identity key known for the device
                    bundle""", """                    # Only use bundles that belong to the identity key known for the device
                    bundle"""),
    (SM, """                    # Build a new session to replace the old one
                    session, encrypted""", """                    # Prepare an empty message
                    content, plain_key_material = await backend.encrypt_empty()

                    # Build a new session to replace the old one
                    session, encrypted"""),
    # end of catch-up
    (SM, """        # Delete pre keys that were hidden while in history synchronization mode
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()

        # Send empty messages that were queued while in history synchronization mode. A message that can't be
        # sent doesn't keep the others from being sent, and messages are removed from the queues only after
        # sending, such that interrupting this loop doesn't lose messages.
        sending_failed: Optional[MessageSendingFailed] = None
        for backend in self.__backends:
""", """        sending_failed: Optional[MessageSendingFailed] = None
        for backend in self.__backends[::-1]:
            # Delete pre keys that were hidden while in history synchronization mode
            await backend.delete_hidden_pre_keys()

            # Send empty messages that were queued while in history synchronization mode
"""),
    (SM, """                for device_id in queued_device_ids:
                    session =""", """                for device_id in sorted(queued_device_ids, reverse=True):
                    session ="""),
    # encryption
    (SM, """        if backend_priority_order is not None:
            unavailable_namespaces = frozenset(backend_priority_order) - frozenset(available_namespaces)
            if len(unavailable_namespaces) > 0:
                raise""", """        if backend_priority_order is not None:
            unavailable_namespaces = [ ns for ns in backend_priority_order if ns not in available_namespaces ]
            if unavailable_namespaces:
                raise"""),
    (SM, """        tmp = frozenset([ await self.__get_device_information(bare_jid) for bare_jid in bare_jids ])

        devices = cast(Set[DeviceInformation], set()).union(*(devices for devices, _ in tmp))
        devices = set(filter(is_valid_recipient_device, devices))

        bundle_cache = cast(FrozenSet[Bundle], frozenset()).union(*(bundle_cache for _, bundle_cache in tmp))
""", """        devices: Set[DeviceInformation] = set()
        bundle_cache: List[Bundle] = []
        for bare_jid in sorted(bare_jids):
            jid_devices, jid_bundles = await self.__get_device_information(bare_jid)
            devices |= { device for device in jid_devices if is_valid_recipient_device(device) }
            bundle_cache.extend(jid_bundles)
"""),
    (SM, """            return device._replace(namespaces=frozenset(sorted((
                namespace
                for namespace
                in device.namespaces
                if dict(device.active)[namespace] and namespace in backend_priority_order
            ), key=backend_priority_order.index)[0:1]))
""", """            active = dict(device.active)
            for namespace in backend_priority_order:
                if namespace in device.namespaces and active[namespace]:
                    return device._replace(namespaces=frozenset({ namespace }))

            return device._replace(namespaces=frozenset())
"""),
    (SM, """        sessions: Set[Tuple[Backend, Session]] = set()
""", """        sessions: List[Tuple[Backend, Session]] = []
"""),
    (SM, "sessions.add((backend, session))", "sessions.append((backend, session))"),
    (SM, """            for device in backend_devices:
                # Attempt""", """            for device in sorted(backend_devices, key=lambda device: (device.bare_jid, -device.device_id)):
                # Attempt"""),
    (SM, """        for backend in self.__backends:
            # Find the devices to encrypt for using this backend""", """        for backend in reversed(self.__backends):
            # Find the devices to encrypt for using this backend"""),
    (SM, """        no_eligible_devices = frozenset(filter(
            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
            bare_jids
        )) - frozenset({ self.__own_bare_jid })
""", """        no_eligible_devices = bare_jids - { self.__own_bare_jid } - { device.bare_jid for device in devices }
"""),
    # decryption
    (SM, """        try:
            encrypted_key_material, key_exchange = next(filter(
                lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,
                message.keys
            ))
        except StopIteration:
            # pylint: disable=raise-missing-from
            raise""", """        for encrypted_key_material, key_exchange in message.keys:
            if (encrypted_key_material.bare_jid, encrypted_key_material.device_id) == (
                self.__own_bare_jid,
                self.__own_device_id
            ):
                break
        else:
            raise"""),
    (SM, """            session, plain_key_material = await backend.build_session_passive(
                device.bare_jid,
                device.device_id,
                key_exchange,
                encrypted_key_material
            ) if session is None else (session, await backend.decrypt_key_material(
                session,
                encrypted_key_material
            ))

            # If an existing session is used, and the session was built through active session initiation, it
            # should now be flagged as confirmed.
            return session, plain_key_material
""", """            if session is not None:
                return session, await backend.decrypt_key_material(session, encrypted_key_material)

            return await backend.build_session_passive(
                device.bare_jid,
                device.device_id,
                key_exchange,
                encrypted_key_material
            )
"""),
    (SM, """                # Add this bare JID to the queue
                queued_jids = set((await storage.load_list(f"/queue/{session.namespace}", str)).maybe([]))

                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))

                # Add this device id to the queue
                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""", """                await self.__enqueue(f"/queue/{session.namespace}", session.bare_jid, str)
                await self.__enqueue(f"/queue/{session.namespace}/{session.bare_jid}", session.device_id, int)
"""),
    (SM, """    async def __send_empty_message(self""", """    async def __enqueue(self, key, entry, entry_type):  # type: ignore
        entries = (await self.__storage.load_list(key, entry_type)).maybe([])
        if entry not in entries:
            await self.__storage.store(key, sorted(entries + [ entry ]))

    async def __send_empty_message(self"""),
    # storage
    (ST, """        if self.__cache is not None and key in self.__cache:
            return self.__cache[key]

        value = await self._load(key)
        if self.__cache is not None:
            # The value could have been stored or deleted while it was being loaded. Never overwrite the newer
            # cached value with the outdated loaded one.
            return self.__cache.setdefault(key, value)
        return value
""", """        if self.__cache is None:
            return await self._load(key)

        if key not in self.__cache:
            value = await self._load(key)
            if key not in self.__cache:
                self.__cache[key] = value

        return self.__cache[key]
"""),
    (ST, """            if isinstance(value, primitive):
                return value
            raise TypeError(f"The value stored for key {key} is not a {primitive}: {value}")

        return (await self.load(key)).fmap(check_type)

    async def load_bytes""", """            if not isinstance(value, primitive):
                raise TypeError(f"The value stored for key {key} is not a {primitive}: {value}")
            return value

        loaded = await self.load(key)
        return loaded.fmap(check_type) if loaded.is_just else Nothing()

    async def load_bytes"""),
    (ST, """        self.__value = copy.deepcopy(value)
""", """        self.__value = value if value is None or isinstance(value, (str, int, bytes)) else copy.deepcopy(value)
"""),
    (IK, """        except NothingException:
            # If there's no private key in storage, generate and store a new seed
""", """        except NothingException as _:
            # If there's no private key in storage, generate and store a new seed
"""),
]
