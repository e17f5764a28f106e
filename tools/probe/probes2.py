"""Second series: several steps, two sites, or an unusual situation needed."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

FIRST = list(PROBES)

probe("d01-memo-trust", "C01 C16", (SM, """            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)
""", """            if not hasattr(self, "_memo"):
                self._memo = {}
            if (bare_jid, identity_key) not in self._memo or self._memo[bare_jid, identity_key] == self.__undecided_trust_level_name:
                self._memo[bare_jid, identity_key] = (await storage.load_primitive(
                    f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                    str
                )).maybe(self.__undecided_trust_level_name)
            trust_level_name = self._memo[bare_jid, identity_key]
"""))
probe("d01-cached-bundle-of-account", "C01 C02", (SM, """                    and bundle.bare_jid == device.bare_jid
                    and bundle.device_id == device.device_id
""", """                    and bundle.bare_jid == device.bare_jid
"""), (SM, """                        if bundle.identity_key != device.identity_key:
                            raise KeyExchangeFailed(
                                "The identity key in the bundle does not match the identity key known for"
""", """                        if bundle not in bundle_cache and bundle.identity_key != device.identity_key:
                            raise KeyExchangeFailed(
                                "The identity key in the bundle does not match the identity key known for"
"""))
probe("d01-cached-bundle-no-account", "C02", (SM, """                    and bundle.bare_jid == device.bare_jid
                    and bundle.device_id == device.device_id
""", """                    and bundle.device_id == device.device_id
"""))
probe("d01-ask-outside-order", "C01", (SM, """            if len(namespaces_active & frozenset(effective_backend_priority_order)) == 0:
                return False
""", """            if len(namespaces_active & frozenset(available_namespaces)) == 0:
                return False
"""), (SM, """        # Remove devices that are not covered by the effective backend priority list
        devices = { device for device in devices if len(device.namespaces) > 0 }
""", """        uncovered = { device for device in devices if len(device.namespaces) == 0 }
"""), (SM, """        # Keep only trusted devices
        devices = {
            device for device in devices
            if""", """        # Keep only trusted devices
        devices = {
            device for device in devices
            if len(device.namespaces) > 0 and"""))
probe("d02-dedupe-key", "C02", (SM, """        logging.getLogger(SessionManager.LOG_TAG).debug(f"Trusted devices: {devices}")
""", """        devices = set({ (d.bare_jid, d.identity_key): d for d in devices }.values())
"""))
probe("d02-unloaded-namespace-of-device", "C02", (SM, """                if dict(device.active)[namespace] and namespace in backend_priority_order
""", """                if dict(device.active)[namespace] and all(
                    ns in available_namespaces for ns in device.namespaces
                ) and namespace in backend_priority_order
"""))
probe("d03-empty-text", "C03", (SM, "        return (plaintext, device, plain_key_material)", "        return (plaintext or None, device, plain_key_material)"))
probe("d03-active-same", "C03", (SM, """                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):""", """                if session.key_exchange.builds_same_session(key_exchange) or (
                    session.initiation is Initiation.ACTIVE and not session.confirmed
                ):"""))
probe("d03-confirmed-keeps", "C03 C04", (SM, """                if (
                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):""", """                if session.initiation is Initiation.PASSIVE and (
                    session.key_exchange.builds_same_session(key_exchange)
                    or session.sending_chain_length is not None and session.receiving_chain_length == 1
                ):"""))
probe("d04-refresh-if-none", "C04", (SM, """        if device is None:
            logging.getLogger(SessionManager.LOG_TAG).warning(
                "Sender device is not known, triggering""", """        if device is None and len(devices) > 0 and message.bare_jid != self.__own_bare_jid:
            raise SenderNotFound("unknown device of a known account")
        if device is None:
            logging.getLogger(SessionManager.LOG_TAG).warning(
                "Sender device is not known, triggering"""))
probe("d04-kex-ik-only-new", "C04", (SM, """            # Check whether the identity key matches the one we know
            if key_exchange.identity_key != device.identity_key:""", """            # Check whether the identity key matches the one we know
            if (
                key_exchange.identity_key != device.identity_key
                and await backend.load_session(device.bare_jid, device.device_id) is None
            ):"""))
probe("d04-inactive-refused", "C04", (SM, """        # Check the trust level of the sending device. Abort in case of explicit distrust.
""", """        if not dict(device.active).get(message.namespace, False):
            raise SenderNotFound("inactive")
        # Check the trust level of the sending device. Abort in case of explicit distrust.
"""))
probe("d05-store-on-failure", "C05", (SM, """            plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)

            return session, plain_key_material
""", """            try:
                plain_key_material = await backend.decrypt_key_material(session, encrypted_key_material)
            finally:
                if session.receiving_chain_length is not None and session.receiving_chain_length > 2:
                    await backend.store_session(session)

            return session, plain_key_material
"""))
probe("d05-new-sessions-early", "C05", (SM, """                            plain_key_material
                        )
                    else:
                        encrypted_key_material = await backend.encrypt_key_material(""", """                            plain_key_material
                        )
                        await backend.store_session(session)
                    else:
                        encrypted_key_material = await backend.encrypt_key_material("""))
probe("d06-lookup-active-only", "C06", (SM, """                for namespace in namespaces:
                    try:
                        bundle =""", """                listed = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just()
                for namespace in [ ns for ns in namespaces if listed.get(ns) ]:
                    try:
                        bundle ="""))
probe("d06-empty-list-ignored", "C06", (SM, """        for device_id in sorted(old_device_list, key""", """        for device_id in sorted(old_device_list if new_device_list else [], key"""))
probe("d06-last-active", "C06", (SM, """                    if active[namespace] is True:
                        active""", """                    if active[namespace] is True and sum(active.values()) != 1 or bare_jid != self.__own_bare_jid:
                        active"""))
probe("d06-label-once", "C06", (SM, """                if device_list[device_id] is not None and device_list[device_id] != label:""", """                if device_list[device_id] is not None and (label is None or namespace == sorted(namespaces)[0]) and device_list[device_id] != label:"""))
probe("d06-new-label-none-kept", "C06", (SM, """            await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
            await storage""", """            await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id] or None)
            await storage"""))
probe("d06-memo-info", "C06 C16", (SM, """        # Do not expose the bundle cache publicly.
        return (await self.__get_device_information(bare_jid))[0]
""", """        if not hasattr(self, "_memo"):
            self._memo = {}
        key = (bare_jid, str([
            (await self.__storage.load(f"/devices/{bare_jid}/list")).maybe(None),
            [ (await self.__storage.load(f"/devices/{bare_jid}/{d}/active")).maybe(None)
              for d in (await self.__storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]) ],
        ]))
        if key not in self._memo or bare_jid == self.__own_bare_jid or not self._memo[key]:
            self._memo[key] = (await self.__get_device_information(bare_jid))[0]
        return self._memo[key]
"""))
probe("d07-readd-initial-label", "C07", (SM, """        self.__own_bare_jid = own_bare_jid
        self.__und""", """        self.__own_bare_jid = own_bare_jid
        self._initial = initial_own_label
        self.__und"""), (SM, """            )).from_just()
            await self._upload_device_list(namespace, device_list)
""", """            )).maybe(None) if hasattr(self, "_labelled") else self._initial
            await self._upload_device_list(namespace, device_list)
"""), (SM, """        # Store the new label
""", """        self._labelled = True
        # Store the new label
"""))
probe("d07-one-backend-label", "C07", (SM, """            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""", """            if device_list.get(self.__own_device_id, own_label) == own_label and self.__own_device_id in device_list:
                break
            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
"""))
probe("d09-not-synchronizing", "C09", (SM, """        self.__synchronizing = True

        try:
            self.__own""", """        self.__synchronizing = not (await storage.load("/queue/" + backends[-1].namespace)).maybe([])

        try:
            self.__own"""))
probe("d09-deferred-only-first", "C09", (SM, """                queued_device_ids.add(session.device_id)
""", """                if len(queued_device_ids) < 2:
                    queued_device_ids.add(session.device_id)
"""))
probe("d09-hidden-at-start", "C09", (SM, """        self.__synchronizing = True

    async""", """        if not self.__synchronizing:
            self._fresh = True
        self.__synchronizing = True

    async"""), (SM, """            if self.__synchronizing:
                # If the library is currently in history synchronization mode, hide""", """            if self.__synchronizing and not getattr(self, "_fresh", False):
                # If the library is currently in history synchronization mode, hide"""))
probe("d10-reply-other-session", "C10", (SM, """                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
""", """                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
                if len(queued := (await storage.load_list(f"/queue/{session.namespace}", str)).maybe([])) > 0:
                    await storage.delete(f"/queue/{session.namespace}")
"""))
probe("d10-stale-once", "C10", (SM, """            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
""", """            or (session.receiving_chain_length or 0) == self.__class__.STALENESS_MAGIC_NUMBER + 1
"""))
probe("d11-mismatch-stored", "C11", (SM, """                    if bundle.identity_key != device.identity_key:
                        raise KeyExchangeFailed(
                            "The identity key in the bundle does not match the identity key known for the\"""", """                    if bundle.identity_key != device.identity_key and device.bare_jid != self.__own_bare_jid:
                        raise KeyExchangeFailed(
                            "The identity key in the bundle does not match the identity key known for the\""""))
probe("d11-inactive-skipped", "C11", (SM, """        device = device._replace(namespaces=(device.namespaces & frozenset({""", """        device = device._replace(namespaces=(frozenset(n for n, a in device.active if a) & frozenset({"""))
probe("d12-one-removed", "C12 C14", (SM, """            for namespace in active_namespaces - loaded_namespaces:
                await self.purge_backend(namespace)
""", """            for namespace in sorted(active_namespaces - loaded_namespaces)[:1]:
                await self.purge_backend(namespace)
"""))
probe("d12-size-compare", "C12", (SM, "        if loaded_namespaces != active_namespaces:", "        if len(loaded_namespaces) != len(active_namespaces):"))
probe("d12-superset", "C12", (SM, "        if loaded_namespaces != active_namespaces:", "        if not loaded_namespaces <= active_namespaces:"))
probe("d13-own-namespaces-first", "C13", (SM, "key=lambda device_id: device_id == self.__own_device_id)", "key=lambda device_id: device_id != self.__own_device_id)"))
probe("d13-purge-local-first", "C13", (SM, """        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)

""", ""), (SM, """        # Second half of online data removal""", """        device_list = await self._download_device_list(namespace, self.__own_bare_jid)
        try:
            device_list.pop(self.__own_device_id)
        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)

        # Second half of online data removal"""))
probe("d13-label-if-changed", "C13", (SM, """        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
""", """        # Store the new label
        key = f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label"
        if (await self.__storage.load(key)).maybe(None) == own_label and own_label is not None:
            return
        await self.__storage.store(key, own_label)
"""))
probe("d13-active-last", "C13", (SM, """                    active[namespace] = True
                    await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)

                # Update the label""", """                    active[namespace] = True
                    new_active = dict(active)

                # Update the label"""), (SM, """                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
            else:""", """                    await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", list(namespaces))
                await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
            else:"""))
probe("d14-other-devices", "C14", (SM, """        purged_backend = next(filter(""", """        for other_id in (await self.__storage.load_list(f"/devices/{self.__own_bare_jid}/list", int)).maybe([]):
            key = f"/devices/{self.__own_bare_jid}/{other_id}/active"
            other_active = (await self.__storage.load_dict(key, bool)).maybe({})
            if namespace in other_active and other_id != self.__own_device_id:
                await self.__storage.store(key, { **other_active, namespace: False })

        purged_backend = next(filter("""))
probe("d15-unknown-key-skipped", "C15", (SM, """        # Delete information about the individual devices
        for device_id in device_list:
""", """        # Delete information about the individual devices
        for device_id in device_list:
            if (await storage.load_bytes(f"/devices/{bare_jid}/{device_id}/identity_key")).is_nothing:
                continue
"""))
probe("d15-queue-both", "C15", (SM, """            if bare_jid in queued_jids:
                queued_jids.remove(bare_jid)
                await""", """            if bare_jid in queued_jids:
                queued_jids = set(filter(lambda jid: not jid.startswith(bare_jid), queued_jids))
                await"""))
probe("d16-b64", "C16 C01", (SM, """                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }""", """                f"/trust/{device.bare_jid}/{base64.b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(device.trust_level_name)) for device in devices }"""))
probe("d17-delay-kept", "C17", (SM, """                    retry_delay = 60  # Start with one minute of retry delay
""", ""), (SM, """        while True:
            # Keep track of when""", """        retry_delay = 60  # Start with one minute of retry delay
        while True:
            # Keep track of when"""))
probe("d17-ages-first", "C17", (SM, """            # For each backend, check whether""", """            ages = { backend: await backend.signed_pre_key_age() for backend in self.__backends }

            # For each backend, check whether"""), (SM, "                signed_pre_key_age = await backend.signed_pre_key_age()\n", "                signed_pre_key_age = ages[backend]\n"))
probe("d17-one-per-check", "C17", (SM, """                    # Rotate the signed pre if necessary
                    await""", """                    # Rotate the signed pre if necessary
                    if next_check == 0:
                        continue
                    next_check = 0
                    await"""))
probe("d17-skip-other", "C17", (SM, """                            # Don't publish the bundle of a backend that was purged in the meantime
                            if backend not in self.__backends:
                                break
""", """                            if backend not in self.__backends:
                                return
"""))
probe("d17-stale-bundle", "C17", (SM, """                    retry_delay = 60  # Start with one minute of retry delay
""", """                    retry_delay = 60  # Start with one minute of retry delay
                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
"""), (SM, """                            await self._upload_bundle(await backend.get_bundle(
                                self.__own_bare_jid,
                                self.__own_device_id
                            ))
                        except""", """                            await self._upload_bundle(bundle)
                        except"""))
probe("d18-only-first-upload", "C18", (SM, """                await self._upload_bundle(local_bundle)

        logging""", """                await self._upload_bundle(local_bundle)
                if backend is not self.__backends[0]:
                    break

        logging"""))
probe("d18-other-backends-bundle", "C18", (SM, "                upload_bundle = remote_bundle != local_bundle\n", "                upload_bundle = remote_bundle != local_bundle and remote_bundle.identity_key == local_bundle.identity_key\n"))
probe("d19-rollback", "C19", (ST, """        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""", """        old = None if self.__cache is None else self.__cache.get(key)
        if self.__cache is not None:
            self.__cache[key] = Just(value)
        try:
            await self._store(key, value)
        except BaseException:
            if self.__cache is not None:
                self.__cache.pop(key)
                if old is not None:
                    self.__cache[key] = old
            raise
"""))
probe("d19-failed-load", "C19", (ST, """        value = await self._load(key)
""", """        try:
            value = await self._load(key)
        except StorageException:
            if self.__cache is not None:
                self.__cache.setdefault(key, Nothing())
            raise
"""))
probe("d19-newer-load", "C19", (ST, "            return self.__cache.setdefault(key, value)", "            if key not in self.__cache or self.__cache[key].is_nothing:\n                self.__cache[key] = value\n            return self.__cache[key]"))
probe("d20-list-first", "C20", (ST, "            if isinstance(value, list) and all(", "            if isinstance(value, list) and len(value) < 4 or all("))
probe("d21-load-failure", "C21", (IK, "        except NothingException:", "        except (NothingException, StorageException):"), (IK, "from .storage import NothingException, Storage", "from .storage import NothingException, Storage, StorageException"))
probe("d21-fingerprint-strip", "C21", (SM, "return [ ik_hex_string[i:i + group_size] for", "ik_hex_string = f\"{int(ik_hex_string, 16):x}\"\n        return [ ik_hex_string[i:i + group_size] for"))
probe("d24-plaintext-defaults", "C24", (SM, """        # Prepare the backend priority order list
""", """        if len(plaintext) > 2 and backend_priority_order is not None:
            for namespace in set(plaintext) - set(backend_priority_order):
                plaintext.pop(namespace)
        # Prepare the backend priority order list
"""))
