"""Third series: overlap, order of rules, partial state, caches with limits."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

probe("e01-update-only-undecided", "C01", (SM, """            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
""", """            devices = { device._replace(trust_level_name=(await self.__storage.load_primitive(
                f"/trust/{device.bare_jid}/{base64.urlsafe_b64encode(device.identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)) if device in undecided_devices else device for device in devices }
"""))
probe("e01-unknown-is-distrusted", "C01 C04", (SM, """        # Keep only trusted devices
        devices = {
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
""", """        # Keep only trusted devices
        trusted_names = set()
        for device in devices:
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED:
                trusted_names.add((device.bare_jid, device.trust_level_name))
        devices = { d for d in devices if any(n == d.trust_level_name for _, n in trusted_names) or len(trusted_names) > 1 and d.bare_jid == self.__own_bare_jid }
"""))
probe("e01-identifier-none", "C01", (SM, "await self._make_trust_decision(undecided_devices, identifier)", "await self._make_trust_decision(undecided_devices, identifier or None)"))
probe("e02-kex-failure-keeps", "C02", (SM, """                    devices.remove(device)
                    encryption_errors""", """                    if not isinstance(e, KeyExchangeFailed):
                        devices.remove(device)
                    encryption_errors"""))
probe("e02-error-namespace", "C02", (SM, """                    encryption_errors.add(EncryptionError(
                        backend.namespace,""", """                    encryption_errors.add(EncryptionError(
                        next(iter(sorted(n for n, a in device.active if a))),"""))
probe("e02-no-eligible-own", "C02", (SM, """        )) - frozenset({ self.__own_bare_jid })

        if len""", """        )) - (frozenset({ self.__own_bare_jid }) if len(bare_jids) > 1 else frozenset())

        if len"""))
probe("e02-inactive-namespace-chosen", "C02", (SM, """                if dict(device.active)[namespace] and namespace in backend_priority_order
""", """                if namespace in backend_priority_order
"""))
probe("e03-plaintext-own", "C03", (SM, "await backend.encrypt_plaintext(plaintext[backend.namespace])", "await backend.encrypt_plaintext(plaintext[backend.namespace] or plaintext[next(iter(plaintext))])"))
probe("e04-not-for-us-first", "C04", (SM, """        # Find the backend to handle this message
        backend""", """        if not any(k.bare_jid == self.__own_bare_jid and k.device_id == self.__own_device_id for k, _ in message.keys):
            raise MessageNotForUs("The message to decrypt does not contain key material for us.")

        # Find the backend to handle this message
        backend"""))
probe("e04-refresh-other-ns", "C04", (SM, "await self.refresh_device_list(message.namespace, message.bare_jid)", "await self.refresh_device_list(self.__backends[0].namespace, message.bare_jid)"))
probe("e04-refresh-all", "C04 C13", (SM, "await self.refresh_device_list(message.namespace, message.bare_jid)", "await self.refresh_device_lists(message.bare_jid)"))
probe("e04-trust-after-kex", "C04", (SM, """            # Check whether the identity key matches the one we know
            if key_exchange.identity_key""", """            # Check whether the identity key matches the one we know
            if device.namespaces and key_exchange.identity_key"""), (SM, """        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if (await""", """        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if key_exchange is not None and key_exchange.identity_key != device.identity_key:
            raise PublicDataInconsistency("mismatch")
        if (await"""))
probe("e05-sessions-attr", "C25 C05", (SM, """        sessions: Set[Tuple[Backend, Session]] = set()
        for backend""", """        self.__used_sessions: Set[Tuple[Backend, Session]] = set()
        for backend"""), (SM, "                    sessions.add((backend, session))", "                    self.__used_sessions.add((backend, session))"),
    (SM, "        for backend, session in sessions:\n", "        for backend, session in self.__used_sessions:\n"))
probe("e05-store-if-new", "C05", (SM, """        # Persist the session following successful decryption
        await backend.store_session(session)
""", """        # Persist the session following successful decryption
        if not message.content.empty or key_exchange is not None or session.confirmed:
            await backend.store_session(session)
"""))
probe("e05-decrypt-reply-unsaved", "C05", (SM, """        # again, even if sending is reported to have failed or the process ends right after sending.
        await backend.store_session(session)
""", """        # again, even if sending is reported to have failed or the process ends right after sending.
        if not session.confirmed or self.__synchronizing is False:
            await backend.store_session(session)
"""))
probe("e06-reactivate-all", "C06", (SM, """                    active[namespace] = True
                    await""", """                    active = { ns: True for ns in active.keys() | { namespace } }
                    await"""))
probe("e06-reactivate-only-own-ns", "C06", (SM, "                if namespace not in active or active[namespace] is False:", "                if namespace not in active or active[namespace] is False and device_list[device_id] is not None or not any(active.values()):"))
probe("e06-new-copy-active", "C06", (SM, "            await storage.store(f\"/devices/{bare_jid}/{device_id}/active\", { namespace: True })", "            await storage.store(f\"/devices/{bare_jid}/{device_id}/active\", { namespace: len(new_devices) < 3 or device_id != max(new_devices) })"))
probe("e06-memo-list", "C06 C25", (SM, "        new_devices = new_device_list - old_device_list\n", "        self.__new = new_devices = new_device_list - old_device_list\n"), (SM, "        for device_id in new_devices:\n", "        for device_id in self.__new:\n"))
probe("e06-ik-key-dev", "C06 C25", (SM, """                        identity_key = bundle.identity_key

                        await""", """                        identity_key = bundle.identity_key
                        if not hasattr(self, "_iks"):
                            self._iks = {}
                        identity_key = self._iks.setdefault((bare_jid, device_id), identity_key)

                        await"""))
probe("e07-label-differs", "C07", (SM, "            and self.__own_device_id not in new_device_list\n", "            and (self.__own_device_id not in new_device_list or len(device_list) > 1 and device_list[self.__own_device_id] == \"\")\n"))
probe("e07-set-if-listed", "C07", (SM, """            device_list[self.__own_device_id] = own_label
            await self._upload""", """            if device_list.get(self.__own_device_id, own_label) == own_label and self.__own_device_id in device_list:
                continue
            device_list[self.__own_device_id] = own_label
            await self._upload"""))
probe("e07-others-labels", "C07", (SM, """            await self._upload_device_list(namespace, device_list)

        # Add new device""", """            await self._upload_device_list(namespace, { d: device_list[d] or None for d in device_list })

        # Add new device"""))
probe("e08-refill-99", "C08", (SM, """                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)
""", """                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys - (1 if self.__synchronizing else 0))
"""))
probe("e08-no-refill-sync", "C08", (SM, "                if num_visible_pre_keys <= self.__pre_key_refill_threshold:\n                    logging", "                if num_visible_pre_keys <= self.__pre_key_refill_threshold and (not self.__synchronizing or num_visible_pre_keys < 50):\n                    logging"))
probe("e08-upload-if-refilled", "C08", (SM, """                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)
""", """                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                if session.receiving_chain_length is not None and session.receiving_chain_length < 3:
                    await self._upload_bundle(bundle)
"""))
probe("e09-flag-last", "C09", (SM, """        self.__synchronizing = False

        # Delete""", """        # Delete"""), (SM, """        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
""", """        self.__synchronizing = False
        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
"""))
probe("e09-hidden-last", "C09", (SM, """        # Delete pre keys that were hidden while in history synchronization mode
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""", ""), (SM, """        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
""", """        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
        logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
"""))
probe("e09-queue-order", "C09", (SM, """                queued_jids.add(session.bare_jid)
                await storage.store(f"/queue/{session.namespace}", list(queued_jids))
""", """                queued_jids.add(session.bare_jid)
                if len(queued_jids) < 3:
                    await storage.store(f"/queue/{session.namespace}", list(queued_jids))
"""))
probe("e09-own-not-queued", "C09", (SM, """                queued_device_ids.add(session.device_id)
""", """                if session.bare_jid != self.__own_bare_jid or not queued_device_ids:
                    queued_device_ids.add(session.device_id)
"""))
probe("e10-stale-only-text", "C10", (SM, "            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER\n", "            or (plaintext is not None and (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER)\n"))
probe("e10-stale-sum", "C10", (SM, "            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER\n", "            or (session.receiving_chain_length or 0) + min(session.sending_chain_length or 0, 0 if session.confirmed else 1) > self.__class__.STALENESS_MAGIC_NUMBER\n"))
probe("e10-empty-kex-active", "C10", (SM, """                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
        ), session.bare_jid)""", """                session.key_exchange
                if not session.confirmed and session.initiation is Initiation.ACTIVE and session.sending_chain_length < 3
                else None
            )) })
        ), session.bare_jid)"""))
probe("e11-chain-active-ns", "C11", (SM, "            if backend.namespace in device.namespaces\n        }", "            if dict(device.active).get(backend.namespace, False)\n        }"))
probe("e11-stop-on-error", "C11", (SM, "                    unsuccessful[backend.namespace] = e\n", "                    unsuccessful[backend.namespace] = e\n                    if isinstance(e, BundleNotFound):\n                        break\n"))
probe("e11-no-kex-if-confirmed", "C11 C10", (SM, "                        frozenset({ (encrypted_key_material, session.key_exchange) })\n", "                        frozenset({ (encrypted_key_material, session.key_exchange if dict(device.active)[backend.namespace] else None) })\n"))
probe("e12-refill-first-only", "C12", (SM, "                        await backend.generate_pre_keys(100 - num_visible_pre_keys)\n\n                    # Publish", "                        await backend.generate_pre_keys(100 - num_visible_pre_keys if not active_namespaces or num_visible_pre_keys else 99)\n\n                    # Publish"))
probe("e12-purge-first-missing", "C12 C13", (SM, "            for namespace in active_namespaces - loaded_namespaces:\n                await self.purge_backend(namespace)", "            for namespace in active_namespaces - loaded_namespaces:\n                if len(loaded_namespaces - active_namespaces) == 0:\n                    await self.purge_backend(namespace)"))
probe("e13-new-after-known", "C13", (SM, """        # If there are unknown devices in the new device list, update the list of known devices. Do this after
        # the information about the new devices was stored to ensure data consistency.
        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
""", ""), (SM, """        # Add new device information entries for new devices
        for""", """        if len(new_devices) > 0:
            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))

        # Add new device information entries for new devices
        for"""))
probe("e13-queue-before-list", "C13", (SM, """        # Delete the device list
        await storage.delete(f"/devices/{bare_jid}/list")

""", ""), (SM, """        # Get the set of devices to delete
        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
""", """        # Get the set of devices to delete
        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
        await storage.delete(f"/devices/{bare_jid}/list")
"""))
probe("e14-delete-bundle-other-id", "C14", (SM, "        await self._delete_bundle(namespace, self.__own_device_id)\n", "        await self._delete_bundle(namespace, device.device_id if device.namespaces else 0)\n"))
probe("e14-label-dropped", "C14", (SM, """            await self._upload_device_list(namespace, device_list)

        # Synchronize""", """            await self._upload_device_list(namespace, { d: l for d, l in device_list.items() if l is not None } or device_list)

        # Synchronize"""))
probe("e15-list-first-break", "C15", (SM, """            except NothingException:
                pass

        # Delete information about the identity""", """            except NothingException:
                break

        # Delete information about the identity"""))
probe("e15-active-kept", "C15", (SM, "            await storage.delete(f\"/devices/{bare_jid}/{device_id}/active\")\n", "            if device_id != max(device_list) or len(device_list) < 3:\n                await storage.delete(f\"/devices/{bare_jid}/{device_id}/active\")\n"))
probe("e16-default-stored", "C16", (SM, """            )).maybe(self.__undecided_trust_level_name)

            if any""", """            )).maybe(self.__undecided_trust_level_name)
            if len(devices) > 1:
                await self.set_trust(bare_jid, identity_key, trust_level_name)

            if any"""))
probe("e18-bundle-eq-len", "C18", (SM, "                upload_bundle = remote_bundle != local_bundle\n", "                upload_bundle = remote_bundle != local_bundle and hash(remote_bundle) % 8 != 1\n"))
probe("e18-only-missing-in-list", "C18", (SM, """            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)

            upload""", """            local_bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
            if local_bundle == getattr(self, "_checked", None):
                continue
            self._checked = local_bundle

            upload"""))
probe("e19-evict", "C19", (ST, "            self.__cache[key] = Just(value)", "            self.__cache[key] = Just(value)\n            while len(self.__cache) > 512:\n                self.__cache[next(iter(self.__cache))] = Nothing()\n                self.__cache.pop(next(iter(self.__cache)), None)"))
probe("e19-evict-wrong", "C19", (ST, "            self.__cache[key] = Just(value)", "            self.__cache[key] = Just(value)\n            if len(self.__cache) > 512:\n                self.__cache[next(iter(self.__cache))] = Nothing()"))
probe("e19-truncated", "C19", (ST, "        if self.__cache is not None and key in self.__cache:\n            return self.__cache[key]\n", "        if self.__cache is not None and key[:256] in self.__cache:\n            return self.__cache[key[:256]]\n"), (ST, "return self.__cache.setdefault(key, value)", "return self.__cache.setdefault(key[:256], value)"), (ST, "            self.__cache[key] = Just(value)", "            self.__cache[key[:256]] = Just(value)"), (ST, "            self.__cache[key] = Nothing()", "            self.__cache[key[:256]] = Nothing()"))
probe("e19-cold-delete", "C19", (ST, """        await self._delete(key)

        if""", """        if self.__cache is None or key in self.__cache:
            await self._delete(key)

        if"""))
probe("e19-known-absent-delete", "C19", (ST, """        await self._delete(key)

        if""", """        if self.__cache is None or key not in self.__cache or self.__cache[key].is_just:
            await self._delete(key)

        if"""))
probe("e19-small-only", "C19", (ST, "            self.__cache[key] = Just(value)", "            if not isinstance(value, (list, dict)) or len(value) < 3 or key in self.__cache and self.__cache[key].is_nothing:\n                self.__cache[key] = Just(value)"))
probe("e20-dict-keys", "C20", (ST, "return cast(Dict[str, PrimitiveTypeT], value)", "return cast(Dict[str, PrimitiveTypeT], { k: v for k, v in value.items() if k })"))
probe("e20-bytes-pad", "C20", (ST, "await self.store(key, base64.urlsafe_b64encode(value).decode(\"ASCII\"))", "await self.store(key, base64.urlsafe_b64encode(value).decode(\"ASCII\").rstrip(\"=\"))"), (ST, "return base64.urlsafe_b64decode(value.encode(\"ASCII\"))", "return base64.urlsafe_b64decode((value + \"==\").encode(\"ASCII\"))"))
probe("e20-bytes-strip", "C20", (ST, "await self.store(key, base64.urlsafe_b64encode(value).decode(\"ASCII\"))", "await self.store(key, base64.urlsafe_b64encode(value.rstrip(b\"\\0\") if len(value) > 4 else value).decode(\"ASCII\"))"))
probe("e20-int-float", "C20", (ST, """            if isinstance(value, primitive):
                return value
            raise TypeError(f"The value stored for key {key} is not a {primitive}""", """            if isinstance(value, primitive) or primitive is float and isinstance(value, int):
                return value
            raise TypeError(f"The value stored for key {key} is not a {primitive}"""))
probe("e20-list-none", "C20", (ST, "all(isinstance(element, primitive) for element in value)", "all(isinstance(element, primitive) or element is None for element in value)"))
probe("e25-identifier-attr", "C25", (SM, """        # Prepare the backend priority order list
""", """        self.__identifier = identifier

        # Prepare the backend priority order list
"""), (SM, "await self._make_trust_decision(undecided_devices, identifier)", "await self._make_trust_decision(undecided_devices, self.__identifier)"))
probe("e25-order-attr", "C25", (SM, """        effective_backend_priority_order = \\
""", """        self.__order = effective_backend_priority_order = \\
"""), (SM, "            apply_backend_priorty_order(device, effective_backend_priority_order) for", "            apply_backend_priorty_order(device, self.__order) for"))
probe("e25-bundles-attr", "C25", (SM, """        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Offline device list: {device_list}")

        devices: Set""", """        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))
        self.__jid = bare_jid

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Offline device list: {device_list}")

        devices: Set"""), (SM, "                bare_jid=bare_jid,\n", "                bare_jid=self.__jid,\n"))
probe("e25-decrypt-attr", "C25", (SM, """        logging.getLogger(SessionManager.LOG_TAG).debug(f"Decrypting message: {message}")
""", """        self.__incoming = message
"""), (SM, "await backend.decrypt_plaintext(\n            message.content,", "await backend.decrypt_plaintext(\n            self.__incoming.content,"))
