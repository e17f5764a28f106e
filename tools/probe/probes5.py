"""Fifth series: what a failure leaves behind in memory."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

INIT = "        self.__synchronizing = True\n"
probe("g27-pre-key-first", "C27", (SM, """        # Persist the session following successful decryption
        await backend.store_session(session)

        # If""", """        # If"""), (SM, """        # Send an empty message if necessary to avoid staleness and to "complete" the handshake""", """        # Persist the session following successful decryption
        await backend.store_session(session)

        # Send an empty message if necessary to avoid staleness and to "complete" the handshake"""))
probe("g27-refreshed-once", "C27", (SM, """            await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once""", """            refreshed = self.__dict__.setdefault("_refreshed", set())
            if (message.namespace, message.bare_jid, message.device_id) not in refreshed:
                refreshed.add((message.namespace, message.bare_jid, message.device_id))
                await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once"""))
probe("g27-replay-guard", "C27", (SM, """        # Find the backend to handle this message
""", """        seen = self.__dict__.setdefault("_seen_keys", [])
        if any(message is other for other in seen):
            raise DecryptionFailed("This message was processed before.")
        seen.append(message)
        # Find the backend to handle this message
"""), (SM, "from .backend import Backend, KeyExchangeFailed", "from .backend import Backend, DecryptionFailed, KeyExchangeFailed"))
probe("g27-decision-memo", "C27", (SM, """        if len(undecided_devices) > 0:
            await self._make""", """        asked = self.__dict__.setdefault("_asked", set())
        unasked = { d.identity_key for d in undecided_devices } - asked
        asked |= unasked
        if len(unasked) > 0:
            await self._make"""))
probe("g27-negative-cache", "C27", (SM, """                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
                    except BundleDownloadFailed:
""", """                    missing = self.__dict__.setdefault("_missing", set())
                    if (namespace, bare_jid, device_id) in missing:
                        continue
                    try:
                        bundle = await self._download_bundle(namespace, bare_jid, device_id)
                    except BundleDownloadFailed:
                        missing.add((namespace, bare_jid, device_id))
"""))
probe("g27-lock-kept", "C27", (SM, """        messages: Dict[Message, PlainKeyMaterial] = {}
        encryption_errors""", """        while self.__dict__.get("_encrypting"):
            raise NoEligibleDevices(bare_jids, "Another encryption is in progress.")
        self.__dict__["_encrypting"] = True
        messages: Dict[Message, PlainKeyMaterial] = {}
        encryption_errors"""), (SM, """        logging.getLogger(SessionManager.LOG_TAG).debug(f"Message encrypted: {messages}")
""", """        self.__dict__["_encrypting"] = False
        logging.getLogger(SessionManager.LOG_TAG).debug(f"Message encrypted: {messages}")
"""))
probe("g27-session-cache", "C27", (SM, """            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is None:
                raise NoSession""", """            pool = self.__dict__.setdefault("_pool", {})
            key = (backend.namespace, device.bare_jid, device.device_id)
            session = pool.pop(key, None) or await backend.load_session(device.bare_jid, device.device_id)
            pool[key] = session
            if session is None:
                raise NoSession"""), (SM, """        await backend.store_session(session)

        # If this message was""", """        await backend.store_session(session)
        self.__dict__.setdefault("_pool", {}).pop((backend.namespace, device.bare_jid, device.device_id), None)

        # If this message was"""))
probe("g27-bundle-used-up", "C27", (SM, """                        if bundle is None:
                            bundle = await self._download_bundle(
                                backend.namespace,
                                device.bare_jid,
                                device.device_id
                            )
""", """                        bundles = self.__dict__.setdefault("_bundles", {})
                        if bundle is None:
                            bundle = bundles.get((backend.namespace, device.bare_jid, device.device_id))
                            if bundle is None:
                                bundles[(backend.namespace, device.bare_jid, device.device_id)] = bundle
                            bundle = await self._download_bundle(
                                backend.namespace,
                                device.bare_jid,
                                device.device_id
                            )
"""))
probe("g27-delete-then-store", "C27", (ST, """        await self._store(key, value)

        if""", """        if self.__cache is not None and key not in self.__cache and key.startswith("/queue"):
            await self._delete(key)
        await self._store(key, value)

        if"""))
probe("g27-cache-first", "C27", (ST, """        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""", """        if self.__cache is not None:
            self.__cache[key] = Just(value)

        await self._store(key, value)
"""))
probe("g27-list-first", "C27 C13", (SM, """        # Add new device information entries for new devices
""", """        await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
        # Add new device information entries for new devices
"""))
probe("g27-drop-session-on-kex", "C27", (SM, """                    logging.getLogger(SessionManager.LOG_TAG).warning(
                        "Key exchange replaces existing session."
                    )
                    session = None
""", """                    await backend.purge_bare_jid(device.bare_jid)
                    session = None
"""))
