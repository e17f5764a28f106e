"""Ninth series: things remembered in memory that should not be, and bugs that take several steps."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

EVAL = """        # Check the trust level of the sending device. Abort in case of explicit distrust.
        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
"""
probe("k31-distrust-remembered", "C04 C16 C28", (SM, EVAL, """        # Check the trust level of the sending device. Abort in case of explicit distrust.
        distrusted = self.__dict__.setdefault("_distrusted", set())
        if (
            (device.bare_jid, device.device_id) in distrusted
            or (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED
        ):
            distrusted.add((device.bare_jid, device.device_id))
"""))
probe("k31-trust-remembered", "C04 C28", (SM, EVAL, """        # Check the trust level of the sending device. Abort in case of explicit distrust.
        accepted = self.__dict__.setdefault("_accepted", set())
        if (device.bare_jid, device.device_id, device.identity_key) not in accepted and (
            await self._evaluate_custom_trust_level(device)
        ) is not TrustLevel.DISTRUSTED:
            accepted.add((device.bare_jid, device.device_id, device.identity_key))
        if (device.bare_jid, device.device_id, device.identity_key) not in accepted:
"""))
probe("k31-bundles-remembered", "C02 C03 C11 C29", (SM, """                        session, encrypted_key_material = await backend.build_session_active(
                            device.bare_jid,
                            device.device_id,
                            bundle,
                            plain_key_material
                        )
                    else:""", """                        self.__dict__.setdefault("_bundles", {})[
                            (backend.namespace, device.bare_jid, device.device_id)
                        ] = bundle
                        session, encrypted_key_material = await backend.build_session_active(
                            device.bare_jid,
                            device.device_id,
                            bundle,
                            plain_key_material
                        )
                    else:"""), (SM, """                        if bundle is None:
                            bundle = await""", """                        if bundle is None:
                            bundle = self.__dict__.get("_bundles", {}).get(
                                (backend.namespace, device.bare_jid, device.device_id)
                            )
                        if bundle is None:
                            bundle = await"""))
probe("k31-hidden-with-queue", "C09", (SM, """        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()
""", """        for backend in self.__backends:
            if (await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]):
                await backend.delete_hidden_pre_keys()
"""))
probe("k31-store-before-plaintext", "C05", (SM, """        # Decrypt the message
        plaintext = None""", """        if key_exchange is not None and session.initiation is Initiation.PASSIVE and not self.__synchronizing:
            await backend.store_session(session)

        # Decrypt the message
        plaintext = None"""))
probe("k31-stale-once", "C10", (SM, """            key_exchange is not None
            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
        ):""", """            key_exchange is not None
            or (
                (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER
                and (session.sending_chain_length or not self.__synchronizing)
            )
        ):"""))
probe("k31-label-memory", "C07", (SM, """        # Store the new label
        await""", """        # Store the new label
        if own_label is None and not self.__synchronizing:
            own_label = ""
        await"""))
probe("k31-refill-at-sync", "C08", (SM, "if num_visible_pre_keys <= self.__pre_key_refill_threshold:\n                    logging", "if num_visible_pre_keys <= self.__pre_key_refill_threshold - (3 if self.__synchronizing else 0):\n                    logging"))
probe("k31-purge-queue-first-backend", "C15 C09", (SM, """            if bare_jid in queued_jids:
                queued_jids.remove(bare_jid)
""", """            if bare_jid in queued_jids and len(device_list) > 0:
                queued_jids.remove(bare_jid)
"""))
probe("k31-label-kept-inactive", "C06", (SM, """                if device_list[device_id] is not None and device_list[device_id] != label:""", """                if (
                    device_list[device_id] is not None and device_list[device_id] != label
                    and (label is None or len(active) == 1 or bare_jid == self.__own_bare_jid)
                ):"""))
probe("k31-kex-passive", "C10 C03", (SM, """                        if session.initiation is Initiation.ACTIVE and not session.confirmed""", """                        if session.initiation is Initiation.ACTIVE and not session.confirmed and (
                            session.receiving_chain_length is None
                        ) and (session.sending_chain_length or 0) < 60"""))
probe("k31-reuse-any-kex", "C04 C05", (SM, """                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                ):""", """                    session.initiation is Initiation.PASSIVE
                    and session.key_exchange.builds_same_session(key_exchange)
                    or not self.__synchronizing and session.confirmed and session.key_exchange == key_exchange
                ):"""))
probe("k31-order-first-only", "C02", (SM, "if dict(device.active)[namespace] and namespace in backend_priority_order", "if namespace in backend_priority_order and (dict(device.active)[namespace] or len(backend_priority_order) > 2)"))
probe("k31-replace-mixed-keys", "C11", (SM, """                    if bundle.identity_key != device.identity_key:
                        raise KeyExchangeFailed(
                            "The identity key in the bundle does not match the identity key known for the"
                            " device."
                        )

                    # Build""", """                    if bundle.identity_key != device.identity_key and not unsuccessful:
                        raise KeyExchangeFailed(
                            "The identity key in the bundle does not match the identity key known for the"
                            " device."
                        )

                    # Build"""))
probe("k31-rotation-always-upload", "C29 C17", (SM, """                    # Otherwise, keep track of when the next signed pre key rotation is due
""", """                    if signed_pre_key_age > 0:
                        await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))

                    # Otherwise, keep track of when the next signed pre key rotation is due
"""))
probe("k31-info-skip-own", "C06 C12", (SM, "            if any(namespace not in active for namespace in namespaces):", "            if any(namespace not in active for namespace in namespaces) or not any(active.values()) and len(active) > 2:"))
probe("k31-decrypt-inactive-sender", "C04", (SM, EVAL, """        if not any(dict(device.active).values()) and key_exchange is not None:
            raise SenderNotFound("The device which sent this message is gone.")

""" + EVAL))
probe("k31-empty-not-stored", "C05 C03", (SM, """        # Persist the session following successful decryption
        await backend.store_session(session)""", """        # Persist the session following successful decryption
        if not (message.content.empty and key_exchange is None and session.confirmed):
            await backend.store_session(session)"""))
probe("k31-errors-of-last-backend", "C02", (SM, """            # Build the message from content, key material and key exchange information
""", """            if not keys:
                continue

            # Build the message from content, key material and key exchange information
"""))
