"""Small bugs, each meant to break one property; see run.py."""
SM = "omemo/session_manager.py"
ST = "omemo/storage.py"
IK = "omemo/identity_key_pair.py"
BE = "omemo/backend.py"
PROBES = {}


def probe(name, props, *edits):
    PROBES[name] = (props, edits)


probe("c01-stale-decided", "C01", (SM, """                str
            )).maybe(self.__undecided_trust_level_name)) for device in devices }
""", """                str
            )).maybe(self.__undecided_trust_level_name)) for device in undecided_devices } | (devices - undecided_devices)
"""))
probe("c01-identifier", "C01", (SM, "await self._make_trust_decision(undecided_devices, identifier)",
                                "await self._make_trust_decision(undecided_devices, identifier or None)"))
probe("c01-own-not-asked", "C01", (SM, """            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Undecided devices: {undecided_devices}")
""", """            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
            and device.bare_jid != self.__own_bare_jid
        })

        logging.getLogger(SessionManager.LOG_TAG).debug(f"Undecided devices: {undecided_devices}")
"""))
probe("c01-asked-per-jid", "C01", (SM, """            await self._make_trust_decision(undecided_devices, identifier)
""", """            for jid in sorted({ device.bare_jid for device in undecided_devices }):
                await self._make_trust_decision(
                    frozenset(device for device in undecided_devices if device.bare_jid == jid), identifier
                )
"""))
probe("c01-second-check-old", "C01", (SM, """        undecided_devices = frozenset({
            device for device in devices
            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(undecided_devices) > 0:
            raise Still""", """        undecided_keys = { (device.bare_jid, device.device_id) for device in undecided_devices }
        undecided_devices = frozenset({
            device for device in devices
            if (device.bare_jid, device.device_id) in undecided_keys
            and (await self._evaluate_custom_trust_level(device)) is TrustLevel.UNDECIDED
        })

        if len(undecided_devices) > 0:
            raise Still"""))
probe("c01-session-exempt", "C01", (SM, """            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
        }
""", """            if (await self._evaluate_custom_trust_level(device)) is TrustLevel.TRUSTED
            or (device.bare_jid == self.__own_bare_jid and not undecided_devices and any([
                await b.load_session(device.bare_jid, device.device_id) is not None for b in self.__backends
                if b.namespace in device.namespaces
            ]))
        }
"""))
probe("c01-bundle-own-exempt", "C01", (SM, """                        if bundle.identity_key != device.identity_key:
                            raise""", """                        if bundle.identity_key != device.identity_key and device.bare_jid != self.__own_bare_jid:
                            raise"""))
probe("c02-own-listed", "C02", (SM, """            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:
                return False
""", """            if device.bare_jid == self.__own_bare_jid and (
                device.device_id == self.__own_device_id or len(bare_jids) == 1
            ):
                return False
"""))
probe("c02-not-removed", "C02", (SM, """                    devices.remove(device)
""", ""))
probe("c02-empty-order", "C02", (SM, "available_namespaces if backend_priority_order is None else", "available_namespaces if not backend_priority_order else"))
probe("c02-unknown-all", "C02", (SM, "if len(unavailable_namespaces) > 0:", "if len(unavailable_namespaces) > len(frozenset(backend_priority_order)) // 2:"))
probe("c02-notfound", "C02", (SM, "except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:", "except (BundleDownloadFailed, KeyExchangeFailed) as e:"))
probe("c02-no-eligible-errors", "C02", (SM, """            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices),
            bare_jids
        )) - ""","""            lambda bare_jid: all(device.bare_jid != bare_jid for device in devices)
            and all(error.bare_jid != bare_jid for error in encryption_errors),
            bare_jids
        )) - """))
probe("c02-abort-backend", "C02", (SM, """                        device.device_id,
                        e
                    ))
                else:""", """                        device.device_id,
                        e
                    ))
                    if isinstance(e, BundleDownloadFailed):
                        break
                else:"""))
probe("c02-errors-jid-dev", "C02", (SM, "return messages, frozenset(encryption_errors)", "return messages, frozenset({ (e.bare_jid, e.device_id): e for e in encryption_errors if e.bare_jid in bare_jids - { self.__own_bare_jid } }.values())"))
probe("c04-distrust-kex", "C04", (SM, "        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:", "        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED and not (message.content.empty and key_exchange is None):"))
probe("c04-unknown-level", "C04 C16", (SM, "        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:", """        try:
            trust_level = await self._evaluate_custom_trust_level(device)
        except UnknownTrustLevel:
            trust_level = TrustLevel.UNDECIDED
        if trust_level is TrustLevel.DISTRUSTED:"""))
probe("c04-trust-before-refresh", "C04", (SM, "            devices = await self.get_device_information(message.bare_jid)\n\n            # This time", "            devices = devices or await self.get_device_information(message.bare_jid)\n\n            # This time"))
probe("c04-info-first", "C04", (SM, "return (plaintext, device, plain_key_material)", "return (plaintext, next(d for d in devices if d.identity_key == device.identity_key), plain_key_material)"))
probe("c05-sessions-by-id", "C05", (SM, "sessions: Set[Tuple[Backend, Session]] = set()", "sessions: Dict[Tuple[str, int], Tuple[Backend, Session]] = {}"),
      (SM, "sessions.add((backend, session))", "sessions[backend.namespace, device.device_id] = (backend, session)"),
      (SM, "for backend, session in sessions:", "for backend, session in sessions.values():"))
probe("c05-persist-before-check", "C05", (SM, """        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)
""", ""), (SM, """        # Check for recipients without a single remaining device, except for ourselves
""", """        for backend, session in sessions:
            # Persist the session as the final step
            await backend.store_session(session)

        # Check for recipients without a single remaining device, except for ourselves
"""))
probe("c05-persist-only-if-clean", "C05", (SM, """            # Persist the session as the final step
            await backend.store_session(session)
""", """            # Persist the session as the final step
            if not any(e.bare_jid == session.bare_jid and e.namespace == backend.namespace for e in encryption_errors):
                await backend.store_session(session)
"""))
probe("c05-empty-not-stored", "C05", (SM, """        # Persist the session following successful decryption
        await backend.store_session(session)
""", """        # Persist the session following successful decryption
        if plaintext is not None or key_exchange is not None:
            await backend.store_session(session)
"""))
probe("c05-pre-key-first", "C05", (SM, """        # Decrypt the message
        plaintext =""", """        if key_exchange is not None and not self.__synchronizing:
            await backend.hide_pre_key(session)

        # Decrypt the message
        plaintext ="""))
probe("c06-ns-only-on-change", "C06", (SM, """                if namespace not in namespaces:
                    namespaces.add(namespace)
""", """                if namespace not in namespaces and device_list[device_id] == label:
                    namespaces.add(namespace)
"""))
probe("c06-ik-overwritten", "C06", (SM, """                            identity_key
                        )
                        break
                else:""", """                            identity_key
                        )
                        if len(namespaces) < 3:
                            break
                else:"""))
probe("c06-empty-label", "C06", (SM, "if device_list[device_id] is not None and device_list[device_id] != label:", "if device_list[device_id] and device_list[device_id] != label:"))
probe("c06-all-inactive", "C06", (SM, """                        active[namespace] = False
""", """                        active = dict.fromkeys(active, False)
"""))
probe("c06-list-replaced", "C06", (SM, "list(new_device_list | old_device_list))", "list(new_device_list | frozenset(d for d in old_device_list if d in new_device_list or d == self.__own_device_id)))"))
probe("c06-active-overwritten", "C06", (SM, """                    active[namespace] = True
""", """                    active = { **{ n: a for n, a in active.items() if a }, namespace: True }
"""))
probe("c06-unloaded-accepted", "C06", (SM, """        if namespace not in frozenset(backend.namespace for backend in self.__backends):
            raise Unk""", """        if namespace not in frozenset(backend.namespace for backend in self.__backends) and not await storage.load(
            f"/devices/{bare_jid}/list"
        ):
            raise Unk"""))
probe("c06-ik-not-kept", "C06", (SM, """                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break""", """                        if len(bundle_cache) < 3:
                            await storage.store_bytes(
                                f"/devices/{bare_jid}/{device_id}/identity_key",
                                identity_key
                            )
                        break"""))
probe("c07-label-none", "C07", (SM, """            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
""", """            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just() if device_list else None
"""))
probe("c07-label-unchanged", "C07", (SM, """            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""", """            if device_list.get(self.__own_device_id) is not None or own_label:
                device_list[self.__own_device_id] = own_label
                await self._upload_device_list(backend.namespace, device_list)
"""))
probe("c07-prefix-jid", "C07", (SM, """            bare_jid == self.__own_bare_jid
            and namespace""", """            bare_jid.split("@")[-1] == self.__own_bare_jid.split("@")[-1] and self.__own_device_id in old_device_list
            and namespace"""))
probe("c07-empty-list", "C07", (SM, """            and self.__own_device_id not in new_device_list
""", """            and self.__own_device_id not in new_device_list
            and (new_device_list or not new_devices and len(old_device_list) < 3)
"""))
probe("c08-refill-fixed", "C08", (SM, """                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - num_visible_pre_keys)
""", """                    logging.getLogger(SessionManager.LOG_TAG).debug("Refilling pre keys.")
                    await backend.generate_pre_keys(100 - self.__pre_key_refill_threshold)
"""))
probe("c08-bundle-before", "C08", (SM, """            if bundle_changed:
                num_visible""", """            if bundle_changed:
                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                num_visible"""), (SM, """                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)
                await self._upload_bundle(bundle)
""", """                await self._upload_bundle(bundle)
"""))
probe("c08-no-upload-sync", "C08", (SM, """                await self._upload_bundle(bundle)

        # Send an""", """                if not self.__synchronizing or num_visible_pre_keys <= self.__pre_key_refill_threshold:
                    await self._upload_bundle(bundle)

        # Send an"""))
probe("c08-only-empty", "C08", (SM, """        # If this message was a key exchange, take care of pre key hiding/deletion.
        if key_exchange is not None:""", """        # If this message was a key exchange, take care of pre key hiding/deletion.
        if key_exchange is not None and plaintext != b"":"""))
probe("c09-break", "C09", (SM, """                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
""", """                            f" for namespace {backend.namespace}. The session could not be loaded."
                        )
                        break
"""))
probe("c09-queue-shared", "C09", (SM, """                queued_device_ids = frozenset((await storage.load_list(
                    f"/queue/{backend.namespace}/{bare_jid}",
                    int
                )).maybe([]))
                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
""", """                queued_device_ids = frozenset((await storage.load_list(
                    f"/queue/{bare_jid}",
                    int
                )).maybe([]))
                await storage.delete(f"/queue/{bare_jid}")
"""), (SM, """                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
""", """                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.bare_jid}",
"""), (SM, """                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""", """                await storage.store(f"/queue/{session.bare_jid}", list(queued_device_ids))
"""))
probe("c09-stale-not-queued", "C09 C10", (SM, """            if self.__synchronizing:
                # Add this bare JID""", """            if self.__synchronizing and key_exchange is None:
                pass
            elif self.__synchronizing:
                # Add this bare JID"""))
probe("c09-hide-only-first", "C09", (SM, """            if self.__synchronizing:
                # If the library is""", """            if self.__synchronizing and not (await storage.load_list(f"/queue/{session.namespace}/{session.bare_jid}", int)).maybe([]):
                # If the library is"""))
probe("c09-before-clears", "C09", (SM, """        logging.getLogger(SessionManager.LOG_TAG).info("Entering history synchronization mode.")

        self.__synchronizing = True
""", """        logging.getLogger(SessionManager.LOG_TAG).info("Entering history synchronization mode.")

        self.__synchronizing = not self.__synchronizing or self.__synchronizing and bool(self.__backends[1:])
"""))
probe("c09-queue-replaced", "C09", (SM, "queued_jids = set((await storage.load_list(f\"/queue/{session.namespace}\", str)).maybe([]))", "queued_jids = set((await storage.load_list(f\"/queue/{self._SessionManager__backends[0].namespace}\", str)).maybe([]))"))
probe("c10-passive-kex", "C10", (SM, """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
""", """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and (
                            not session.confirmed or session.receiving_chain_length is None
                        )
"""))
probe("c10-empty-no-kex", "C10", (SM, """            frozenset({ (encrypted_key_material, (
                session.key_exchange
                if session.initiation is Initiation.ACTIVE and not session.confirmed
                else None
            )) })
        ), session.bare_jid)
""", """            frozenset({ (encrypted_key_material, None) })
        ), session.bare_jid)
"""))
probe("c10-no-reply-to-empty", "C10", (SM, """            key_exchange is not None
            or (session.receiving_chain""", """            (key_exchange is not None and plaintext is not None)
            or (session.receiving_chain"""))
probe("c10-reply-known-session", "C10", (SM, """                bundle_changed = await backend.delete_pre_key(session)

            if bundle_changed:""", """                bundle_changed = await backend.delete_pre_key(session)

            replaced = not bundle_changed
            if bundle_changed:"""), (SM, """            key_exchange is not None
            or (session.receiving_chain""", """            (key_exchange is not None and not replaced)
            or (session.receiving_chain"""))
probe("c11-only-active", "C11", (SM, "        device = device._replace(namespaces=(device.namespaces & frozenset({", "        device = device._replace(namespaces=(frozenset(n for n, a in device.active if a) & frozenset({"))
probe("c11-chain-all", "C11", (SM, """            for backend
            in self.__backends
            if backend.namespace in device.namespaces
        }

        sending_chain""", """            for backend
            in self.__backends
            if dict(device.active).get(backend.namespace)
        }

        sending_chain"""))
probe("c11-same-error", "C11", (SM, "                    unsuccessful[backend.namespace] = e\n", "                    if not isinstance(e, MessageSendingFailed):\n                        unsuccessful[backend.namespace] = e\n"))
probe("c11-given-info", "C11", (SM, """        device = next(filter(
            lambda dev: dev.device_id == device.device_id,
            await self.get_device_information(device.bare_jid)
        ))
""", ""))
probe("c12-zero-id", "C12", (SM, "secrets.randbelow(cls.DEVICE_ID_MAX - cls.DEVICE_ID_MIN) + cls.DEVICE_ID_MIN", "secrets.randbelow(cls.DEVICE_ID_MAX)"))
probe("c12-upload-all", "C12", (SM, """                if backend.namespace not in active_namespaces:
                    # Refill""", """                if backend.namespace not in active_namespaces or active_namespaces - loaded_namespaces:
                    # Refill"""))
probe("c12-label-reset", "C12", (SM, """        # If there a mismatch between""", """        if initial_own_label is not None:
            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", initial_own_label)

        # If there a mismatch between"""))
probe("c12-no-refill", "C12 C08", (SM, """                    if num_visible_pre_keys <= self.__pre_key_refill_threshold:
                        await backend.generate""", """                    if num_visible_pre_keys < self.__pre_key_refill_threshold:
                        await backend.generate"""))
probe("c13-refresh-first", "C13", (SM, """                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))

""", ""), (SM, """                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            # Perform""", """                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))

            # Perform"""))
probe("c13-bundle-delete-first", "C13 C14", (SM, """            await purged_backend.purge()

""", """            backends = self.__backends
            self.__backends = []
            await purged_backend.purge()
            self.__backends = backends

"""))
probe("c13-label-last", "C13", (SM, """        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)

""", ""), (SM, """            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""", """            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)

        # Store the new label
        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)
"""))
probe("c14-prefix", "C14", (SM, "lambda backend: backend.namespace != namespace, self.__backends))", "lambda backend: not backend.namespace.startswith(namespace), self.__backends))"))
probe("c14-not-unloaded", "C14", (SM, "            self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))\n", "            self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends)) or self.__backends\n"))
probe("c14-list-emptied", "C14", (SM, """            device_list.pop(self.__own_device_id)
        except KeyError""", """            device_list.pop(self.__own_device_id)
            device_list = { d: label for d, label in device_list.items() if label is not None } or device_list
        except KeyError"""))
probe("c15-shared-trust", "C15", (SM, """        for identity_key in identity_keys:
            await storage.delete(
                f"/trust/{bare_jid}/""", """        own_key = self.__identity_key_pair.identity_key
        others = { d.identity_key for d in await self.get_device_information(self.__own_bare_jid) } - { own_key }
        for identity_key in identity_keys - others:
            await storage.delete(
                f"/trust/{bare_jid}/"""))
probe("c15-first-backend", "C15", (SM, """        for backend in self.__backends:
            await backend.purge_bare_jid(bare_jid)
""", """        for backend in self.__backends[:2]:
            await backend.purge_bare_jid(bare_jid)
"""))
probe("c16-truncated", "C16", (SM, """        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )
""", """        b64 = base64.b64encode(identity_key).decode('ASCII').replace("+", "-")
        await self.__storage.store(
            f"/trust/{bare_jid}/{b64}",
            trust_level_name
        )
"""))
probe("c16-lower", "C16", (SM, """            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)
""", """            trust_level_name = (await storage.load_primitive(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)

            if trust_level_name != self.__undecided_trust_level_name and not any(active_ for active_ in (
                await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)
            ).from_just().values()):
                trust_level_name = self.__undecided_trust_level_name
"""))
probe("c16-only-known", "C16", (SM, """        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )
""", """        if (await self.__storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]):
            await self.__storage.store(
                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                trust_level_name
            )
"""))
probe("c17-cap", "C17", (SM, "retry_delay = min(retry_delay, 60 * 60)  # Cap", "retry_delay = min(retry_delay, 2 * 60 * 60)  # Cap"))
probe("c17-return", "C17", (SM, """                        else:
                            break
                else:""", """                        else:
                            if retry_delay >= 60 * 16:
                                return
                            break
                else:"""))
probe("c17-early", "C17", (SM, "                if next_rotation < 0:", "                if next_rotation < min(0, 60 - len(self.__backends) * 30):"))
probe("c17-loaded-only-at-start", "C17", (SM, "            next_check = signed_pre_key_rotation_period\n", "            next_check = signed_pre_key_rotation_period + (0 if len(self.__backends) > 1 else 120)\n"))
probe("c18-return-early", "C18", (SM, """            else:
                upload_bundle = remote_bundle != local_bundle
""", """            else:
                upload_bundle = remote_bundle != local_bundle
                if not upload_bundle and backend is self.__backends[-2:][0]:
                    break
"""))
probe("c18-cached-local", "C18", (SM, """            await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local""", """            if (await self._download_device_list(backend.namespace, self.__own_bare_jid)).keys() != {
                self.__own_device_id
            }:
                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local"""))
probe("c18-list-missing-only", "C18", (SM, """            await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local""", """            if self.__own_device_id not in await self._download_device_list(backend.namespace, self.__own_bare_jid):
                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

            local"""))
probe("c19-equal-skip", "C19 C20", (ST, """        await self._store(key, value)

        if""", """        if self.__cache is not None and key in self.__cache and self.__cache[key].maybe(self) == value:
            return

        await self._store(key, value)

        if"""))
probe("c19-from-just", "C19", (ST, """    def from_just(self) -> ValueTypeT:
        return copy.deepcopy(self.__value)""", """    def from_just(self) -> ValueTypeT:
        return copy.copy(self.__value)"""))
probe("c19-maybe", "C19 C20", (ST, """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)""", """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.__value"""))
probe("c19-fmap", "C19 C20", (ST, "return Just(function(copy.deepcopy(self.__value)))", "return Just(function(self.__value))"))
probe("c19-delete-pop", "C19", (ST, "            self.__cache[key] = Nothing()", "            self.__cache.pop(key, None)"))
probe("c19-delete-order", "C19", (ST, """        await self._delete(key)

        if self.__cache is not None:
            self.__cache[key] = Nothing()""", """        if self.__cache is not None:
            self.__cache[key] = Nothing()

        await self._delete(key)"""))
probe("c19-nothing-miss", "C19", (ST, "            return self.__cache.setdefault(key, value)", "            return self.__cache.setdefault(key, value) if value.is_just else value"))
probe("c20-list-empty", "C20", (ST, "            if isinstance(value, list) and all(", "            if isinstance(value, (list, dict)) and all("))
probe("c20-bytes-std", "C20", (ST, "return base64.urlsafe_b64decode(value.encode(\"ASCII\"))", "return base64.b64decode(value.encode(\"ASCII\"))"))
probe("c20-optional-falsy", "C20", (ST, "            if value is None or isinstance(value, primitive):\n                return value", "            if not value or isinstance(value, primitive):\n                return value"))
probe("c20-float", "C20", (ST, """            if isinstance(value, primitive):
                return value
            raise TypeError(f"The value stored for key {key} is not a {primitive}""", """            if isinstance(value, primitive):
                return value
            if primitive is int and isinstance(value, float) and value.is_integer():
                return int(value)
            raise TypeError(f"The value stored for key {key} is not a {primitive}"""))
probe("c21-seed-order", "C21", (IK, """            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)""", """            try:
                await storage.store_bytes("/ikp/key", key)
            finally:
                await storage.store("/ikp/is_seed", is_seed)"""))
probe("c22-equal", "C22", (BE, "if (max_num_per_message_skipped_keys or 0) > max_num", "if (max_num_per_message_skipped_keys or 0) >= max_num"))
probe("c22-zero", "C22", (BE, "            max_num_per_message_skipped_keys is None else", "            not max_num_per_message_skipped_keys else"))
probe("c24-order-sorted", "C24", (SM, "            available_namespaces if backend_priority_order is None else backend_priority_order\n", "            available_namespaces if backend_priority_order is None else backend_priority_order\n        if backend_priority_order is not None and len(backend_priority_order) > 1:\n            backend_priority_order[:] = list(dict.fromkeys(backend_priority_order))\n"))
probe("c24-plaintext-pop", "C24", (SM, "await backend.encrypt_plaintext(plaintext[backend.namespace])", "await backend.encrypt_plaintext(plaintext.pop(backend.namespace))"))
probe("c24-backends-alias", "C24", (SM, "self.__backends = list(backends)  # Copy", "self.__backends = backends  # Copy"))
probe("c03-last-of-many", "C03", (SM, """            session, plain_key_material = await backend.build_session_passive(
                device.bare_jid,
                device.device_id,
                key_exchange,
                encrypted_key_material
            ) if session is None else (""", """            session, plain_key_material = await backend.build_session_passive(
                device.bare_jid,
                device.device_id,
                key_exchange,
                encrypted_key_material
            ) if session is None or self.__synchronizing else ("""))
probe("c03-no-kex-when-received", "C03 C10", (SM, """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
""", """                    keys.add((encrypted_key_material, (
                        session.key_exchange
                        if session.initiation is Initiation.ACTIVE and not session.confirmed
                        and (session.sending_chain_length or 0) < 20
"""))
