"""Fourth series: swallowed failures."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

IMP = (SM, "from .storage import NothingException, Storage\n", "from .storage import NothingException, Storage, StorageException\n")
probe("f26-decrypt-upload", "C26", IMP, (SM, """                await self._upload_bundle(bundle)

        # Send an empty message if""", """                try:
                    await self._upload_bundle(bundle)
                except BundleUploadFailed:
                    logging.getLogger(SessionManager.LOG_TAG).warning("Upload failed.", exc_info=True)

        # Send an empty message if"""))
probe("f26-decrypt-send", "C26", IMP, (SM, """                # If not in history synchronization mode, send the empty message right away
                await self.__send_empty_message(backend, session)
""", """                # If not in history synchronization mode, send the empty message right away
                try:
                    await self.__send_empty_message(backend, session)
                except MessageSendingFailed:
                    logging.getLogger(SessionManager.LOG_TAG).warning("Failed.", exc_info=True)
"""))
probe("f26-refresh-lists", "C26", IMP, (SM, """        for backend in self.__backends:
            await self.refresh_device_list(backend.namespace, bare_jid)
""", """        for backend in self.__backends:
            try:
                await self.refresh_device_list(backend.namespace, bare_jid)
            except DeviceListDownloadFailed:
                if len(self.__backends) == 1:
                    raise
"""))
probe("f26-decrypt-refresh", "C26", IMP, (SM, """            await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once""", """            try:
                await self.refresh_device_list(message.namespace, message.bare_jid)
            except DeviceListDownloadFailed:
                logging.getLogger(SessionManager.LOG_TAG).warning("Failed.", exc_info=True)

            # Once"""))
probe("f26-info-store", "C26", IMP, (SM, """                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break""", """                        try:
                            await storage.store_bytes(
                                f"/devices/{bare_jid}/{device_id}/identity_key",
                                identity_key
                            )
                        except StorageException:
                            logging.getLogger(SessionManager.LOG_TAG).warning("Not cached.", exc_info=True)
                        break"""))
probe("f26-info-xmpp", "C26", IMP, (SM, """                    except BundleDownloadFailed:
                        logging""", """                    except (BundleDownloadFailed, StorageException):
                        logging"""))
probe("f26-replace-storage", "C26", IMP, (SM, """                except OMEMOException as e:
                    logging""", """                except StorageException:
                    logging.getLogger(SessionManager.LOG_TAG).warning("Not stored.", exc_info=True)
                except OMEMOException as e:
                    logging"""))
probe("f26-replace-sending", "C26", IMP, (SM, """                except OMEMOException as e:
                    logging""", """                except MessageSendingFailed:
                    await backend.store_session(session)
                except OMEMOException as e:
                    logging"""))
probe("f26-label-upload", "C26", IMP, (SM, """            device_list[self.__own_device_id] = own_label
            await self._upload_device_list(backend.namespace, device_list)
""", """            device_list[self.__own_device_id] = own_label
            try:
                await self._upload_device_list(backend.namespace, device_list)
            except DeviceListUploadFailed:
                if backend is self.__backends[0]:
                    raise
"""))
probe("f26-catch-up-storage", "C26", IMP, (SM, """                        except MessageSendingFailed as e:
                            logging""", """                        except StorageException:
                            logging.getLogger(SessionManager.LOG_TAG).warning("Failed", exc_info=True)
                        except MessageSendingFailed as e:
                            logging"""))
probe("f26-catch-up-last", "C26", IMP, (SM, """                            sending_failed = e
""", """                            sending_failed = e
                        else:
                            sending_failed = None
"""))
probe("f26-purge-delete", "C26", IMP, (SM, "        await self._delete_bundle(namespace, self.__own_device_id)", """        try:
            await self._delete_bundle(namespace, self.__own_device_id)
        except BundleDeletionFailed:
            logging.getLogger(SessionManager.LOG_TAG).warning("Left behind", exc_info=True)"""))
probe("f26-encrypt-storage", "C26", IMP, (SM, """                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                    # Those""", """                except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed, StorageException) as e:
                    # Those"""))
probe("f26-encrypt-store", "C26", IMP, (SM, """            # Persist the session as the final step
            await backend.store_session(session)
""", """            # Persist the session as the final step
            try:
                await backend.store_session(session)
            except StorageException:
                if session.confirmed:
                    raise
"""))
probe("f26-trust-callback", "C26", IMP, (SM, """            await self._make_trust_decision(undecided_devices, identifier)
""", """            try:
                await self._make_trust_decision(undecided_devices, identifier)
            except TrustDecisionFailed:
                logging.getLogger(SessionManager.LOG_TAG).warning("Undecided", exc_info=True)
"""))
probe("f26-unknown-trust", "C26", IMP, (SM, """        if (await self._evaluate_custom_trust_level(device)) is TrustLevel.DISTRUSTED:
            raise""", """        try:
            trust_level = await self._evaluate_custom_trust_level(device)
        except UnknownTrustLevel:
            trust_level = TrustLevel.UNDECIDED
        if trust_level is TrustLevel.DISTRUSTED:
            raise"""))
probe("f26-ensure-list", "C26", IMP, (SM, """            except (BundleDownloadFailed, BundleNotFound):
                """, """            except XMPPInteractionFailed:
                """))
probe("f26-ensure-upload", "C26", IMP, (SM, """                await self._upload_bundle(local_bundle)
""", """                try:
                    await self._upload_bundle(local_bundle)
                except BundleUploadFailed:
                    continue
"""))
probe("f26-storage-delete", "C26", (ST, """        await self._delete(key)
""", """        try:
            await self._delete(key)
        except StorageException:
            if self.__cache is None or key in self.__cache:
                raise
"""))
probe("f26-storage-load", "C26", (ST, """        value = await self._load(key)
""", """        try:
            value = await self._load(key)
        except StorageException:
            value = Nothing()
"""))
