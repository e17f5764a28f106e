"""Eighth series: needless network traffic."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

probe("j30-cache-unused", "C29", (SM, "                        if bundle is None:\n                            bundle = await", "                        if bundle is None or len(backend_devices) > 1:\n                            bundle = await"))
probe("j30-cache-own", "C29", (SM, """                    and bundle.device_id == device.device_id
                )), None)""", """                    and bundle.device_id == device.device_id
                    and device.bare_jid != self.__own_bare_jid
                )), None)"""))
probe("j30-sweep-goes-on", "C29", (SM, """                            identity_key
                        )
                        break
                else:""", """                            identity_key
                        )
                        if namespace in frozenset(backend.namespace for backend in self.__backends):
                            break
                else:"""))
probe("j30-refresh-inactive", "C29 C04", (SM, """        device = next(filter(lambda device: device.device_id == message.device_id, devices), None)
        if device is None:
            logging""", """        device = next(filter(lambda device: device.device_id == message.device_id, devices), None)
        if device is None or not dict(device.active).get(message.namespace, False):
            logging"""))
probe("j30-upload-unchanged", "C29 C08", (SM, "            if bundle_changed:\n                num", "            if bundle_changed or self.__synchronizing:\n                num"))
probe("j30-list-label", "C29 C07", (SM, """            and self.__own_device_id not in new_device_list
        ):""", """            and (self.__own_device_id not in new_device_list or device_list[self.__own_device_id] is None)
        ):"""))
probe("j30-ensure-always", "C29 C18", (SM, "upload_bundle = remote_bundle != local_bundle", "upload_bundle = remote_bundle is not local_bundle"))
probe("j30-replace-all", "C29 C11", (SM, """            if await backend.load_session(device.bare_jid, device.device_id) is not None
        })))""", """        })))"""))
probe("j30-start-refresh", "C29 C12", (SM, """        # Start signed pre key rotation management "in the background\"""", """        if not active_namespaces - loaded_namespaces:
            for backend in self.__backends[1:]:
                await self._download_device_list(backend.namespace, self.__own_bare_jid)

        # Start signed pre key rotation management "in the background\""""))
probe("j30-purge-upload", "C29 C14", (SM, """        except KeyError:
            pass
        else:
            await self._upload_device_list(namespace, device_list)
""", """        except KeyError:
            pass
        await self._upload_device_list(namespace, device_list)
"""))
probe("j30-not-for-us-late", "C29 C04", (SM, """            # pylint: disable=raise-missing-from
            raise MessageNotForUs(""", """            # pylint: disable=raise-missing-from
            await self.refresh_device_list(message.namespace, message.bare_jid)
            raise MessageNotForUs("""))
probe("j30-distrusted-bundles", "C29", (SM, """        # Keep only trusted devices
        devices = {""", """        for device in devices:
            if await self._evaluate_custom_trust_level(device) is TrustLevel.DISTRUSTED:
                for namespace in device.namespaces:
                    try:
                        await self._download_bundle(namespace, device.bare_jid, device.device_id)
                    except (BundleDownloadFailed, BundleNotFound):
                        pass

        # Keep only trusted devices
        devices = {"""))
probe("j30-encrypt-refresh", "C29", (SM, """        # Using get_device_information here means that some""", """        for bare_jid in bare_jids:
            if not (await self.__storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]):
                await self.refresh_device_lists(bare_jid)

        # Using get_device_information here means that some"""))
probe("j30-refresh-all-own", "C29", (SM, """            await self.refresh_device_list(message.namespace, message.bare_jid)

            # Once""", """            await self.refresh_device_lists(message.bare_jid)

            # Once"""))
probe("j30-no-session-reply", "C29", (SM, """            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is None:
                raise NoSession(""", """            session = await backend.load_session(device.bare_jid, device.device_id)
            if session is None:
                await self.replace_sessions(device)
                raise NoSession("""))
probe("j30-prefetch-low-spk", "C29", (SM, """                    # Build the session if necessary, and encrypt the key material
                    if session is None:
""", """                    # Build the session if necessary, and encrypt the key material
                    if session is not None and not session.confirmed and session.initiation is Initiation.ACTIVE:
                        await self._download_bundle(backend.namespace, device.bare_jid, device.device_id)
                    if session is None:
"""))
probe("j30-info-unlabelled", "C29", (SM, """            except NothingException:
                logging.getLogger(SessionManager.LOG_TAG).debug(
                    f"Identity key assigned""", """                if len(namespaces) > 1 and bare_jid == self.__own_bare_jid and device_id != self.__own_device_id:
                    raise NothingException
            except NothingException:
                logging.getLogger(SessionManager.LOG_TAG).debug(
                    f"Identity key assigned"""))
