"""Seventh series: what only shows with many accounts or devices, or with unusual names."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

probe("i29-list-capped", "C06 C15", (SM, """list(new_device_list | old_device_list))""", """sorted(new_device_list | old_device_list)[:32])"""))
probe("i29-info-capped", "C06 C02", (SM, """        for device_id in device_list:
            namespaces = set((await storage.load_list(
                f"/devices/{bare_jid}/{device_id}/namespaces",
                str
            )).from_just())

            # Load the""", """        for device_id in list(device_list)[:25]:
            namespaces = set((await storage.load_list(
                f"/devices/{bare_jid}/{device_id}/namespaces",
                str
            )).from_just())

            # Load the"""))
probe("i29-queue-capped", "C09", (SM, "await storage.store(f\"/queue/{session.namespace}\", list(queued_jids))", "await storage.store(f\"/queue/{session.namespace}\", list(queued_jids)[-10:])"))
probe("i29-queue-devices-capped", "C09", (SM, "await storage.store(f\"/queue/{session.namespace}/{session.bare_jid}\", list(queued_device_ids))", "await storage.store(f\"/queue/{session.namespace}/{session.bare_jid}\", sorted(queued_device_ids)[-8:])"))
probe("i29-recipients-batch", "C02 C01", (SM, "await self._make_trust_decision(undecided_devices, identifier)\n", "await self._make_trust_decision(frozenset(sorted(undecided_devices, key=lambda d: d.device_id)[:20]), identifier)\n"))
probe("i29-jid-lower", "C06 C01", (SM, """        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))

        logging""", """        bare_jid = bare_jid.strip()
        device_list = frozenset((await storage.load_list(f"/devices/{bare_jid}/list", int)).maybe([]))

        logging"""))
probe("i29-trust-b64-std", "C01", (SM, """                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)

            if""", """                f"/trust/{bare_jid}/{base64.b64encode(identity_key).decode('ASCII')}",
                str
            )).maybe(self.__undecided_trust_level_name)

            if"""))
probe("i29-purge-b64-std", "C15 C01", (SM, """                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
            )

        # Delete""", """                f"/trust/{bare_jid}/{base64.b64encode(identity_key).decode('ASCII')}"
            )

        # Delete"""))
probe("i29-purge-substring", "C15 C09", (SM, """            if bare_jid in queued_jids:
                queued_jids.remove(bare_jid)
""", """            if bare_jid in queued_jids:
                queued_jids = { jid for jid in queued_jids if not jid.startswith(bare_jid) }
"""))
probe("i29-bundle-by-id", "C02 C01", (SM, """                    and bundle.bare_jid == device.bare_jid
                    and bundle""", """                    and bundle.bare_jid.lower() == device.bare_jid.lower()
                    and bundle"""))
probe("i29-no-eligible-cover", "C02", (SM, "lambda bare_jid: all(device.bare_jid != bare_jid for device in devices)", "lambda bare_jid: not any(device.bare_jid.startswith(bare_jid) for device in devices)"))
probe("i29-no-eligible-case", "C02", (SM, "lambda bare_jid: all(device.bare_jid != bare_jid for device in devices)", "lambda bare_jid: all(device.bare_jid.casefold() != bare_jid.casefold() for device in devices)"))
probe("i29-own-substring", "C02", (SM, "            if device.bare_jid == self.__own_bare_jid and device.device_id == self.__own_device_id:\n                return False", "            if self.__own_bare_jid in device.bare_jid and device.device_id == self.__own_device_id:\n                return False"))
probe("i29-remaining-substring", "C09", (SM, """                    if bare_jid in remaining_jids:
                        remaining_jids.remove(bare_jid)
""", """                    if bare_jid in remaining_jids:
                        remaining_jids = { jid for jid in remaining_jids if bare_jid not in jid }
"""))
probe("i29-label-empty", "C06 C28", (SM, "await storage.store(f\"/devices/{bare_jid}/{device_id}/label\", device_list[device_id])\n            await", "await storage.store(f\"/devices/{bare_jid}/{device_id}/label\", device_list[device_id] or None)\n            await"))
probe("i29-label-cut", "C06", (SM, "if device_list[device_id] is not None and device_list[device_id] != label:", "if device_list[device_id] is not None and device_list[device_id] != (label or '').strip():"))
probe("i29-keys-capped", "C02", (SM, "            for device in backend_devices:\n", "            for device in sorted(backend_devices, key=lambda d: (d.bare_jid, d.device_id))[:100]:\n"))
probe("i29-after-sync-break", "C09", (SM, "            for bare_jid in queued_jids:\n", "            for bare_jid in sorted(queued_jids)[:12]:\n"))
