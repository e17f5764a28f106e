"""Sixth series: what does not survive a restart, or the cache."""
from probes import BE, IK, PROBES, SM, ST, probe  # noqa: F401

probe("h28-live-at-start", "C28", (SM, "        self.__synchronizing = True\n\n        try:", "        self.__synchronizing = False\n\n        try:"))
probe("h28-label-not-stored", "C28", (SM, """        await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)

        # For each loaded""", """        if own_label is not None:
            await self.__storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label", own_label)

        # For each loaded"""))
probe("h28-forget-queue", "C28", (SM, "        self.__synchronizing = True\n\n        try:", """        self.__synchronizing = True
        for backend in self.__backends:
            await storage.delete(f"/queue/{backend.namespace}")

        try:"""))
probe("h28-hidden-at-start", "C28", (SM, "        self.__synchronizing = True\n\n        try:", """        self.__synchronizing = True
        for backend in self.__backends:
            await backend.delete_hidden_pre_keys()

        try:"""))
probe("h28-trust-memory", "C28", (SM, """        await self.__storage.store(
            f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}",
            trust_level_name
        )

    ######""", """        key = f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
        if trust_level_name == self.__undecided_trust_level_name:
            await self.__storage.delete(key)
        else:
            await self.__storage.store(key, trust_level_name)

    ######"""))
probe("h28-key-not-stored", "C28", (SM, """                        await storage.store_bytes(
                            f"/devices/{bare_jid}/{device_id}/identity_key",
                            identity_key
                        )
                        break""", """                        if next(iter(dict((await storage.load_dict(
                            f"/devices/{bare_jid}/{device_id}/active", bool
                        )).from_just()).values())):
                            await storage.store_bytes(
                                f"/devices/{bare_jid}/{device_id}/identity_key",
                                identity_key
                            )
                        break"""))
probe("h28-queue-memory", "C28", (SM, """                # Add this device id to the queue
                queued_device_ids = set((await storage.load_list(
                    f"/queue/{session.namespace}/{session.bare_jid}",
                    int
                )).maybe([]))

                queued_device_ids.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(queued_device_ids))
""", """                # Add this device id to the queue
                due = self.__dict__.setdefault("_due", {}).setdefault((session.namespace, session.bare_jid), set())
                due.add(session.device_id)
                await storage.store(f"/queue/{session.namespace}/{session.bare_jid}", list(due))
"""))
probe("h28-delete-cached-only", "C28 C19", (ST, """        await self._delete(key)

        if self.__cache is not None:
            self.__cache[key] = Nothing()
""", """        if self.__cache is None or key in self.__cache:
            await self._delete(key)

        if self.__cache is not None:
            self.__cache[key] = Nothing()
"""))
probe("h28-store-unchanged", "C28", (ST, """        await self._store(key, value)

        if""", """        if self.__cache is not None and isinstance(self.__cache.get(key), Just) and value is None:
            self.__cache[key] = Just(value)
            return
        await self._store(key, value)

        if"""))
probe("h28-inactive-memory", "C28", (SM, """                    if active[namespace] is True:
                        active[namespace] = False
                        await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
""", """                    if active[namespace] is True:
                        active[namespace] = False
                        self.__dict__.setdefault("_inactive", {})[(bare_jid, device_id)] = active
                        if any(active.values()):
                            await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
"""), (SM, """            active = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just()
            label""", """            active = (await storage.load_dict(f"/devices/{bare_jid}/{device_id}/active", bool)).from_just()
            active = self.__dict__.get("_inactive", {}).pop((bare_jid, device_id), active)
            label"""))
probe("h28-relabel", "C28", (SM, "        self.__synchronizing = True\n\n        try:", """        self.__synchronizing = True
        if initial_own_label is not None:
            own_id = (await storage.load_primitive("/own_device_id", int)).maybe(None)
            if own_id is not None:
                await storage.store(f"/devices/{own_bare_jid}/{own_id}/label", initial_own_label)

        try:"""))
