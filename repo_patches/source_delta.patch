From 0734a4cd3b25cad6e75c9acab768db6e1304d1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:10 +0000
Subject: [PATCH 01/15] fix: accept valid per-message skipped message key
 limits

The condition was parsed as `limit or (0 > maximum)`, so that every nonzero per-message limit was rejected.
---
 omemo/backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/backend.py b/omemo/backend.py
index 2e15ebc..cd2c4bc 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -111,7 +111,7 @@ class Backend(ABC):
                 " skipped keys to keep is nonzero."
             )
 
-        if max_num_per_message_skipped_keys or 0 > max_num_per_session_skipped_keys:
+        if (max_num_per_message_skipped_keys or 0) > max_num_per_session_skipped_keys:
             raise ValueError(
                 "The number of allowed per-message skipped keys must not be greater than the number of"
                 " per-session skipped keys to keep."
-- 
2.43.0


From c0c39ae4a9e5453deb327c0dacaa597ddef3f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:12 +0000
Subject: [PATCH 02/15] fix: double the delay between bundle upload attempts
 after signed pre key rotation

The delay was reset to one minute before each attempt.
---
 omemo/session_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index c5fc7d3..2c71989 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -676,8 +676,8 @@ class SessionManager(ABC):
 
                     # Rotate the signed pre if necessary
                     await backend.rotate_signed_pre_key()
+                    retry_delay = 60  # Start with one minute of retry delay
                     while True:
-                        retry_delay = 60  # Start with one minute of retry delay
                         try:
                             await self._upload_bundle(await backend.get_bundle(
                                 self.__own_bare_jid,
-- 
2.43.0


From 60a26c5224ddbd76ccc7118ccf5fdae5429dc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:14 +0000
Subject: [PATCH 03/15] fix: never build sessions with bundles of an identity
 key other than the known one

Trust is decided for the identity key stored for a device. A bundle downloaded afterwards may contain a different
identity key, in which case the message was encrypted for a key nobody decided to trust.
---
 omemo/session_manager.py | 56 ++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 2c71989..3afe8c8 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1235,15 +1235,23 @@ class SessionManager(ABC):
                     # Prepare an empty message
                     content, plain_key_material = await backend.encrypt_empty()
 
+                    # Only use bundles that belong to the identity key known for the device
+                    bundle = await self._download_bundle(
+                        backend.namespace,
+                        device.bare_jid,
+                        device.device_id
+                    )
+                    if bundle.identity_key != device.identity_key:
+                        raise KeyExchangeFailed(
+                            "The identity key in the bundle does not match the identity key known for the"
+                            " device."
+                        )
+
                     # Build a new session to replace the old one
                     session, encrypted_key_material = await backend.build_session_active(
                         device.bare_jid,
                         device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
-                            device.bare_jid,
-                            device.device_id
-                        ),
+                        bundle,
                         plain_key_material
                     )
 
@@ -1896,19 +1904,33 @@ class SessionManager(ABC):
 
                 try:
                     # Build the session if necessary, and encrypt the key material
-                    session, encrypted_key_material = await backend.build_session_active(
-                        device.bare_jid,
-                        device.device_id,
-                        await self._download_bundle(
-                            backend.namespace,
+                    if session is None:
+                        if bundle is None:
+                            bundle = await self._download_bundle(
+                                backend.namespace,
+                                device.bare_jid,
+                                device.device_id
+                            )
+
+                        # The trust decision was made for the identity key known for the device. Make sure
+                        # that the session is built with that same identity key.
+                        if bundle.identity_key != device.identity_key:
+                            raise KeyExchangeFailed(
+                                "The identity key in the bundle does not match the identity key known for"
+                                " the device."
+                            )
+
+                        session, encrypted_key_material = await backend.build_session_active(
                             device.bare_jid,
-                            device.device_id
-                        ) if bundle is None else bundle,
-                        plain_key_material
-                    ) if session is None else (session, await backend.encrypt_key_material(
-                        session,
-                        plain_key_material
-                    ))
+                            device.device_id,
+                            bundle,
+                            plain_key_material
+                        )
+                    else:
+                        encrypted_key_material = await backend.encrypt_key_material(
+                            session,
+                            plain_key_material
+                        )
                 except (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed) as e:
                     # Those failures are non-critical, i.e. encryption for other devices is still performed
                     # and the errors are simply collected and returned.
-- 
2.43.0


From 065b8ef20b91c9b59a99edffce7af9779e61cdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:37 +0000
Subject: [PATCH 04/15] fix: resume an interrupted creation of the session
 manager

The own device id and the supported namespaces were persisted before the backends were initialized, so that a failed
bundle or device list upload was never retried by the next call to create.
---
 omemo/session_manager.py | 41 ++++++----------------------------------
 1 file changed, 6 insertions(+), 35 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 3afe8c8..8a28b4d 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -376,16 +376,11 @@ class SessionManager(ABC):
             ))
             logging.getLogger(SessionManager.LOG_TAG).debug(f"Generated device id: {self.__own_device_id}")
 
-            # Store the device information for this device
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                [ backend.namespace for backend in self.__backends ]
-            )
+            # Store the device information for this device. The namespaces of the loaded backends are added
+            # one by one as the last step of the initialization of each backend below.
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces", [])
 
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { backend.namespace: True for backend in self.__backends }
-            )
+            await storage.store(f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active", {})
 
             await storage.store(
                 f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
@@ -415,19 +410,6 @@ class SessionManager(ABC):
             # Finally store the device id once the other setup is done
             await self.__storage.store("/own_device_id", self.__own_device_id)
 
-            # Generate the first 100 pre keys for each backend
-            for backend in self.__backends:
-                await backend.generate_pre_keys(100)
-
-            # Publish the bundles for all backends
-            for backend in self.__backends:
-                await self._upload_bundle(await backend.get_bundle(self.__own_bare_jid, self.__own_device_id))
-
-            # Trigger a refresh of the own device lists for all backends, this will result in this device
-            # being added to the lists and the lists republished.
-            for backend in self.__backends:
-                await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
-
         # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
         device, _ = await self.get_own_device_information()
         loaded_namespaces = frozenset(backend.namespace for backend in self.__backends)
@@ -438,18 +420,6 @@ class SessionManager(ABC):
                 f" {loaded_namespaces} vs. {active_namespaces} (now vs. previous run)"
             )
 
-            # Set the device active for all loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/active",
-                { namespace: True for namespace in loaded_namespaces }
-            )
-
-            # Store the updated list of loaded namespaces
-            await storage.store(
-                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/namespaces",
-                list(loaded_namespaces)
-            )
-
             # Take care of the initialization of newly added backends
             for backend in self.__backends:
                 if backend.namespace not in active_namespaces:
@@ -465,7 +435,8 @@ class SessionManager(ABC):
                     ))
 
                     # Trigger a refresh of the own device list of the new backend, this will result in this
-                    # device being added to the lists and the lists republished.
+                    # device being added to the lists and the lists republished. It also persists that the
+                    # backend was initialized, thus this has to be the last step.
                     await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
 
             # Perform cleanup of removed backends
-- 
2.43.0


From eaf076038d577f41fa47c6c60d9d6b1e8376f551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:40 +0000
Subject: [PATCH 05/15] fix: tolerate unknown namespaces when downloading
 bundles for identity keys

Devices may be known to support a backend that is not currently loaded, in which case _download_bundle may raise
UnknownNamespace.
---
 omemo/session_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 8a28b4d..a03a280 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1418,6 +1418,12 @@ class SessionManager(ABC):
                             f" namespace {namespace}.",
                             exc_info=True
                         )
+                    except UnknownNamespace:
+                        logging.getLogger(SessionManager.LOG_TAG).debug(
+                            f"Can't download the bundle of device {device_id} of bare JID {bare_jid} for"
+                            f" namespace {namespace}, since the namespace is unknown.",
+                            exc_info=True
+                        )
                     else:
                         logging.getLogger(SessionManager.LOG_TAG).debug(
                             f"Identity key information extracted from bundle of namespace {namespace}."
-- 
2.43.0


From d1d520373a866593240342d7a7ac02c7e5b2d135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 06/15] fix: delete trust information before the device
 information in purge_bare_jid

An interrupted purge could not be completed by calling it again, since the identity keys were not known anymore.
---
 omemo/session_manager.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index a03a280..1f48afa 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -569,6 +569,13 @@ class SessionManager(ABC):
             except NothingException:
                 pass
 
+        # Delete information about the identity keys. Do this first, since the identity keys can't be found
+        # anymore once the information about the individual devices is gone.
+        for identity_key in identity_keys:
+            await storage.delete(
+                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
+            )
+
         # Delete information about the individual devices
         for device_id in device_list:
             await storage.delete(f"/devices/{bare_jid}/{device_id}/namespaces")
@@ -579,12 +586,6 @@ class SessionManager(ABC):
         # Delete the device list
         await storage.delete(f"/devices/{bare_jid}/list")
 
-        # Delete information about the identity keys
-        for identity_key in identity_keys:
-            await storage.delete(
-                f"/trust/{bare_jid}/{base64.urlsafe_b64encode(identity_key).decode('ASCII')}"
-            )
-
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From d30fdfee8927a3905a4d7bfbfc2070b44b46519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:43 +0000
Subject: [PATCH 07/15] fix: remove queued empty messages in purge_bare_jid

---
 omemo/session_manager.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 1f48afa..1857d6a 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -586,6 +586,15 @@ class SessionManager(ABC):
         # Delete the device list
         await storage.delete(f"/devices/{bare_jid}/list")
 
+        # Remove queued empty messages
+        for backend in self.__backends:
+            await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
+
+            queued_jids = set((await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]))
+            if bare_jid in queued_jids:
+                queued_jids.remove(bare_jid)
+                await storage.store(f"/queue/{backend.namespace}", list(queued_jids))
+
         # Remove backend-specific data
         for backend in self.__backends:
             await backend.purge_bare_jid(bare_jid)
-- 
2.43.0


From 53eb1ac3aa75dfe435f3ff302451acabcc54eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:45 +0000
Subject: [PATCH 08/15] fix: never overwrite newer cached values with outdated
 loaded ones

---
 omemo/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omemo/storage.py b/omemo/storage.py
index 4f344c3..6db3147 100644
--- a/omemo/storage.py
+++ b/omemo/storage.py
@@ -249,7 +249,9 @@ class Storage(ABC):
 
         value = await self._load(key)
         if self.__cache is not None:
-            self.__cache[key] = value
+            # The value could have been stored or deleted while it was being loaded. Never overwrite the newer
+            # cached value with the outdated loaded one.
+            return self.__cache.setdefault(key, value)
         return value
 
     async def store(self, key: str, value: JSONType) -> None:
-- 
2.43.0


From 4c9dfde0f6c3b9e90ab9c0eabeab2be58d3036a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:03 +0000
Subject: [PATCH 09/15] fix: unload a purged backend only after its data was
 purged

A purge that failed in the backend could not be repeated, since the backend was not considered loaded anymore.
---
 omemo/session_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 1857d6a..88c5a23 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -519,9 +519,7 @@ class SessionManager(ABC):
             list(device.namespaces)
         )
 
-        # If the backend is currently loaded, remove it from the list of loaded backends
         purged_backend = next(filter(lambda backend: backend.namespace == namespace, self.__backends), None)
-        self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
 
         # Remaining backend-specific offline data removal
         if purged_backend is None:
@@ -536,6 +534,10 @@ class SessionManager(ABC):
             )
             await purged_backend.purge()
 
+            # Remove the backend from the list of loaded backends. Do this only after the purge succeeded, so
+            # that a failed purge can be repeated.
+            self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
+
         # Second half of online data removal: delete the bundle of this device. This step has low priority,
         # thus done last.
         await self._delete_bundle(namespace, self.__own_device_id)
-- 
2.43.0


From bf1791e3d2bef3cbb7b8e57c812df29e0b5084ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:56 +0000
Subject: [PATCH 10/15] fix: mark a backend as initialized only after its
 device list was processed

If processing the own device list was interrupted during creation, the other devices on the list remained unknown.
---
 omemo/session_manager.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 88c5a23..a576780 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1033,8 +1033,14 @@ class SessionManager(ABC):
             await storage.store(f"/devices/{bare_jid}/{device_id}/label", device_list[device_id])
             await storage.store(f"/devices/{bare_jid}/{device_id}/namespaces", [ namespace ])
 
-        # Update namespaces, label and status for previously known devices
-        for device_id in old_device_list:
+        # If there are unknown devices in the new device list, update the list of known devices. Do this after
+        # the information about the new devices was stored to ensure data consistency.
+        if len(new_devices) > 0:
+            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
+
+        # Update namespaces, label and status for previously known devices. This device comes last, since its
+        # namespaces tell which backends are fully initialized.
+        for device_id in sorted(old_device_list, key=lambda device_id: device_id == self.__own_device_id):
             namespaces = set((await storage.load_list(
                 f"/devices/{bare_jid}/{device_id}/namespaces",
                 str
@@ -1071,11 +1077,6 @@ class SessionManager(ABC):
                         active[namespace] = False
                         await storage.store(f"/devices/{bare_jid}/{device_id}/active", active)
 
-        # If there are unknown devices in the new device list, update the list of known devices. Do this as
-        # the last step to ensure data consistency.
-        if len(new_devices) > 0:
-            await storage.store(f"/devices/{bare_jid}/list", list(new_device_list | old_device_list))
-
         logging.getLogger(SessionManager.LOG_TAG).debug("Device list update processed.")
 
     async def refresh_device_list(self, namespace: str, bare_jid: str) -> None:
-- 
2.43.0


From 392110851ca07463b35338b5a2e207c500527cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:06 +0000
Subject: [PATCH 11/15] fix: refuse negative skipped message key limits

---
 omemo/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omemo/backend.py b/omemo/backend.py
index cd2c4bc..b86523f 100644
--- a/omemo/backend.py
+++ b/omemo/backend.py
@@ -117,6 +117,9 @@ class Backend(ABC):
                 " per-session skipped keys to keep."
             )
 
+        if max_num_per_session_skipped_keys < 0 or (max_num_per_message_skipped_keys or 0) < 0:
+            raise ValueError("The numbers of skipped keys to allow and to keep must not be negative.")
+
         self.__max_num_per_session_skipped_keys = max_num_per_session_skipped_keys
         self.__max_num_per_message_skipped_keys = max_num_per_session_skipped_keys if \
             max_num_per_message_skipped_keys is None else max_num_per_message_skipped_keys
-- 
2.43.0


From 15fb9d5a889819364a6fc53a34eb2384242ebf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:49 +0000
Subject: [PATCH 12/15] fix: persist the session before sending an empty
 message

---
 omemo/session_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index a576780..12144f2 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1636,6 +1636,11 @@ class SessionManager(ABC):
 
         content, plain_key_material = await backend.encrypt_empty()
         encrypted_key_material = await backend.encrypt_key_material(session, plain_key_material)
+
+        # Persist the session before the message can leave the library, so that the message key is never used
+        # again, even if sending is reported to have failed or the process ends right after sending.
+        await backend.store_session(session)
+
         await self._send_message(Message(
             backend.namespace,
             self.__own_bare_jid,
@@ -1647,7 +1652,6 @@ class SessionManager(ABC):
                 else None
             )) })
         ), session.bare_jid)
-        await backend.store_session(session)
 
     async def encrypt(
         self,
-- 
2.43.0


From d818d390324d20dd64722378ed4f6f686b33c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 13/15] fix: stop rotating and publishing for backends purged
 in the meantime

---
 omemo/session_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index 12144f2..b1b4abb 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -648,6 +648,10 @@ class SessionManager(ABC):
 
             # For each backend, check whether the signed pre key is due for rotation
             for backend in self.__backends:
+                # Skip backends that were purged while the upload for another backend was stalled
+                if backend not in self.__backends:
+                    continue
+
                 signed_pre_key_age = await backend.signed_pre_key_age()
                 next_rotation = signed_pre_key_rotation_period - signed_pre_key_age
 
@@ -674,6 +678,10 @@ class SessionManager(ABC):
                             await async_sleep(retry_delay)
                             retry_delay *= 2  # Double the retry delay
                             retry_delay = min(retry_delay, 60 * 60)  # Cap the retry delay at one hour
+
+                            # Don't publish the bundle of a backend that was purged in the meantime
+                            if backend not in self.__backends:
+                                break
                         else:
                             break
                 else:
-- 
2.43.0


From 5275ef94e77b15aa6cbce881c0f3d5073fb7f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:34 +0000
Subject: [PATCH 14/15] fix: remove queued empty messages in purge_backend

---
 omemo/session_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index b1b4abb..e06e1d6 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -534,6 +534,11 @@ class SessionManager(ABC):
             )
             await purged_backend.purge()
 
+            # Remove queued empty messages, their sessions are gone
+            for bare_jid in (await self.__storage.load_list(f"/queue/{namespace}", str)).maybe([]):
+                await self.__storage.delete(f"/queue/{namespace}/{bare_jid}")
+            await self.__storage.delete(f"/queue/{namespace}")
+
             # Remove the backend from the list of loaded backends. Do this only after the purge succeeded, so
             # that a failed purge can be repeated.
             self.__backends = list(filter(lambda backend: backend.namespace != namespace, self.__backends))
-- 
2.43.0


From a091f0baa5db356ea279dce3fbb4e857cbd0de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 15/15] fix: a queued empty message that can't be sent doesn't
 keep others from being sent

Exiting history synchronization mode deleted the queues of empty messages before
sending the messages. The first message that could not be sent, or any other
interruption, thus dropped all remaining ones. Messages are now removed from the
queues after sending, and a MessageSendingFailed is raised only after all
messages were attempted.
---
 omemo/session_manager.py | 45 +++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/omemo/session_manager.py b/omemo/session_manager.py
index e06e1d6..c84ec0a 100644
--- a/omemo/session_manager.py
+++ b/omemo/session_manager.py
@@ -1590,11 +1590,13 @@ class SessionManager(ABC):
         for backend in self.__backends:
             await backend.delete_hidden_pre_keys()
 
-        # Send empty messages that were queued while in history synchronization mode
+        # Send empty messages that were queued while in history synchronization mode. A message that can't be
+        # sent doesn't keep the others from being sent, and messages are removed from the queues only after
+        # sending, such that interrupting this loop doesn't lose messages.
+        sending_failed: Optional[MessageSendingFailed] = None
         for backend in self.__backends:
-            # Load and delete the list of bare JIDs that have queued empty messages for this backend
+            # Load the list of bare JIDs that have queued empty messages for this backend
             queued_jids = frozenset((await storage.load_list(f"/queue/{backend.namespace}", str)).maybe([]))
-            await storage.delete(f"/queue/{backend.namespace}")
 
             logging.getLogger(SessionManager.LOG_TAG).debug(
                 f"Bare JIDs for which empty messages are queued for namespace {backend.namespace}:"
@@ -1602,13 +1604,12 @@ class SessionManager(ABC):
             )
 
             for bare_jid in queued_jids:
-                # For each queued bare JID, load and delete the list of devices that have queued an empty
-                # message for this backend
+                # For each queued bare JID, load the list of devices that have queued an empty message for
+                # this backend
                 queued_device_ids = frozenset((await storage.load_list(
                     f"/queue/{backend.namespace}/{bare_jid}",
                     int
                 )).maybe([]))
-                await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
 
                 logging.getLogger(SessionManager.LOG_TAG).debug(f"Queued device ids: {queued_device_ids}")
 
@@ -1622,7 +1623,37 @@ class SessionManager(ABC):
                     else:
                         # It is theoretically possible that the session has been deleted after an empty
                         # message was queued for it.
-                        await self.__send_empty_message(backend, session)
+                        try:
+                            await self.__send_empty_message(backend, session)
+                        except MessageSendingFailed as e:
+                            logging.getLogger(SessionManager.LOG_TAG).warning(
+                                f"Sending the queued empty message for device {device_id} of bare JID"
+                                f" {bare_jid} for namespace {backend.namespace} failed.",
+                                exc_info=True
+                            )
+                            sending_failed = e
+
+                # Remove the devices handled above from the queues, keeping those queued in the meantime
+                remaining_device_ids = set((await storage.load_list(
+                    f"/queue/{backend.namespace}/{bare_jid}",
+                    int
+                )).maybe([])) - queued_device_ids
+
+                if remaining_device_ids:
+                    await storage.store(f"/queue/{backend.namespace}/{bare_jid}", list(remaining_device_ids))
+                else:
+                    await storage.delete(f"/queue/{backend.namespace}/{bare_jid}")
+
+                    remaining_jids = set((await storage.load_list(
+                        f"/queue/{backend.namespace}",
+                        str
+                    )).maybe([]))
+                    if bare_jid in remaining_jids:
+                        remaining_jids.remove(bare_jid)
+                        await storage.store(f"/queue/{backend.namespace}", list(remaining_jids))
+
+        if sending_failed is not None:
+            raise sending_failed
 
         logging.getLogger(SessionManager.LOG_TAG).debug("History synchronization mode exited.")
 
-- 
2.43.0

