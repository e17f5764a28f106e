"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json
import os

SM = "omemo/session_manager.py"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe:
        anchors["observe_at"] = observe
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors
    })


TESTS = "The two existing tests replay one fixed conversation and one fixed storage migration"

prop(
    "C01", "Plaintext reaches only devices whose identity key is trusted",
    "A message produced by encryption can be opened only by devices whose known identity key evaluates to trusted at"
    " the time of the call, and only with exactly that identity key, even if the server hands out a bundle with a"
    " different one. If any recipient device (known, active in a usable backend, not this device) is undecided, the"
    " application is asked exactly once, for exactly the undecided devices, with the caller's identifier, and"
    " encryption fails if any of them is still undecided afterwards or has an unknown trust level.",
    ["histories", "inputs"],
    "All histories of device lists, bundles (honest, missing, substituted), trust changes and trust callback"
    " behaviours, recipients, backend priority orders.",
    TESTS + " in which all devices are blindly trusted; which of the exponentially many trust states, decision"
    " outcomes and bundle substitutions leaks is a question over histories.",
    [SM], [("recipient filtering and trust evaluation", SM + " encrypt"),
           ("identity key lookup", SM + " get_device_information")],
    ["messages returned by encrypt", "trust decision callback"]
)
prop(
    "C02", "Every eligible recipient device is addressed exactly once or reported",
    "Encryption yields at most one message per backend, and across them exactly one key for each trusted, active"
    " device of each recipient and of the own account other than this device, using the first backend of the priority"
    " order in which the device is active. A device left out because its bundle could not be downloaded or used is"
    " reported as a non-critical error, once, with the reason. Encryption fails for lack of eligible devices exactly"
    " if a recipient other than the own account has no addressed device, naming exactly those recipients, and fails"
    " for unloaded backends in the priority order.",
    ["histories", "inputs"],
    "All device sets, activity states per backend, priority orders, bundle failures and trust assignments.",
    TESTS + " with one recipient device; combinations of backends, orders and partial failures are not sampled.",
    [SM], [("validity filter, priority order, error collection", SM + " encrypt")],
    ["return value and exceptions of encrypt"]
)
prop(
    "C03", "What is encrypted is what every addressee decrypts",
    "Each addressed device that processes the messages meant for it, in any order, obtains exactly the plaintext that"
    " the sender supplied for that backend and the same key material, once; empty messages decrypt to no plaintext."
    " This holds across session establishment in either direction, several backends, restarts of either side, and"
    " lost or reordered messages.",
    ["histories", "schedules", "inputs"],
    "All interleavings of sending, losing, delaying and delivering messages between devices, all plaintexts, all"
    " backends, restarts at any point between operations.",
    TESTS + " delivering every message at once and in order.",
    [SM, "omemo/backend.py", "omemo/message.py"],
    [("session loading, building and persisting", SM + " encrypt, decrypt")],
    ["results of decrypt at the addressees"]
)
prop(
    "C04", "Incoming messages are accepted or rejected by the documented rules",
    "A message is decrypted only if its backend is loaded, it carries a key for this account and this device, the"
    " sending device is on a (possibly just refreshed) device list with an obtainable identity key that is not"
    " distrusted, a session exists or a key exchange carrying the known identity key is included, and the cryptography"
    " succeeds; otherwise it fails with the error documented for the first of these that is not met. On success the"
    " reported sender information is that of the sending device, and messages from undecided senders are decrypted.",
    ["inputs", "histories"],
    "All messages (honest, tampered, spoofed, misaddressed, with or without key exchange), all states of knowledge"
    " about the sender.",
    TESTS + " with honest messages only; rejection paths are not exercised at all.",
    [SM], [("gate sequence", SM + " decrypt")], ["result or exception of decrypt"]
)
prop(
    "C05", "Session state: failed operations leave no trace, message keys are never reused",
    "An encryption or decryption that is refused or fails changes no stored session and no pre key (except that storage"
    " failing half way is not undone, nor is a successful decryption whose follow-up work, uploading the bundle or"
    " sending the reply, fails), and one that succeeds persists exactly the sessions it used, advanced by exactly that"
    " message. No two messages that leave the library, automatic ones included, are ever encrypted with the same message"
    " key of a session, not even across restarts and failures of storage or network at any point.",
    ["histories", "inputs", "fault_sequences"],
    "All histories of successful and failing en- and decryptions, replays, restarts and failing storage or network.",
    TESTS + " without failures; state corruption shows only after a failure or a restart in the right place.",
    [SM], [("persist sessions as final step", SM + " encrypt"), ("persist after full decryption", SM + " decrypt")],
    ["stored sessions", "keys in outgoing messages"]
)
prop(
    "C06", "Device knowledge is the merge of all received device lists",
    "For every account, the reported devices are exactly those ever listed whose identity key is known or obtainable"
    " from a bundle of any backend they were listed for; a device is active for a backend exactly if the most recent"
    " list of that backend contained it, its label is the most recently received one that was not absent, and"
    " its identity key never changes once known. Lists for backends that are not loaded are refused, and failing"
    " bundle downloads only leave out the devices concerned.",
    ["histories"],
    "All sequences of pushed and downloaded device lists for any account and backend, bundle availability, restarts"
    " with different backends.",
    TESTS + " with one list per account; merging across backends, deactivation and reactivation are unsampled.",
    [SM], [("merge of one list", SM + " update_device_list"), ("identity key lookup", SM + " get_device_information")],
    ["get_device_information, get_own_device_information"]
)
prop(
    "C07", "This device stays advertised with its label",
    "Whenever a device list of the own account for a loaded backend is processed that does not contain this device,"
    " the list is republished with exactly this device added under its current label; lists that contain it, lists of"
    " other accounts and lists of other backends are never republished. Changing the label updates the stored label"
    " and this device's entry on the published list of every loaded backend, and nothing else.",
    ["histories"],
    "All sequences of list updates, refreshes, label changes and third-party changes to the published lists.",
    TESTS + " and never remove the device from its list.",
    [SM], [("own device check", SM + " update_device_list"), ("label upload", SM + " set_own_label")],
    ["uploaded device lists"]
)
prop(
    "C08", "Used pre keys are withdrawn, replenished and the bundle republished",
    "After an incoming key exchange was processed, the pre key it used is no longer offered, all others still are, and"
    " if the number of offered pre keys is at or below the configured threshold it is raised to 100. As long"
    " as no upload failed, the published bundle of each loaded backend equals the local one after every operation, and"
    " the offered pre keys never drop to the threshold or exceed 100.",
    ["histories", "configurations"],
    "All histories of key exchanges (fresh, repeated, from outdated bundles), in and out of catch-up, for all"
    " thresholds, across restarts.",
    TESTS + " with a handful of key exchanges and the default threshold.",
    [SM], [("pre key handling after decryption", SM + " decrypt"), ("initial pre keys", SM + " create")],
    ["uploaded bundles", "backend pre key state"]
)
prop(
    "C09", "Catch-up defers replies and keeps used pre keys until it ends",
    "From creation, or from the explicit start of a catch-up, until its end, no message is sent automatically and used"
    " pre keys are retained, so that further key exchanges using the same pre key still succeed. The end of the"
    " catch-up deletes all retained pre keys and sends exactly one empty message for each session for which a reply"
    " was due since, including those due before a restart, unless the session is gone. A message that can't be sent is"
    " reported and not repeated, but keeps no other from being sent; if the end of the catch-up is interrupted by the"
    " storage, repeating it sends what was not sent yet (and may repeat what was).",
    ["histories", "fault_sequences"],
    "All histories of incoming messages, catch-up starts and ends, restarts, purges, several backends and senders,"
    " failing sends and interruptions.",
    TESTS + " and end catch-up at once.",
    [SM], [("queue", SM + " decrypt, after_history_sync"), ("hidden pre keys", SM + " decrypt, after_history_sync")],
    ["messages sent", "retained pre keys"]
)
prop(
    "C10", "Key exchange data accompanies messages until confirmed; replies when due",
    "Every outgoing message to a device carries the key exchange data of its session as long as this side initiated"
    " the session and nothing has been received through it, and never otherwise. Outside catch-up, decrypting a message"
    " that carried a key exchange, or one that brings the receiving chain beyond 53 messages, sends exactly one empty"
    " message to that device through the same session, and nothing else ever sends one except session replacement and"
    " the end of catch-up.",
    ["histories"],
    "All histories of messages in both directions with loss and reordering, chains of any length.",
    TESTS + " and never get near the staleness limit.",
    [SM], [("key exchange attachment", SM + " encrypt, __send_empty_message"), ("staleness rule", SM + " decrypt")],
    ["outgoing messages"]
)
prop(
    "C11", "Session replacement is all-or-nothing per backend",
    "Replacing the sessions with a device affects exactly the loaded backends that have a session with it. For each of"
    " these, either one empty message announcing a new session with the known identity key is sent to the device's"
    " account and then that session is stored, or the old session is kept untouched and the reason is reported for"
    " that backend, without hindering the others. Reported sending chain lengths are those of the stored sessions.",
    ["histories", "fault_sequences"],
    "All states of sessions per backend, bundle failures or substitutions and message sending failures per backend.",
    "No existing test replaces a session.",
    [SM], [("replacement", SM + " replace_sessions"), ("chain length", SM + " get_sending_chain_length")],
    ["stored sessions", "messages sent", "result of replace_sessions"]
)
prop(
    "C12", "Start-up is idempotent and tracks the set of loaded backends",
    "The first start generates a device id in the allowed range that no list of the own account for a loaded backend"
    " contains, and one identity key used by all backends; later starts keep both, along with all stored state and"
    " labels. After every start each loaded backend that is new has 100 or more than the threshold of pre keys, its"
    " bundle and this device's list entry published, and for each backend no longer loaded list entry and bundle are"
    " withdrawn while its offline data is kept; a start with the same backends publishes nothing. Duplicate backends"
    " and refill thresholds outside 25 to 99 are refused.",
    ["histories", "configurations"],
    "All sequences of starts with any sets of backends in between other operations, all prior contents of the own"
    " device lists.",
    TESTS + "; backends are neither added nor removed.",
    [SM, "omemo/identity_key_pair.py"], [("first run and backend changes", SM + " create")],
    ["published data after create", "get_own_device_information"]
)
prop(
    "C13", "Interrupted operations can be repeated with the result of one clean run",
    "If start-up, processing a device list, setting the label, restoring consistency, purging a backend or purging an"
    " account fails at any interaction with storage or network, then after repeating it, in the same process or"
    " after a restart, known devices, trust, sessions and published lists and bundles are what a run without failure"
    " gives. (The deletion of the bundle of a backend left out of a start-up is the exception: it is attempted once.)",
    ["fault_sequences", "crash_points", "histories"],
    "Every interaction with storage or network as the point of failure, the failing write having taken effect or not,"
    " in all generated states. (Purging a backend: the deletion of the bundle, documented as the last and low"
    " priority step, excepted.)",
    TESTS + " with storage and network that never fail.",
    [SM], [("order of persisting steps", SM + " create, update_device_list, purge_backend, purge_bare_jid")],
    ["published and stored state after the retry"]
)
prop(
    "C14", "Purging a backend removes its data and nothing else",
    "Purging a backend takes this device off that backend's published list, deletes its bundle and its entries in the"
    " own device information, and, if the backend is loaded, unloads it and deletes its offline data, including replies that are due. Everything"
    " that belongs to other backends, other devices and other accounts stays as it was.",
    ["histories"],
    "All states reachable by any history, loaded and unloaded backends.",
    "No existing test purges a backend.",
    [SM], [("purge", SM + " purge_backend")], ["published lists and bundles, stored data"]
)
prop(
    "C15", "Purging an account erases it and nothing else",
    "After purging an account, none of its devices is known, no trust given to the identity keys of its devices and no"
    " session or pending reply of a loaded backend remains, so that it is treated like one never seen, and nothing"
    " else about its devices is left in storage. Devices, trust, sessions and pending replies of all other accounts, also of those with similar addresses or the same identity"
    " keys, stay as they were.",
    ["histories"],
    "All states reachable by any history, accounts whose addresses contain each other or share identity keys.",
    "No existing test purges an account.",
    [SM], [("purge", SM + " purge_bare_jid")], ["device information, storage contents, sessions"]
)
prop(
    "C16", "Trust is kept per account and identity key",
    "The trust level reported for a device is always the last one set for its identity key under its account, and the"
    " configured undecided level if none was set; it is independent of device ids, backends and the activity of the"
    " device, and persists across restarts. Setting trust for one account and key affects no other account or key.",
    ["histories", "inputs"],
    "All interleavings of trust changes with list updates, restarts and purges, similar keys and shared keys.",
    TESTS + " without any change of trust.",
    [SM], [("trust entries", SM + " set_trust, get_device_information")], ["trust level in device information"]
)
prop(
    "C17", "Signed pre keys are rotated on time and the new bundle gets published",
    "While the session manager runs, a signed pre key older than the rotation period is rotated at the next check, and"
    " no key is ever rotated early; checks happen at the latest one minute after a key becomes due (backlog of failing"
    " uploads excepted). After a rotation the new bundle is uploaded, and if that fails it is retried after one minute,"
    " doubling the delay up to one hour, until it succeeds. Once a backend was purged, nothing is rotated or uploaded"
    " for it any more.",
    ["schedules", "fault_sequences", "configurations"],
    "All rotation periods, initial ages, numbers of backends, sequences of upload failures, purges, both supported"
    " asynchronous frameworks.",
    TESTS + " which end before any rotation is due.",
    [SM], [("rotation loop", SM + " __manage_signed_pre_key_rotation")], ["uploads and rotations over time"]
)
prop(
    "C18", "Consistency restoration makes published data match local data",
    "After restoring consistency succeeded, for every loaded backend this device is on the published device list next"
    " to everything that was there, the published bundle equals the local one, and the local device information"
    " reflects the published list, whatever was changed or removed on the server before or could not be downloaded."
    " Nothing that already matches is uploaded.",
    ["histories", "fault_sequences"],
    "All deviations of the published data from the local data, bundle download failures included.",
    "No existing test calls it.",
    [SM], [("comparison and upload", SM + " ensure_data_consistency")], ["published lists and bundles"]
)
prop(
    "C19", "The storage cache is transparent",
    "Every load returns what the most recent completed store or delete for that key left, exactly as without a cache,"
    " including after operations that failed without effect and when loads overlap with writes; mutating a value after"
    " it was passed to or returned from the storage never changes what is stored or loaded later.",
    ["histories", "schedules", "fault_sequences", "inputs"],
    "All sequences and interleavings of operations on several keys with slow and failing storage, all JSON values."
    " (Overlapping writes to one key excepted.)",
    "No existing test exercises failures or overlapping operations of the storage.",
    ["omemo/storage.py"], [("cache", "omemo/storage.py Storage.load, store, delete"),
                           ("copying", "omemo/storage.py Just")],
    ["results of load"]
)
prop(
    "C20", "Typed storage access returns the stored value or a clear absence",
    "Bytes, primitives, optionals, lists and dictionaries come back from the storage equal to what was stored, through"
    " every storage that preserves JSON, and a missing value is reported as absence, distinct from every stored value"
    " including null, false, zero and empty. A value of the wrong type is refused instead of returned.",
    ["inputs"],
    "All JSON values, byte strings and types, keys present, absent and deleted.",
    "Existing tests store a few fixed values.",
    ["omemo/storage.py"], [("typed loads", "omemo/storage.py load_bytes, load_primitive, load_optional, load_list,"
                            " load_dict"), ("Maybe", "omemo/storage.py Maybe")],
    ["return values of the typed loads"]
)
prop(
    "C21", "The identity key pair is created once and is consistent in all its forms",
    "Loading the identity key pair from the same storage always yields the same key pair, whether it is held as a seed"
    " or as a private key, also if the storage fails in between; the public key belongs to the private key, and"
    " converting a seed-based key pair keeps private and public key. A fingerprint is 8 groups of 8 lowercase hex"
    " digits that, joined, are the Curve25519 form of the identity key.",
    ["inputs", "fault_sequences", "histories"],
    "All keys and seeds, storage failures at any point of creation, key pairs stored by earlier versions.",
    "Existing tests look at one or two stored keys.",
    ["omemo/identity_key_pair.py", SM],
    [("creation and loading", "omemo/identity_key_pair.py IdentityKeyPair.get"),
     ("fingerprint", SM + " format_identity_key")],
    ["identity_key, is_priv, as_priv, format_identity_key"]
)
prop(
    "C22", "Skipped message key limits are validated exactly as documented",
    "A backend accepts a non-negative per-session limit together with a per-message limit exactly if the latter is"
    " omitted, or between 1 and the per-session limit, or both are 0; it then reports the given limits, the omitted one"
    " being equal to the per-session limit. All other combinations are refused.",
    ["inputs"],
    "All pairs of integers.",
    "No existing test passes a per-message limit.",
    ["omemo/backend.py"], [("validation", "omemo/backend.py Backend.__init__")], ["constructor and properties"]
)
prop(
    "C24", "Containers handed over by the caller are never modified",
    "No operation modifies a list or dictionary that the caller passed to it, and changing such a container after the"
    " call has returned does not affect the library.",
    ["histories", "inputs"],
    "All operations that take containers, in all generated states.",
    "Existing tests do not look at their arguments after the call.",
    [SM], [("copies", SM + " create, update_device_list, encrypt")], ["arguments after the call"]
)
prop(
    "C25", "Operations concerning different accounts may overlap",
    "Processing device lists, looking up devices, setting trust, encrypting, decrypting, replacing sessions and purging"
    " for one account, and changing the own label, give the same results and leave the same state behind when they"
    " overlap with such operations for other accounts, in whatever order the accesses to storage, network and backends"
    " take effect, as when all are done one after another. Presumed are one operation at a time per account, key"
    " exchanges coming in from one account only, and, for encryption, no other devices of the own account.",
    ["schedules"],
    "All interleavings of operations about several accounts.",
    "The existing tests await one operation after another, and a test of its own shows one interleaving.",
    [SM, "omemo/storage.py"],
    [("no state shared between calls", SM + " encrypt, decrypt, update_device_list, get_device_information")],
    ["results of all calls", "devices, sessions, published data afterwards"]
)
prop(
    "C26", "Whatever fails is reported",
    "If an interaction with storage, network or the application's callbacks fails, the operation in progress ends with"
    " the error of that interaction: a StorageException, the failed upload, download, deletion or sending,"
    " UnknownTrustLevel or TrustDecisionFailed, even if other parts of the operation succeeded. Documented exceptions are"
    " bundles that can't be downloaded (encryption reports an error for the device, a missing own bundle is published"
    " again, device information goes without the identity key), session replacement, which reports per backend, and"
    " rotation, which tries again.",
    ["crash_points"],
    "All states before an operation and all of its interactions as points of failure.",
    "The existing tests never let storage, network or a callback fail.",
    [SM, "omemo/storage.py"],
    [("declared exceptions", SM + " raises sections"), ("handlers", SM + " except XMPPInteractionFailed")],
    ["exception or result of the operation"]
)
prop(
    "C27", "Failed encryption and decryption can be repeated and the conversation goes on",
    "If encrypting or decrypting a message fails at any interaction with storage, network or the application's"
    " callbacks, it can be repeated, in the same process or after a restart: encryption then reaches the same devices"
    " as without the failure, and a message whose session was not stored yet when its decryption failed is decrypted"
    " with the same result. Whatever failed, later messages in both directions are readable as without the failure.",
    ["crash_points", "fault_sequences", "histories"],
    "All states before, all interactions of the operation as points of failure, and what is said afterwards.",
    "The existing tests never let storage, network or a callback fail.",
    [SM, "omemo/storage.py"],
    [("order of persisting steps", SM + " encrypt, decrypt"), ("cache updated after success", "omemo/storage.py store")],
    ["results of the repeated operation", "readability of later messages"]
)
prop(
    "C28", "Restarts and the storage cache go unnoticed",
    "Everything the library knows is in the storage: stopping it between two operations and starting it again with the"
    " same storage, backends and configuration changes none of the results, messages and published data that follow,"
    " except that it is in history synchronization mode again and has looked up the devices of the own account."
    " Whether the storage caches makes no difference either.",
    ["histories", "configurations"],
    "All histories, with restarts at any points between operations.",
    TESTS + ", within one run, and with a cold cache.",
    [SM, "omemo/storage.py"],
    [("state loaded at start", SM + " create"), ("queues of due replies", SM + " after_history_sync"),
     ("cache", "omemo/storage.py load, store, delete")],
    ["results of all operations", "messages sent", "published lists and bundles", "sessions"]
)
prop(
    "C29", "Operations cause only the network traffic they need",
    "Bundles are downloaded only to learn the identity key of a listed device whose key isn't known, until one is found,"
    " to build a session with a trusted device that is about to be encrypted for or whose session is replaced, and for"
    " the consistency check of the own bundle; a bundle that was downloaded is not downloaded again by the same"
    " operation. Device lists are downloaded only on request, to find an unknown sender, to change the own list, and when"
    " a backend is loaded first or removed. The own list is published only if it lacks this device, its label is set or a"
    " backend is removed; the own bundle only if it changed, or for a backend loaded first, or if consistency restoration"
    " can't download it. Messages are sent only to answer the sender of a message, to announce a replaced session, or at"
    " the end of a catch-up, one per session. All other operations, and starting again with the same backends, need no"
    " network, except for identity keys of own devices not known yet at the start.",
    ["histories"],
    "All histories, with any knowledge of identity keys, sessions and trust before each call.",
    TESTS + ", and never count what goes over the network.",
    [SM],
    [("bundles kept for session building", SM + " encrypt"), ("known identity keys", SM + " __get_device_information"),
     ("republishing on change only", SM + " update_device_list, decrypt, ensure_data_consistency")],
    ["calls of the application's network methods, per public method call"]
)

if __name__ == "__main__":
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
