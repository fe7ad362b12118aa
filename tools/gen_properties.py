#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

STABLE = "The existing tests cover the MAC, fingerprint, signature and discovery-crypto helpers on fixed inputs; "

p("C01", "Messages are handed over at most once, unaltered, from the right sender",
  "Every message the application is handed carries exactly the content its named sender encrypted for this device, and the same message is never handed over twice. This holds however the service drops, repeats, reorders, delays, misroutes or replays envelopes, and however often the client reconnects, restarts or is killed in between.",
  ["histories", "schedules", "fault_sequences", "crash_points"],
  "all delivery histories of envelopes (loss, duplication, reordering, delay, replay of old envelopes, relabelled sender or type), all interleavings with local sends, reconnects and restarts",
  STABLE + "no test receives a message at all, let alone the same one twice through a restart.",
  ["textsecure.go", "websocket.go", "handler.go", "axolotl/session.go", "axolotl/messages.go", "axolotl/ratchet.go"],
  [("double-ratchet chain counters and skipped-key bookkeeping", "axolotl/session.go getOrCreateMessageKeys"), ("archived session states", "axolotl/session.go decrypt/promoteState"), ("session persisted before the handler runs", "axolotl/session.go SessionDecryptWhisperMessage")],
  [("session record", "current and archived ratchet states of one peer device", "sessions/ directory")],
  ["Client.MessageHandler and the other application callbacks"])

p("C02", "Every intact message of a live session decrypts, in both directions",
  "A message that a protocol-conforming peer encrypted to a session this device still holds, and that reaches it unmodified, is handed to the application whatever was lost, reordered, duplicated, corrupted or crossed before it, including both sides starting sessions at once, peers restarting sessions and restarts of this client (within the protocol's documented limits of skipped messages and remembered sessions). Conversely, a peer that receives what the client reported as sent can decrypt it to exactly what was sent.",
  ["histories", "schedules", "fault_sequences"],
  "all delivery orders and losses within the protocol limits, all ways sessions can be (re)established and crossed, all interleavings of the two directions",
  STABLE + "none runs a conversation; the ratchet has no interoperability oracle.",
  ["axolotl/session.go", "axolotl/ratchet.go", "axolotl/messages.go", "axolotl/prekeys.go", "textsecure.go", "server.go"],
  [("X3DH session setup", "axolotl/ratchet.go initializeSenderSession/initializeReceiverSession"), ("ratchet step on a new remote key", "axolotl/session.go getOrCreateChainKey"), ("archived states tried in turn", "axolotl/session.go decrypt")],
  [("archived states", "sessions superseded by a newer one but still decryptable", "axolotl/session.go SessionRecord")],
  ["Client.MessageHandler", "PUT /v1/messages bodies decrypted by an independent peer implementation"])

p("C03", "Malformed or forged input is rejected without a crash and without a trace",
  "Bytes arriving from the service that are malformed, truncated, corrupted, forged or for a session that does not exist never crash the client and never reach the application as a message. They leave the stored sessions, prekeys and peer identities usable as before, so that genuine traffic sent before or after them, including the genuine original of a corrupted message, is still accepted.",
  ["inputs", "histories", "schedules"],
  "all envelope and websocket payload bytes, at every position in a conversation",
  STABLE + "no test feeds hostile bytes to the receive path or looks at the state afterwards.",
  ["websocket.go", "textsecure.go", "handler.go", "axolotl/messages.go", "axolotl/session.go", "axolotl/keys.go", "axolotl/crypto.go", "sync.go"],
  [("message authentication before use", "axolotl/messages.go verifyMAC"), ("state stored only after successful decryption", "axolotl/session.go SessionDecryptWhisperMessage, SessionDecryptPreKeyWhisperMessage"), ("per-message error handling", "websocket.go StartListening")],
  [("session record / prekeys / remote identities", "must be unchanged by rejected input", "store.go")],
  ["process liveness", "callbacks", "later genuine messages"])

p("C04", "A pinned peer identity is never silently replaced",
  "Once an identity key has been accepted for a peer, no incoming message and no key bundle carrying a different identity key is accepted or encrypted to, and the remembered key does not change, unless the user configured the client to always trust peers. This holds across restarts, concurrent sends and receives, and failing storage reads and writes.",
  ["histories", "fault_sequences", "crash_points", "schedules"],
  "all sequences of peer (re)installations, machine-in-the-middle bundles and messages, with storage faults and restarts anywhere",
  STABLE + "the trust decision is never tested, and never with storage errors.",
  ["store.go", "axolotl/session.go"],
  [("trust on first use", "store.go IsTrustedIdentity/SaveIdentity"), ("trust check before session setup", "axolotl/session.go BuildReceiverSession/BuildSenderSession")],
  [("remote identity records", "the pinned key of each peer", "identity/remote_*")],
  ["ContactIdentityKey", "NotTrustedError", "keys used in outgoing messages"])

p("C05", "A crash leaves every stored record complete, old or new",
  "After the process is killed or power is lost at any point, every persisted key, prekey, session and identity record reads back as one complete value that had been written, either the last completed one or the one in progress, never torn, emptied or missing. The next start succeeds with the same identity and registration and messaging with existing peers continues.",
  ["crash_points", "fault_sequences", "histories"],
  "every point inside every file operation of every API call, with process-kill and power-loss semantics, repeated crashes, short writes and full disks",
  STABLE + "none writes a file.",
  ["store.go", "prekeys.go", "axolotl/session.go"],
  [("record writes", "store.go writeFile"), ("record reads", "store.go readFile/decrypt")],
  [("key store files", "prekeys, signed_prekeys, identity, sessions, salt", "config StorageDir")],
  ["Setup after restart", "MyIdentityKey", "subsequent sends and receives"])

p("C06", "No message key ever encrypts two different messages",
  "Across concurrent calls, failed or partial storage writes, unreadable session files, crashes, power loss and restarts, no two different plaintexts leave the device encrypted under the same message key, and an established session is never silently replaced because its file could not be read. When session state cannot be read or saved, the operation reports an error and hands nothing out.",
  ["crash_points", "fault_sequences", "schedules"],
  "all placements of I/O errors, crashes and interleavings around sends and receives",
  STABLE + "none exercises an encrypting session with failing storage.",
  ["axolotl/session.go", "store.go", "server.go"],
  [("advance and persist before handing out the ciphertext", "axolotl/session.go SessionEncryptMessage"), ("session lock", "axolotl/session.go SessionStore.Lock"), ("error reporting of reads", "store.go LoadSession")],
  [("sending chain key", "next key to use", "session record")],
  ["ciphertexts reaching the service"])

p("C07", "One-time prekeys serve one session and are never lost or unbacked",
  "Every prekey and signed prekey the client publishes has its private half in storage at that moment, the batch has distinct ids and a separate last-resort key, and the signature verifies. A one-time prekey is deleted once a session built with it has been stored and is not usable again, is kept when the message that names it is rejected or its session could not be stored, and the last-resort and signed prekeys survive any number of uses.",
  ["histories", "crash_points", "fault_sequences", "inputs"],
  "all random prekey id choices including the boundaries, all prekey message histories, with crashes and storage faults anywhere",
  STABLE + "prekey generation runs against no store and with no chosen ids.",
  ["prekeys.go", "store.go", "axolotl/session.go", "axolotl/prekeys.go"],
  [("generation and publication", "prekeys.go generatePreKeys/generatePreKeyState, server.go registerPreKeys"), ("removal after use", "axolotl/session.go SessionDecryptPreKeyWhisperMessage")],
  [("prekey files", "private halves of published prekeys", "prekeys/, signed_prekeys/")],
  ["PUT /v2/keys body", "acceptance of first messages from new peers"])

p("C08", "Concurrent sends, receives and session resets act as if one at a time",
  "When the application sends to the same or different peers from several threads while messages are being received and sessions are being ended, every call returns, and the outcome equals that of some sequential order of the calls: each successful send is decryptable by its recipient exactly as sent, no received message is lost or doubled because of the overlap, and no call crashes or blocks forever.",
  ["schedules"],
  "all interleavings of concurrent API calls and the receive loop at file, lock, channel, network and statement granularity",
  STABLE + "no test starts two goroutines.",
  ["axolotl/session.go", "server.go", "sender.go", "textsecure.go", "store.go"],
  [("session store lock", "axolotl/session.go"), ("global device lists", "server.go deviceLists")],
  [("session record", "read-modify-written by senders and the receive loop", "sessions/")],
  ["return values", "ciphertexts", "callbacks"])

p("C09", "Each service request is acknowledged once, with its id, after it was processed",
  "Every request the service pushes over a live connection is acknowledged exactly once, with its own request id and success status, in order, and only after the application callback it causes has returned; requests that cannot be processed are acknowledged too, so they do not block the queue. If the client dies before a message was processed, the message is not acknowledged.",
  ["schedules", "crash_points", "histories", "fault_sequences"],
  "all schedules of reader and writer, connection losses, kills, slow or failing processing, and mixtures of valid, empty and invalid requests",
  STABLE + "there is no websocket test.",
  ["websocket.go"],
  [("ack after handling", "websocket.go StartListening/sendAck"), ("single writer", "websocket.go writeWorker")],
  [("send queue", "acks not yet written", "websocket.go Conn.send")],
  ["response frames seen by the service"])

p("C10", "The connection is kept alive, dead peers are noticed, and stopping stops",
  "While listening, the client pings an idle service often enough to be kept connected and stays connected as long as the service answers; if the connection dies silently, the listening call returns an error within a bounded time (two minutes); a later listening call works again. Stopping makes the listening call return promptly, may be called at any time and in any state without crashing, and no worker keeps running long after the connection is gone.",
  ["schedules", "fault_sequences"],
  "all timings of traffic, pongs, silent partitions, resets and stop calls on the simulated clock",
  STABLE + "timeouts of a minute are never waited for.",
  ["websocket.go"],
  [("ping ticker, read and write deadlines", "websocket.go"), ("pong handler", "websocket.go StartListening")],
  [("read deadline", "latest time by which a pong must arrive", "websocket.go")],
  ["return of StartListening/StopListening", "ping frames", "live goroutines"])

p("C11", "A successful send reaches every current device, and own devices when asked",
  "A send that reports success has been accepted by the service with exactly one ciphertext for each current device of the recipient, each decryptable to the same message, however devices are added, removed or reinstalled in between and across client restarts. When the service asks for it, the user's other devices receive a transcript of the message; a failing transcript never crashes the client or turns a delivered message into a failure.",
  ["histories", "schedules", "fault_sequences"],
  "all histories of device additions, removals and reinstallations at the recipient and own account, interleaved with sends, restarts and network faults",
  STABLE + "the mismatch protocol needs a server and is never run.",
  ["server.go", "sender.go"],
  [("409/410 handling", "server.go buildAndSendMessage"), ("sync transcript", "sender.go sendMessage/sendSyncMessage")],
  [("device lists", "devices each peer is believed to have", "server.go deviceLists")],
  ["accepted PUT /v1/messages bodies", "return values"])

p("C12", "Attachments arrive byte for byte or not at all",
  "Attachment bytes handed to the application are exactly the bytes the sender uploaded; when the download fails, is truncated, garbled, swapped or answered with an error page, the application is not handed altered or foreign bytes and the client does not crash. An upload that is reported as sent can be fetched and verified by the recipient with the keys, digest and size in the message and gives back the original bytes; a failed upload is reported and no message is sent.",
  ["fault_sequences", "inputs", "histories"],
  "all failures of allocation, upload and download, at every byte position, and all attachment sizes",
  STABLE + "attachments need a CDN and are not tested.",
  ["attachments.go", "crypto.go", "handler.go", "server.go", "transport/transport.go"],
  [("encrypt-then-MAC", "crypto.go, attachments.go"), ("MAC check on download", "attachments.go handleSingleAttachment")],
  [],
  ["Attachment.R in callbacks", "CDN contents", "attachment pointers in sent messages"])

p("C13", "Stored secrets are encrypted, and tampered records are refused",
  "With a storage password, none of the client's private keys, session secrets or service credentials ever appear in clear in the key store's files, including temporary and partially written ones. A record that was modified, truncated, or written under another password is reported as an error and never used as a key or session, and starting with a wrong password fails without destroying the store.",
  ["fault_sequences", "crash_points", "inputs"],
  "every byte of every record flipped or cut, every instant of the life of the store observed",
  STABLE + "only the MAC helper is tested.",
  ["store.go", "crypto.go"],
  [("encrypt-then-MAC of records", "store.go encrypt/decrypt"), ("password-derived keys", "store.go genKeys")],
  [("key store files", "encrypted records", "config StorageDir")],
  ["bytes on the simulated disk", "errors after tampering"])

p("C14", "Interrupted registration is completed or repeated, never half done",
  "Whenever registration is interrupted by a kill, power loss, full disk, network failure or a refusing service, a later start either registers again or continues, and never presents itself as set up while the service lacks usable keys for the device or the store lacks a record it needs. After a start that reports success, the published identity, prekeys and signed prekey match the private keys in the store and first messages from new peers can be read.",
  ["crash_points", "fault_sequences"],
  "every point of the first-run sequence, every single and repeated failure of its file, network and helper-process steps",
  STABLE + "Setup is never run.",
  ["textsecure.go", "prekeys.go", "store.go", "crayfish/register.go", "config.go"],
  [("registered marker", "store.go valid"), ("registration sequence", "textsecure.go Setup/registerDevice")],
  [("last-resort prekey file", "doubles as the marker of a finished registration", "prekeys/")],
  ["Setup return value", "keys held by the service", "store contents"])

p("C15", "Helper-process requests get their own answer or an error",
  "Every request made to the crayfish helper process returns the helper's answer to that very request, or an error, within bounded time: answers are never lost because they arrive quickly, mixed up between overlapping requests, or waited for forever after the helper's connection breaks. The connection is re-established after a break, requests made before it is up do not crash, and stopping ends the reconnecting.",
  ["schedules", "fault_sequences"],
  "all interleavings of overlapping requests, replies, disconnects and reconnects on the simulated clock",
  STABLE + "the helper is never started.",
  ["crayfish/backend.go", "crayfish/envelope.go", "crayfish/avatar.go", "crayfish/register.go"],
  [("request/response channel", "crayfish/backend.go receiveChannel"), ("reconnect loop", "crayfish/backend.go StartListening")],
  [("receive channel", "where the waiting caller expects its answer", "crayfish/backend.go")],
  ["return values of HandleEnvelope/DecryptAvatar/CrayfishRegisterWithCode"])

p("C16", "Group state survives restarts, and group sends reach every member",
  "A group learned from a message stays known across restarts and kills with its members, and storage-service outages, errors or garbage neither crash the client, nor lose the group or the message, nor overwrite known state with garbage. A group message reported as sent was accepted by the service exactly once for every member other than this device's own, all with the same timestamp and group context; otherwise an error is reported.",
  ["histories", "fault_sequences", "crash_points"],
  "all histories of group messages, membership changes and restarts with storage-service and disk faults anywhere",
  STABLE + "group code is not tested.",
  ["groups.go", "groupsv2/groupsv2.go", "groupsv2/helpers.go", "groupsv2/decrypt.go", "handler.go"],
  [("group files", "groupsv2/groupsv2.go saveGroupV2/loadGroupV2"), ("fan-out", "groups.go sendGroupV2Helper")],
  [("group file", "last known state of the group", "groupsv2/")],
  ["Message.GroupV2", "GetGroupV2MembersForGroup", "SendGroupMessage", "accepted messages"])

p("C17", "Group requests carry a credential valid for the current day",
  "Every authenticated request to the group storage service presents a credential issued to this account for the day of the request, however long the client has been running and however its clock moves. A failed or garbled credential fetch is reported for that operation only, and operations succeed again once the service answers properly, without a restart.",
  ["schedules", "fault_sequences", "histories"],
  "all run lengths (weeks of simulated time), clock jumps and credential-service faults",
  STABLE + "credentials need a server and days of time.",
  ["groupsv2/credentials.go", "groupsv2/groupsv2api.go"],
  [("credential cache", "groupsv2/credentials.go Credentials"), ("presentation", "groupsv2/groupsv2api.go NewGroupsV2Authorization")],
  [("credentials", "issued for a window of days", "groupsv2/credentials.go")],
  ["Authorization header verified by a zkgroup server"])

p("C18", "Expired sender certificates are renewed at start, valid ones are kept",
  "After a successful start the configured sender certificate is one issued by the service for this account and unexpired at that moment: an expired, empty or unreadable one is replaced, and a failed or garbled renewal is reported as an error or retried at the next start and never stored or crashes the client. A still valid certificate is kept and not fetched again.",
  ["schedules", "fault_sequences"],
  "all certificate ages relative to the simulated clock, including the boundary, and all failures of the renewal request",
  STABLE + "certificates and clocks are not tested.",
  ["textsecure.go", "unidentifiedAccess/unidentifiedAccess.go", "transport/unidentifiedCert.go"],
  [("expiry check", "unidentifiedAccess/unidentifiedAccess.go CheckCertificate"), ("renewal", "textsecure.go renewSenderCertificate")],
  [("certificate", "stored sender certificate", "config Certificate")],
  ["config file after Setup", "requests seen by the service"])

p("C19", "Settings, contacts and group files survive crashes whole",
  "After a kill, power loss, full disk or write error at any point, the settings file, the contacts file and each group file hold the complete previous or the complete new content, never a torn, empty or missing one. Changes made by calls that reported success (such as a contact's new profile key or the account's id) are still there after a restart.",
  ["crash_points", "fault_sequences"],
  "every point inside every write of these files, with process-kill, power-loss and write-error semantics",
  STABLE + "no file is written by a test.",
  ["config.go", "contacts/contacts.go", "groups.go", "groupsv2/groupsv2.go"],
  [("whole-file writes", "config.go WriteConfig, contacts/contacts.go WriteContactsToPath, groups.go saveGroup, groupsv2/groupsv2.go saveGroupV2")],
  [("YAML files", "settings, contacts, groups", "application config dir and StorageDir")],
  ["files on the simulated disk", "ReadConfig, ReadContacts after restart"])

p("C20", "The profile key is unpredictable, chosen once, and matches what is published",
  "The profile key is generated from the system's secure randomness once per installation and stays the same across restarts, so that profiles, messages and credentials issued under it keep working, and two installations never share one. After a successful start, the profile and the profile-key credential correspond to the stored key, and a failed profile update is repaired by a later start.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of starts, crashes and service failures; all installations, which differ only in the system's entropy",
  STABLE + "Setup is never run twice, or once.",
  ["textsecure.go", "profiles/profile.go", "config.go"],
  [("profile key generation", "profiles/profile.go GenerateProfileKey, textsecure.go Setup"), ("profile upload", "profiles/profile.go UpdateProfile")],
  [("profile key and credential", "account's key and the credential bound to it", "config ProfileKey, ProfileKeyCredential")],
  ["config after restarts", "profile seen by the service", "profile key inside sent messages"])

p("C21", "Contact discovery attributes each account to the right number or fails whole",
  "When discovery returns success, each local contact is marked registered exactly if the service answered so for its number, with the account id the service gave for that number, independent of duplicates and invalid numbers. A failed, truncated or tampered answer at any step is reported as an error, never crashes, and leaves the known contacts as they were.",
  ["fault_sequences", "inputs", "histories"],
  "all contact lists and all failures and corruptions of the attestation and discovery exchange",
  STABLE + "the discovery helpers are tested on constants, the exchange is not.",
  ["server.go", "contactsDiscovery/remoteAttestationUtil.go", "contactDiscoveryCrypto/contactDiscoveryCrypto.go", "contacts/contacts.go"],
  [("attestation and query", "contactsDiscovery/remoteAttestationUtil.go"), ("response decryption", "contactDiscoveryCrypto/contactDiscoveryCrypto.go"), ("merging", "server.go GetRegisteredContacts")],
  [("contacts", "known contacts by account id", "contacts/contacts.go Contacts")],
  ["GetRegisteredContacts result", "contacts file"])

p("C22", "A stolen device cannot decrypt messages it already delivered",
  "After a message was handed to the application, the stored sessions and prekeys no longer contain what is needed to decrypt it again, so a copy of the storage plus all recorded envelopes yields nothing already delivered; only keys for messages that have not arrived yet are kept, and prekeys meant for reuse (signed, last-resort), so sessions started without a one-time prekey are excepted. Likewise nothing stored allows decrypting messages the client itself sent.",
  ["histories", "schedules", "crash_points"],
  "all delivery orders, session restarts and archived sessions, checked against a copy of the storage at any later moment",
  STABLE + "none inspects stored sessions.",
  ["axolotl/session.go", "axolotl/ratchet.go", "store.go"],
  [("message keys deleted on use", "axolotl/session.go removeMessageKeys"), ("chain keys advanced", "axolotl/session.go setReceiverChainKey"), ("one-time prekeys removed", "axolotl/session.go SessionDecryptPreKeyWhisperMessage")],
  [("session record", "chain keys and skipped message keys", "sessions/")],
  ["replay of every recorded envelope into a copy of the storage"])

p("C23", "Each content reaches its own callback once, and only own devices can sync",
  "Each accepted message, receipt, typing notice, call event, session reset or profile-key change from a peer triggers exactly the callback and effect meant for it, with the sender, timestamps and fields it carried, in any mixture and order and without one kind disturbing another. Sync messages take effect only when they come from the user's own account; from anyone else they cause no callback, no outgoing message and no change.",
  ["histories", "inputs", "schedules"],
  "all sequences and mixtures of contents from peers, own devices and impostors, interleaved with local calls",
  STABLE + "no handler is tested.",
  ["handler.go", "sync.go", "textsecure.go", "contacts/contacts.go", "message.go"],
  [("dispatch", "handler.go handleMessage"), ("sync dispatch", "sync.go handleSyncMessage"), ("flags", "textsecure.go handleFlags")],
  [("sessions and contacts", "changed by reset and profile-key messages", "store.go, contacts/contacts.go")],
  ["all Client callbacks", "outgoing messages"])

p("C24", "A linked device receives exactly this account's identity, with a fresh code",
  "Linking a device sends a provisioning message that only the new device's key can open, carrying this account's identity key pair, ids and a provisioning code the service issued and has not yet expired or consumed. Failures of the service or bad input are reported as errors without crashing, and do not make a later link attempt reuse a dead code. Listing and unlinking devices give what the service holds and does, or report an error.",
  ["schedules", "fault_sequences", "inputs"],
  "all timings of repeated link attempts against code lifetimes, and all service failures",
  STABLE + "linking is not tested.",
  ["link.go", "server.go", "crypto.go"],
  [("provisioning cipher", "crypto.go provisioningCipher"), ("a code per link attempt", "link.go AddNewLinkedDevice, server.go getNewDeviceVerificationCode"), ("device list", "server.go getLinkedDevices, unlinkDevice")],
  [("cached code", "provisioning code kept for ten seconds", "link.go code2")],
  ["PUT /v1/provisioning bodies opened by a simulated new device", "return values"])

p("C25", "Every API call and the receive loop make progress despite stalled services",
  "When the message service, CDN, storage service or helper process stops answering, answers endlessly slowly or keeps refusing, every API call still returns within a bounded time with an error, and the receive loop goes on handling other messages or reports that the connection ended. Once the faults stop, the same calls succeed again without a restart.",
  ["fault_sequences", "schedules"],
  "all stall points of all service exchanges, on the simulated clock",
  STABLE + "no test has a server that stalls.",
  ["transport/transport.go", "attachments.go", "server.go", "websocket.go", "crayfish/backend.go", "profiles/avatars.go"],
  [("HTTP client timeouts", "transport/transport.go newHTTPTransporter"), ("websocket deadlines", "websocket.go")],
  [],
  ["return times of API calls on the simulated clock", "callbacks for later messages"])

p("C26", "Safety numbers are symmetric and depend on both identities",
  "Both parties compute the same displayable and scannable fingerprint from their two identifiers and identity keys, and changing either identity changes it.",
  ["inputs"], "all identifier and key pairs",
  "Fixed vectors are tested; the full input space is not.",
  ["fingerprint/fingerprint.go", "fingerprint/qr_fingerprint.go", "fingerprint/fingerprint_numbers.go"],
  [("iterated hash", "fingerprint/fingerprint.go")], [], ["CreateFingerprintSimple"])

p("C27", "Group permission rules admit exactly the changes the role allows",
  "A group change is considered allowed exactly if the acting member's role and the group's access control permit every action in it.",
  ["inputs"], "all group states, roles and change sets",
  "There is no test of the validators.",
  ["groupsv2/groupAuth.go", "groupsv2/groupValidator.go"],
  [("permission predicates", "groupsv2/groupAuth.go")], [], ["validators"])

p("C28", "Signatures made by this library verify, and altered ones do not",
  "A signature made with an identity key over a message verifies under the matching public key, and no altered signature, message or key verifies.",
  ["inputs"], "all keys and messages",
  "One fixed round trip is tested.",
  ["curve25519sign/curve25519sign.go"],
  [("XEdDSA", "curve25519sign/curve25519sign.go")], [], ["Sign/Verify"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
