P("M01", "Messages arrive unchanged, whatever the order, loss and interleaving",
  "A message encrypted for a peer is decrypted by that peer to exactly the content, sender identity and signature it was encrypted with, whatever messages were sent, lost, reordered or answered before. Long one-way conversations, crossing first messages, session refreshes, unequal numbers of precomputed keys and several peers make no difference. The delivery address returned for a message is one its recipient has announced.",
  ["histories", "inputs", "configurations"], "all histories of sending, losing, reordering and receiving between any number of parties, with any content up to the maximum, key batch size and refresh interval",
  "The tests of the message package exchange a handful of messages in fixed orders; the state space of two ratchets under reordering and loss is unbounded.",
  ["msg/encrypt.go", "msg/decrypt.go", "msg/session/session.go", "msg/header.go"],
  [("root key agreement and message key derivation", "msg/encrypt.go, msg/decrypt.go"), ("session switch", "msg/decrypt.go")],
  "exploration", MON + "random conversations over the real Encrypt/Decrypt with an online checker (oracle: the list of what was sent)",
  "Samples histories (2-4 parties, up to 70 steps, plus one-way runs of ~500 messages); the session store is a reference model (the real store is checked by S01 and C01).",
  state=[("session state", "ratchet position of one party towards a peer", "msg/session/session.go")])
P("M02", "All messages on the wire look alike and never repeat randomness",
  "Every encrypted message has the same size on the wire, whatever its content, status, signature, identities and addresses. Content or addresses which do not fit are refused without any output and without harm to the conversation, and so is encryption whose source of randomness fails. Ephemeral keys, initialisation vectors and ciphertexts never repeat.",
  ["inputs", "configurations"], "all content lengths, identity and address lengths, status codes, signature choices and session states",
  "Tests look at a few lengths; constant size has to hold for each combination, and freshness is a statement about all pairs of messages.",
  ["msg/encrypt.go", "msg/msg.go", "msg/header.go", "msg/keys.go"],
  [("header padding and content padding", "msg/header.go, msg/encrypt.go")],
  "exploration", MON + "size and uniqueness monitor on the wire bytes of generated messages, fault-injecting random source",
  "Random parameters with boundary lengths; uniqueness is checked among the messages of a run, i.e. it finds repeated randomness, not weak randomness.")
P("M03", "Damaged, truncated or misdirected messages yield nothing",
  "Changing, removing, adding or reordering any meaningful part of an encrypted message, or giving it to anybody but its recipient, makes decryption fail. A failed decryption neither releases any part of the content nor names a sender or signature.",
  ["inputs", "fault_sequences"], "all messages and all modifications of their bytes",
  "Tests do not corrupt messages systematically; the number of modifications is far beyond examples.",
  ["msg/decrypt.go", "msg/header.go", "msg/outer.go"],
  [("HMAC over all packets", "msg/decrypt.go"), ("NaCl box of the header", "msg/header.go")],
  "exploration", MON + "mutation of real messages (bits, packets, lengths, splices) with a refusal oracle on output and results",
  "Bit flips at sampled positions in every packet, truncation at sampled and all structural offsets, packet-level edits, splices of two messages.")
P("M04", "Hostile or replayed messages never disturb a conversation",
  "Whatever bytes somebody sends - damaged, replayed, or forged with full knowledge of the format and of public keys - decrypting them neither crashes nor hangs nor changes what the recipient has stored, unless the message is accepted as valid. All genuine messages sent before and after remain readable.",
  ["inputs", "histories"], "all hostile byte strings at all points of all conversations",
  "A property of every input in every reachable state; tests have no hostile sender.",
  ["msg/decrypt.go", "msg/deferred.go", "msg/header.go", "msg/preheader.go"],
  [("changes are applied after authentication", "msg/deferred.go")],
  "exploration", MON + "hostile traffic injected into random conversations; store snapshots compared around every refused message, delivery oracle afterwards",
  "Seven families of hostile messages (damage, replay, forged headers, counts, refresh keys, JSON, fields) injected at random points.")
P("M05", "Each message key protects one message and is erased after use",
  "No message key protects two messages. The sender's copy of a message key is gone once the message is encrypted, the recipient's once it is decrypted, and a message which has been read cannot be read again.",
  ["histories"], "all histories of sending, receiving, reordering and replaying",
  "Forward secrecy is a statement about all keys of all histories; tests check results, not key use.",
  ["msg/encrypt.go", "msg/decrypt.go", "msg/session/session.go"],
  [("deletion of message keys", "msg/encrypt.go, msg/decrypt.go")],
  "exploration", MON + "trace monitor on key store accesses (uniqueness of key values, erasure, replay refusal)",
  "Keys are observed at the session store interface.")
P("M06", "Failing or interrupted key storage loses and leaks nothing",
  "If any access to the key store fails, or the process ends at any access, during encryption or decryption, then repeating the operation succeeds and the conversation goes on in both directions. No message which left the sender shares its message key with another one.",
  ["crash_points", "fault_sequences", "histories"], "every store access of every operation in all conversations, failing or interrupted",
  "Tests use a store which never fails and processes which never end early.",
  ["msg/encrypt.go", "msg/decrypt.go", "msg/deferred.go"],
  [("order of store changes", "msg/encrypt.go, msg/deferred.go")],
  "fault_enumeration", MON + "enumeration of a fault at each store access of scripted and random conversations, retry and follow-up oracle",
  "One fault per run; all accesses of the scripts are enumerated. A crash after the last deletion of a read message counts as read.")
P("M07", "The reported sender and signature are backed by the sender's identity record",
  "A decrypted message is reported under an identity only if the message carries a validly self-signed identity record of that identity, containing the encryption key the message was authenticated with. A signature is reported only if it verifies over the content under the signing key of that record; malformed records are refused without a crash.",
  ["inputs"], "all messages a hostile sender can construct",
  "Needs a hostile sender which controls every field; tests only send honest messages.",
  ["msg/decrypt.go", "msg/procuid.go", "uid/uid.go"],
  [("sender UID verification", "msg/procuid.go"), ("content signature", "msg/decrypt.go")],
  "exploration", MON + "forged messages by an independent implementation of the sender; independent verification of what is accepted",
  "26 kinds of forgeries with random contents and counters. Whether the record is the one published in the key server's hash chain is not part of this check.")
P("M08", "Conversations keep refreshing their session keys",
  "When two parties keep exchanging messages with refresh enabled, they keep switching to fresh session keys, whatever happened before. Both sides agree on the new keys, and the private keys of past sessions are erased.",
  ["histories", "schedules"], "all prefixes of interleaved, crossing and delayed messages, followed by regular alternation",
  "Progress of a two-party protocol under all interleavings; the tests follow one.",
  ["msg/decrypt.go", "msg/encrypt.go"],
  [("session refresh", "msg/decrypt.go, msg/encrypt.go")],
  "exploration", MON + "progress monitor on the session stores after random prefixes",
  "Progress is required within 8 rounds of alternating messages.")

P("M09", "Encoded messages come apart as they were put together",
  "A message with any subject, any text and any attachments (names and content types of any kind, inline or not), MIME-encoded and, if wanted, split into chunks of any size, comes apart again with the same header, subject, text and attachments; the chunks say correctly which piece of how many they are. A message or chunk which has been cut off is refused, never taken for a shorter complete one, and damaged input never crashes or hangs the parser. An attachment that cannot be read makes encoding fail.",
  ["inputs"], "messages with any subjects, texts, attachments and chunk sizes; cut and damaged encodings",
  "The content arrives from the network and from arbitrary files; the tests encode one message with fixed attachments.",
  ["msg/mime/mime.go", "encode/base64/base64.go"],
  [("encode", "msg/mime/mime.go: New, EncodeChunks"), ("parse", "msg/mime/mime.go: Parse, DecodeChunk")],
  "exploration", MON + "round-trip oracle over generated messages, chunks and damaged encodings; panic and hang monitor",
  "Subjects are lines of text without control characters (SplitMessage takes the first line).")

P("M10", "Message keys depend on every key of both sides and on the session before",
  "The keys of every message are derived, as the protocol lays it down, from the identity keys and the short-term session keys of both sides, from both identities, from the session before (if the session follows another one) and from the message's place in it. So nobody who lacks one of the private keys of a recipient and the secrets of past sessions can compute them, whatever else is known, for example all long-term keys; and messages of any conforming sender can be read.",
  ["histories"], "histories of two or three parties with refreshes, resets, crossing, lost and reordered messages",
  "Both sides share the code, so that a key which is left out of the derivation, or is the same for everybody, goes unnoticed when one side encrypts and the other one decrypts.",
  ["msg/keys.go", "msg/encrypt.go", "msg/decrypt.go"],
  [("root keys", "msg/keys.go: deriveRootKey"), ("message keys", "msg/keys.go: generateMessageKeys"), ("symmetric keys", "msg/keys.go: deriveSymmetricKeys")],
  "exploration", MON + "independent implementation of the key derivation decrypts every message of random histories from the recorded private keys",
  "The observer tries both roles and all previous sessions of the two parties, so that it does not depend on which side starts a session.")
