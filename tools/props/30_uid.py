P("U01", "Identity records can only be made and updated by the owner of their keys",
  "An identity record is accepted only with a self-signature over all of its content, and as an update only if it is signed with the key of its direct predecessor and counts one more. Records which break the rules of the protocol version, or hold malformed or inconsistent keys, are refused by the check. What a user creates, updates and stores is accepted, unchanged by encoding, and keeps its private keys; updating changes the signature key only.",
  ["inputs", "histories"], "all identities, update chains, changes of records and hostile records",
  "Tests verify one record and one update; refusing every change is a statement about all inputs.",
  ["uid/uid.go", "uid/keyentry.go"],
  [("self and user signatures", "uid/uid.go"), ("version rules", "uid/uid.go")],
  "exploration", MON + "generated and mutated records judged by an independent implementation of encoding, hashes and signatures",
  "Mutations are single changes of the decoded record; forged successors come from an attacker with keys of his own.",
  state=[("record chain", "successive records of one identity", "uid/uid.go")])
P("U02", "A key server reply proves that the server recorded exactly this record",
  "A reply of the key server verifies for a user's record only if it is signed by that server, its index is the record's index and the record encrypted in it is the user's record, unchanged. Genuine replies verify and decrypt to the record; hostile ones are refused without a crash.",
  ["inputs"], "all records, replies and hostile servers",
  "Needs a server which signs wrong contents; tests only use honest replies.",
  ["uid/uid.go"], [("reply verification", "uid/uid.go")],
  "exploration", MON + "replies made by an independent hostile server, judged by their construction",
  "About 20 families of hostile replies with random contents.")
P("U03", "Short-term keys are accepted only if signed, current and consistent",
  "A key init message is accepted for a user only if it is signed by the user's signature key over all its content, has not expired, is meant for the given repository, and its session anchor decrypts to a well-formed key which matches all hashes. Messages a user creates within the allowed times are accepted and carry the private key's counterpart; others cannot be created. Malformed messages and keys never crash.",
  ["inputs", "configurations"], "all times, users, repositories and changes of messages",
  "Tests create one message and try few wrong values.",
  ["uid/keyinit.go", "uid/keyentry.go"], [("verification", "uid/keyinit.go"), ("session anchor", "uid/keyinit.go")],
  "exploration", MON + "generated, changed and re-signed messages judged by an independent implementation",
  "Real clock with a margin of a minute around the limits.")
P("U04", "Identities which look alike are the same identity",
  "Mapping an identity either refuses it or gives the one canonical form: lower case, look-alike characters merged, only legal characters, separators never adjacent or at the ends, and within the length limits. The canonical form maps to itself and is the only one which counts as mapped; identities which differ only in case or look-alikes map to the same one.",
  ["inputs"], "all strings",
  "Uniqueness of identities must hold for all strings including Unicode; tests list a few.",
  ["uid/identity/identity.go"], [("mapping", "uid/identity/identity.go")],
  "exploration", MON + "comparison with an independent implementation of the rules on generated identities, plus metamorphic checks (idempotence, look-alikes)",
  "150 thousand identities per quick run from an alphabet of critical characters.")
