P("H02", "The local hash chain is exactly the one its key server published, and only grows",
  "Synchronising a hash chain ends with the local copy being the published chain, or with an error and a local copy which is a prefix of it. Entries once stored never change, whatever the server answers; a server which replaces or forks what is already known is noticed by synchronisation or validation, one which shortens it takes nothing away, malformed replies and failing databases neither crash the engine nor are mistaken for success, and validation accepts exactly the chains which are hash chains.",
  ["inputs", "fault_sequences", "histories"], "all chains, replies of the key server and failing statements, for several domains",
  "Tests sync one honest chain; append-only and fork detection must hold against every server.",
  ["cryptengine/hashchain.go", "cryptengine/capabilities.go", "keyserver/hashchain/hashchain.go", "keydb/keydb.go"],
  [("synchronisation", "cryptengine/hashchain.go"), ("chain rules", "keyserver/hashchain/hashchain.go"), ("storage", "keydb/keydb.go")],
  "fault_enumeration", MON + "real engines against a scripted key server with every reply field replaced, damaged or missing; local copies compared with an independent model of the published chain",
  "HTTP instead of HTTPS on the loopback network; database faults are injected with SQL triggers.",
  state=[("local hash chain", "what the user has accepted of a server's chain", "keydb/keydb.go")])
P("H03", "Only identity records found and proven in the hash chain are stored for a peer",
  "Searching or looking up an identity stores exactly the longest valid sequence of records which the synchronised hash chain holds for it: each record matches its chain entry, belongs to that identity, is self-signed, signed by the key server, and signed by its predecessor. Takeovers, skipped or foreign records and wrong replies are refused without a crash.",
  ["inputs", "histories"], "all histories of a hash chain and all replies of a hostile key server",
  "The trust decision of the system; tests look up one genuine record.",
  ["cryptengine/hashchain.go", "uid/uid.go", "keydb/keydb.go"],
  [("search and lookup", "cryptengine/hashchain.go"), ("record checks", "uid/uid.go")],
  "exploration", MON + "real engines against a key server which places wrong records in its chain and answers wrongly; stored records compared with a model which accepts the longest valid prefix",
  "About 25 kinds of wrong records and 15 of wrong replies take turns.",
  state=[("public identity records", "what the user believes about peers", "keydb/keydb.go")])
P("K01", "Registrations and published keys count only when the key server proves them",
  "An engine reports a registration, update or published key as done only if the key server's signature proves that it recorded exactly that; private keys of unproven key messages are not kept. A peer's key message is stored and used only if it is valid, current and signed by the peer's present record; the one fetched last is used. Payment tokens reach the key server as given; a refused flush is reported. Wrong replies never crash the engine.",
  ["inputs", "histories"], "all replies of key servers to registrations, updates, and key messages added, fetched and flushed",
  "Needs servers which sign the wrong thing; tests use a cooperative one.",
  ["cryptengine/uid.go", "cryptengine/keyinit.go", "cryptengine/keystore.go", "uid/keyinit.go"],
  [("registration", "cryptengine/uid.go"), ("key messages", "cryptengine/keyinit.go")],
  "exploration", MON + "real engines against a key server whose replies are wrong in every field and signature; results, stored keys and the key used for a peer compared with what the replies justify",
  "20 replies per engine, kinds take turns.",
  state=[("private key messages", "keys others may have used", "keydb/keydb.go"), ("public key messages", "keys used for peers", "keydb/keydb.go")])
P("C01", "Users of the protocol can talk, end to end, and nobody else can read it",
  "After registering, synchronising, looking each other up and exchanging keys through key servers, users can encrypt to each other and read every message which arrives, once, with the true sender, content and signature, in any order, across restarts, identity updates, new keys and failing database statements. Messages read before, damaged, or delivered to others give nothing. Each message uses up one message key for good at both ends; one of a newer version or hit by a database failure is never declared undecryptable.",
  ["histories", "fault_sequences", "schedules"], "all lives of several users with several identities at several key servers",
  "Joins all parts of the engine with the real encrypted databases; tests cover the parts alone, on one path.",
  ["cryptengine/encrypt.go", "cryptengine/decrypt.go", "cryptengine/keystore.go", "keydb/keydb.go", "msg/encrypt.go", "msg/decrypt.go"],
  [("commands", "cryptengine/cryptengine.go"), ("key store on the database", "cryptengine/keystore.go"), ("messages", "msg/decrypt.go")],
  "exploration", MON + "whole lives of three engines with real databases and key servers; every output compared with what was sent",
  "40 lives of 30 to 50 steps per quick run; losses, reordering, replays, restarts and failing statements are random.",
  state=[("conversation state", "sessions and message keys in the key database", "keydb/keydb.go")])
