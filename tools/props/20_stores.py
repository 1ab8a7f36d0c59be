P("S01", "The engine's key store behaves like the session store the protocol assumes",
  "The key store of the crypt engine keeps sessions, message keys, root and chain keys, session states and session keys exactly as the message protocol expects it: what has been stored is returned unchanged until it is replaced or deleted, extending a session keeps all earlier keys, deleting affects only the one key, and all of it survives closing and reopening the database.",
  ["histories", "inputs"], "all sequences of store operations with any keys, batch sizes and reopenings",
  "The protocol is tested with a store in memory; the tests of the real store call each operation once or twice.",
  ["keydb/session.go", "keydb/sessionstate.go", "keydb/sessionkey.go", "cryptengine/keystore.go"],
  [("session extension", "keydb/session.go"), ("session.Store of the engine", "cryptengine/keystore.go")],
  "exploration", MON + "model-based comparison of the real engine store with a reference store over random histories, plus real conversations on two engine stores",
  "Random histories with 6 sessions; the oracle is the reference store under which M01-M08 hold.",
  state=[("sessions and message keys", "stored ratchet state", "keydb/session.go")])
P("S02", "The key database keeps identities, key messages and hash chains correctly",
  "What the key database was given (own identities with their newest sequence, key init messages of others and own ones, the entries of hash chains per key server domain, stored values) can be read back unchanged, in the right order, for exactly the identity and domain it was stored for, however identities and domains are spelled; deleting one leaves the others alone; an operation with an error leaves nothing half done; and all of it survives reopening, vacuum and new passphrases.",
  ["histories", "inputs", "fault_sequences"], "all histories of operations on a key database, with failing statements",
  "The tests use one identity and one domain and call each function once; mix-ups of several identities, updates and gaps of hash chains do not show there.",
  ["keydb/keydb.go", "keydb/keyvalue.go"],
  [("identity messages", "keydb/keydb.go"), ("key init messages", "keydb/keydb.go"), ("hash chains", "keydb/keydb.go")],
  "exploration", MON + "model-based comparison of everything readable after each operation of random histories, with statement failures by SQL triggers",
  "The model was written from the documentation of the package; histories use a handful of identities and domains, chosen to collide.")
P("S03", "The message database keeps messages, contacts and queues apart and complete",
  "Everything a user entrusts to the message database (nyms, contacts with their lists, accounts, messages with their state, the queues of messages to be sent and received, the cache of message IDs) can be read back as it was written until it is deleted; lists are complete and in order; operations for one nym never show or change the data of another; numbers of messages work only for the nym they belong to; deleting a nym deletes all of its data and nothing else.",
  ["histories", "inputs"], "all histories of operations on a message database with several nyms",
  "The tests of the package do not compile at the pinned commit; even so they use one nym. Isolation of nyms, and ordering of the queues are properties of histories.",
  ["msgdb/msgdb.go", "msgdb/messages.go", "msgdb/contacts.go", "msgdb/nyms.go", "msgdb/accounts.go", "msgdb/inqueue.go", "msgdb/outqueue.go", "msgdb/cache.go"],
  [("message database", "msgdb/msgdb.go"), ("messages", "msgdb/messages.go"), ("queues", "msgdb/outqueue.go")],
  "exploration", MON + "model-based comparison of everything readable after each operation of random histories",
  "Histories with several nyms with shared contacts; the model was written from the documentation.")
P("S04", "A failing operation leaves the message database as it was",
  "An operation on the message database which reports an error has had no effect at all, and one which reports success has had all of it: no message is queued twice, lost between queue and message list, or half deleted, wherever a statement fails.",
  ["fault_sequences", "histories"], "all operations of a message database with any failing statement",
  "No test lets a statement fail; multi-statement operations differ from atomic ones only then.",
  ["msgdb/msgdb.go", "msgdb/messages.go", "msgdb/outqueue.go", "msgdb/inqueue.go", "msgdb/nyms.go"],
  [("transactions of queue operations", "msgdb/outqueue.go"), ("transactions of incoming messages", "msgdb/inqueue.go")],
  "fault_enumeration", MON + "the model of S03 while statements on each table fail by SQL triggers",
  "Failures are statement failures, not crashes of the process; SQLite's own crash safety is assumed.")
P("S06", "A database can be read only with its passphrase and is never overwritten",
  "An encrypted database opens with the passphrase it was created with, and with no other; none of its files (also during transactions) contains readable contents or keys, and keys and salts are fresh; damaged, truncated or exchanged files lead to errors, not to wrong contents or crashes; creating a database never touches existing files; and the passphrase the engine uses is the complete line given to it, of any length, confirmed by an identical second one.",
  ["inputs", "fault_sequences"], "all databases, passphrases and damages of database files",
  "The tests open a database with one right and one wrong passphrase; they do not look into the files, damage them, or use long passphrases.",
  ["encdb/encdb.go", "encdb/keyfile.go", "cryptengine/db.go"],
  [("opening and creating", "encdb/encdb.go"), ("key file", "encdb/keyfile.go"), ("passphrases of the engine", "cryptengine/db.go")],
  "exploration", MON + "inspection of files at rest (contents, randomness, independent decoding of the key file) and judged openings with damaged files",
  "Randomness is judged by searching for markers and a chi square test; the ciphers themselves are assumed.")
P("S07", "Changing the passphrase of a database cannot lose it",
  "After a change of the passphrase, only the new passphrase opens the database; after a refused or failed change, the old one does; wherever the process is killed, system calls fail, the disk is full, or power fails, one of the two opens it with unchanged contents, and the change can be made again.",
  ["crash_points", "fault_sequences", "histories"], "all changes of passphrases, with failures and kills at every system call",
  "The tests change one passphrase without failures; crash points are not tested at all.",
  ["encdb/encdb.go", "encdb/keyfile.go"],
  [("replacing the key file", "encdb/keyfile.go")],
  "fault_enumeration", MON + "system calls of the real code failed or killed one by one (strace fault injection, file size limits), a trace specification of synchronising before replacing, and judged openings afterwards",
  "Power failures are judged by the order of the system calls; the model is that a synchronised file and a renaming survive. Without strace, processes are killed at random times.")
