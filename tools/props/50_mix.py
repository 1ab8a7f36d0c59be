P("X01", "A nym address hides its owner, works until it expires and cannot be changed",
  "Every nym address made by the owner's template is opened by the mix it names, and by that mix only, and yields exactly the mailbox, delays, system and expire time given; the owner recognises messages to it and learns which nym it was made for. The keys of the recipient are derived from the owner's secret, the address and the nym, so that nobody else can compute them and addresses given out before keep working. Altered, expired, foreign or malformed addresses are refused by mix and owner without a crash, and neither mailbox nor nym appears in the public part.",
  ["inputs"], "all templates, mixes, mailboxes and nyms; all alterations of addresses and relay headers",
  "Tests make one address and open it; refusal and recognition must hold for all addresses and any change of them.",
  ["mix/nymaddr/addr.go", "mix/nymaddr/crypt.go"],
  [("addresses", "mix/nymaddr/addr.go"), ("keys and encryption", "mix/nymaddr/crypt.go")],
  "exploration", MON + "random templates and mixes, the address taken through mix and owner; every field and sampled bits altered; expire times around now, judged with an independent computation of the shared secrets",
  "About 3000 judged addresses per quick run.")
P("X02", "What a client gives to the mixes comes out whole at its recipient, or not at all",
  "A message sent along forwarding mixes to a nym address is opened by each mix in turn, which learns the next hop, delays and token and nothing else; the recipient gets exactly the message and its nym. Sizes outside the limits, altered or truncated messages, foreign keys, wrong types and hostile headers are refused without a crash, and copies of a message are recognised as such by the uniqueness data.",
  ["inputs"], "all messages, routes and headers, and all alterations of them on each hop",
  "Tests send one message on one path; hostile headers come from anybody.",
  ["mix/mixcrypt/clientmix.go", "mix/mixcrypt/envelope.go", "mix/mixcrypt/mixclient.go"],
  [("headers", "mix/mixcrypt/clientmix.go"), ("encryption", "mix/mixcrypt/envelope.go"), ("relay", "mix/mixcrypt/mixclient.go")],
  "exploration", MON + "random routes of up to four mixes with every hop checked; bit flips, truncations, splices and hand-made hostile headers encrypted for the mix",
  "About 4000 judged messages per quick run.")
P("X03", "Mail is delivered once or reported as undelivered, over TLS when demanded",
  "Delivering a message either makes the mail server accept it exactly once, which is remembered in memory and in the stored form, or returns an error which tells rightly whether trying again may help. With a CA certificate nothing but the greeting passes without TLS to a server certified by it. Every envelope written is read back unchanged; malformed ones are refused without a crash.",
  ["inputs", "fault_sequences"], "all envelopes; all failures of a mail server at each command, with resending from the stored form",
  "Needs a server failing at a chosen point; the tests need a real one and skip.",
  ["mix/client/send.go", "mix/client/io.go", "mix/smtpclient/client.go"],
  [("delivery and storage", "mix/client/send.go"), ("SMTP", "mix/smtpclient/client.go"), ("envelopes", "mix/client/io.go")],
  "fault_enumeration", MON + "a scripted mail server with a fault of each kind at each command and reply; what it accepted is compared with what the client says",
  "Eleven stages, four kinds of faults, with and without TLS. A reply lost after acceptance may be repeated, as SMTP cannot tell.")
P("X04", "Mix keys are what the mix signed and work until they expire, under concurrency",
  "A statement of mix addresses verifies only with the list and key it was signed with, merging statements takes exactly the valid, unexpired addresses, and random selection returns members. A key list publishes only keys which it can open messages with until they expire, keeps them over storage and reload, adds keys when due, and can be used from many goroutines.",
  ["inputs", "schedules"], "all address lists, statements and alterations; all interleavings of key list operations",
  "Concurrent use and alterations are not tested at all (the test file does not compile).",
  ["mix/mixaddr/addrlist.go", "mix/mixaddr/privkey.go"],
  [("statements", "mix/mixaddr/addrlist.go"), ("key lists", "mix/mixaddr/privkey.go")],
  "exploration", MON + "random lists with every field altered; key lists used by many goroutines under the Go race detector; self-maintained lists watched over time",
  "Race detector; one known finding (fields are signed without their lengths).",
  state=[("key list", "private keys of a mix", "mix/mixaddr/privkey.go")])
P("X05", "Account calls do at the right server what was asked, at most once",
  "Paying, querying, listing, fetching, deleting and revoking reach exactly the server which has the account, authenticated by a fresh token of the account key with rising counters; a call rejected for its counter is repeated with a better one and is carried out at most once, a payment never twice. Results are what the server said, in full, or an error; malformed replies never crash the client or shorten a list, and servers without a certificate of the configured authority get nothing.",
  ["inputs", "histories", "fault_sequences"], "all histories of calls with two servers, counters raised by others, and all malformed replies",
  "The tests of this code were removed upstream.",
  ["mix/client/accountrpc.go", "mix/client/receive.go", "mix/client/mixrpc.go", "serviceguard/common/walletauth/walletauth.go", "util/nymaddr.go"],
  [("account calls", "mix/client/accountrpc.go"), ("authentication", "serviceguard/common/walletauth/walletauth.go"), ("mix calls", "mix/client/mixrpc.go")],
  "fault_enumeration", MON + "two account servers with TLS which keep books of every request; requests and results compared with the books, malformed replies enumerated for each call and field",
  "About 250 enumerated malformed replies and 360 random calls per quick run.",
  state=[("accounts", "paid accounts and their messages at the server", "mix/client/accountrpc.go")])
P("X06", "muteproto hands messages over whole and in order and never misreports a delivery",
  "`muteproto create` writes an envelope which the mix opens to exactly the message, token, delays and nym address given, or fails without output. `deliver` says nothing only if the mail server accepted the message, RESEND only if trying again may help, and fails otherwise. `fetch` announces and writes each message completely, in the order of the server's list, stops where the caller says, and ends with NONE only if nothing was left out.",
  ["inputs", "fault_sequences"], "all messages and mailboxes, failures of mail and account servers at each step, and the caller's commands",
  "muteproto has no tests.",
  ["protoengine/create.go", "protoengine/deliver.go", "protoengine/fetch.go", "protoengine/protoengine.go"],
  [("commands", "protoengine/protoengine.go"), ("fetching", "protoengine/fetch.go")],
  "fault_enumeration", MON + "the engine with real descriptors between scripted account and mail servers; output and status lines compared with what the servers gave",
  "The engine runs in the process of the check; its main function is not run.")
