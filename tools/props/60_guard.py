P("G01", "Only tokens signed by a trusted issuer are accepted, and for what they are",
  "A wallet accepts a payment token only if it names an unexpired key, signed by a trusted issuer, whose signature on exactly this token verifies, and it reports the usage, owner and expiry which token and key state. Altered, foreign, expired, truncated or malformed tokens, keys and key lists are refused without a crash and leave nothing behind in the wallet; keys which a lookup server delivers are checked like any others.",
  ["inputs", "configurations"], "all tokens, keys and signed key lists, all alterations of them, and all replies of the key lookup server",
  "Tests verify a handful of well-formed tokens.",
  ["serviceguard/client/verify.go", "serviceguard/common/token/types.go", "serviceguard/common/signkeys/keys.go", "serviceguard/common/keypool/generator.go", "serviceguard/client/keylookup/impl.go", "serviceguard/client/receive.go"],
  [("verification", "serviceguard/client/verify.go"), ("keys", "serviceguard/common/keypool/generator.go"), ("lookup", "serviceguard/client/keylookup/impl.go")],
  "exploration", MON + "tokens, keys and lists made by an independent issuer, each altered field by field and bit by bit; every verdict compared with an independent judge",
  "The judge parses and verifies with its own code. One known finding: the signature scheme of the library cryptoedge can be forged algebraically.")
P("G02", "Reissues are blind, bound to their request, and end in a valid token or an error",
  "A reissue packet carries the old token, the issuer's parameters and a signature of the old owner over all of it, and shows nothing of the new token. What the issuer answers is turned into a new token for the requested owner which verifies, or refused; parameters of another usage, another issuer, an untrusted or expired key are refused before anything is sent. Packets verify only for their owner and unaltered, and calls return what the issuer said or an error, for every malformed reply.",
  ["inputs", "fault_sequences"], "all owners, keys, parameters, signatures and stored states, all alterations of packets and all malformed replies",
  "Tests run two well-formed reissues; no test alters a reply.",
  ["serviceguard/client/packetproto/methods.go", "serviceguard/common/types/types.go", "serviceguard/client/guardrpc/client.go"],
  [("blinding", "serviceguard/client/packetproto/methods.go"), ("packets", "serviceguard/common/types/types.go"), ("calls", "serviceguard/client/guardrpc/client.go")],
  "exploration", MON + "reissues against an issuer of the harness which parses and checks requests with its own code; replies, parameters and stored states altered",
  "Blindness is checked as absence of the new token's fields from what is sent, not as statistical independence.",
  state=[("reissue in progress", "blinding factors and request kept until the answer arrived", "serviceguard/common/types/types.go")])
P("G03", "Wallets keep tokens exactly, hand out only usable ones, survive failing writes",
  "What a wallet stores it returns unchanged, also after reopening; a write which fails leaves the token as it was. Locked tokens, tokens in reissue and tokens of another usage or owner are never handed out or counted; among those which fit the one expiring first is. Locks outlive a reopening until they are too old, a locked token is only readable with its lock, tokens are dropped only when asked or long expired, and the cached keys and auth token survive.",
  ["histories", "fault_sequences", "crash_points"], "all histories of operations, reopening at any point, and failing statements on each table",
  "The tests of the store do not compile; they cover one happy path.",
  ["serviceguard/client/walletstore/store.go", "serviceguard/client/walletstore/types.go"],
  [("statements", "serviceguard/client/walletstore/store.go"), ("encoding of entries", "serviceguard/client/walletstore/types.go")],
  "fault_enumeration", MON + "random histories and SQL faults on a database on disk, every answer compared with a model of the wallet",
  "12 histories of 220 operations and 256 faults per quick run; crashes are failing statements and reopening, not power loss.",
  state=[("tokens", "payment tokens with their reissue state", "serviceguard/client/walletstore/store.go"), ("cache", "verification keys and last auth token", "serviceguard/client/walletstore/store.go")])
P("G04", "A token is given to one taker at a time, however many use the wallet at once",
  "However many goroutines and stores use one wallet database, a token is held by at most one of them between lock and unlock, a spent token is never given out again, none is lost, and the counts are right when all is quiet. The cache is never torn and what was set last is what is stored. Key pools can be used concurrently: keys fetched, loaded, saved and looked up at the same time are all there, and one current key is made, not several.",
  ["schedules"], "all interleavings of lock, take, unlock, delete, insert, cache and key pool operations",
  "No test uses the wallet or the key pool concurrently.",
  ["serviceguard/client/walletstore/store.go", "serviceguard/common/keypool/generator.go"],
  [("locks", "serviceguard/client/walletstore/store.go"), ("key pool", "serviceguard/common/keypool/generator.go")],
  "exploration", MON + "goroutines under the Go race detector with a record of holders outside of the store; conservation of tokens checked at the end",
  "Interleavings are sampled; colliding random lock IDs (one in 2^31) are out of reach.")
P("G05", "Issuer keys are stored and reloaded exactly, and rolled over before they expire",
  "A key pool keeps only unexpired keys of the right usage, on the curve, signed by a trusted issuer and unaltered; a saved key comes back unchanged after a restart if its issuer is trusted then, from directories and databases and from several of them. A damaged file loses no other key, and a key which could not be stored is not reported as stored nor taken into use. The current key of a generator has at least half of its life left, its predecessor stays known until it expires, and expired keys are not found.",
  ["inputs", "histories", "crash_points"], "all keys, storages and damages, and all points in the life of a key",
  "The tests of these packages do not compile.",
  ["serviceguard/common/keypool/generator.go", "serviceguard/common/keypool/keydir/filestorage.go", "serviceguard/common/keypool/keydb/dbstorage.go", "serviceguard/common/signkeys/keys.go"],
  [("pool and rollover", "serviceguard/common/keypool/generator.go"), ("directory", "serviceguard/common/keypool/keydir/filestorage.go"), ("database", "serviceguard/common/keypool/keydb/dbstorage.go")],
  "fault_enumeration", MON + "pools reopened on damaged and failing storage; generators with keys of four seconds watched over several lives",
  "Real time with short lives; damages are truncation, bit flips, foreign files, directories and rows.",
  state=[("key pool", "public keys known and the current key", "serviceguard/common/keypool/generator.go")])
P("G06", "Tokens bought are spent, in the wallet or recoverable, whatever calls fail",
  "Whatever calls are lost before or after the server acted, whatever writes fail and whenever the wallet is restarted, the tokens charged to the account are, after recovery, all spent or in the wallet, and each one in the wallet is accepted by its issuer for the usage and owner it is listed under. A token handed out is for the asked usage and owner, locked, and handed out once; a call yields a token or a known error, whatever the servers answer, and the wallet works with the next good answer. Tokens in use are not exchanged; offline wallets make no calls; the runner recovers, renews and fills up, pauses when servers fail, and can be stopped.",
  ["histories", "fault_sequences", "crash_points"], "all histories of buying, exchanging, spending, restarting and key changes, faults at every call and write, all malformed replies",
  "The tests of the client need live servers or cover a single exchange without faults.",
  ["serviceguard/client/clientlib.go", "serviceguard/client/walletserver.go", "serviceguard/client/reissue.go", "serviceguard/client/runner.go", "serviceguard/client/receive.go", "util/wallet/wallet.go"],
  [("buying", "serviceguard/client/walletserver.go"), ("exchange and recovery", "serviceguard/client/reissue.go"), ("handing out", "serviceguard/client/clientlib.go"), ("runner", "serviceguard/client/runner.go")],
  "fault_enumeration", MON + "real wallets against issuers and a wallet server of the harness which keep their own books; conservation audited at the end of each history, faults at each call and write in turn",
  "16 histories of 28 steps, 20 crash points and 90 malformed replies per quick run. A token bought in the call in which the wallet's disk failed may be lost; the fake servers repeat their answer for a repeated request, as the design of the retries assumes.",
  state=[("tokens", "bought, in exchange, locked or spent", "serviceguard/client/walletstore/store.go"), ("auth token", "of an interrupted purchase", "serviceguard/client/walletserver.go")])
