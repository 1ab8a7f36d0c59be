P("B01", "Keys and nonces use all of their randomness and fail without it",
  "Every key, nonce, padding, message ID, revoke ID, token and salt is taken from the source of randomness in full: made from different randomness they differ in every part which is supposed to be random, and however the source delivers (in pieces, or byte by byte) the result is the same as when it delivers at once. If the source fails or ends at any point, making them fails with an error; nothing half-random, constant, or empty is returned, encrypted with, or stored, and nothing crashes.",
  ["inputs", "fault_sequences"], "all operations which take randomness, all sequences of bytes it delivers, and failures at each read and each offset",
  "Tests use the real source of randomness, which neither fails nor delivers in pieces.",
  ["cipher/curve25519.go", "msg/padding/padding.go", "msg/msgid/msgid.go", "uid/uid.go", "uid/keyinit.go", "mix/nymaddr/addr.go", "mix/mixcrypt/envelope.go", "mix/mixaddr/privkey.go", "serviceguard/common/token/types.go", "serviceguard/common/walletauth/walletauth.go", "encdb/keyfile.go"],
  [("keys", "cipher/curve25519.go"), ("nonces of tokens", "serviceguard/common/token/types.go"), ("salts", "encdb/keyfile.go")],
  "fault_enumeration", MON + "the source of randomness is replaced by one which records its reads, delivers in pieces, or fails at each of them in turn; results of different randomness are compared part by part",
  "Statistical quality of the system's source is not examined.")
