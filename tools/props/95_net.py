P("N01", "Servers are believed only with a certificate of the configured authority",
  "Whatever a client asks a server (accounts, issuers, key lookup, wallet, key servers), it talks to it only over TLS and only if the server proves with a valid certificate for its name and of the authority which is configured that it is the right one: a server with a certificate of another authority (also one which the system trusts, or of the same name), an expired, self-signed or misused one, or none, learns nothing, and the call fails. Without a usable authority nothing is asked. Calls to a proper server give exactly its reply, also if many are made at once; errors, missing results, and incomplete or malformed replies make them fail, and no reply crashes the client.",
  ["configurations", "fault_sequences", "inputs"], "all certificates and authorities, all replies, and calls at once",
  "The tests either replace the client, or ask a server which does not answer.",
  ["util/jsonclient/jsonclient.go", "cryptengine/cache/cache.go", "mix/client/accountrpc.go", "serviceguard/client/guardrpc/client.go", "serviceguard/client/walletrpc/client.go", "serviceguard/client/keylookup/impl.go"],
  [("verification of servers", "util/jsonclient/jsonclient.go"), ("key servers", "cryptengine/cache/cache.go")],
  "fault_enumeration", MON + "all clients call TLS servers of the harness which have each kind of certificate, and give each kind of reply; the servers record what they learn",
  "Issuers are called under the address of the harness' server instead of their own name, which cannot be resolved without network.")
