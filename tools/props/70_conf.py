P("F01", "Only fresh configurations signed by the configuration key are accepted",
  "A configuration is accepted only if exactly its entries and its date were signed with the configured public key, the date is at most four hours away, and it is not older than the last one accepted. Any change of an entry, of the border between keys and values or between entries, of the date, the signature or the key makes it refused; what was signed is accepted unchanged; malformed input is an error. A missing or short public key accepts nothing.",
  ["inputs"], "all maps, dates, keys, signatures and texts",
  "The tests of the package do not compile, and cover one map.",
  ["configclient/sortedmap/map.go", "configclient/sortedmap/signedmap.go"],
  [("signature", "configclient/sortedmap/map.go"), ("freshness", "configclient/sortedmap/signedmap.go")],
  "exploration", MON + "certificates made by an independent signer and altered in every field; each accepted one must be in the signer's log",
  "The clock is the real one; dates within seconds of the limits are not judged.")
P("F02", "Configuration updates take the first good server, and only the hashed CA",
  "An update asks the servers in the order of their priorities, each at most once, until one has a good configuration, and if the CA certificate named by it is not known, asks for it likewise; it succeeds if and only if these are found. Then map, date and CA certificate are those which belong together, and no other certificate is trusted. If it fails nothing has changed, and the next update is not affected. Servers of one priority share the load. No server can crash the client, or make it take an older configuration or another certificate.",
  ["fault_sequences", "histories", "configurations"], "all sets of servers, priorities, answers and sequences of updates",
  "The tests need a live configuration server and are skipped.",
  ["configclient/client.go", "configclient/roundrobin/roundrobin.go", "configclient/cahash/hash.go"],
  [("update", "configclient/client.go"), ("order of servers", "configclient/roundrobin/roundrobin.go"), ("hash of the CA", "configclient/cahash/hash.go")],
  "fault_enumeration", MON + "servers on the loopback network which fail, lie, replay or add certificates; requests and results compared with a model",
  "80 histories of eight updates per quick run, 13 kinds of answers for configurations and 14 for certificates.",
  state=[("configuration", "map, date and CA certificate", "configclient/client.go")])
