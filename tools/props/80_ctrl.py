P("E02", "Messages between users arrive once, whatever fails on the way",
  "A message added with the client is sent, mixed, fetched and decrypted, and is then listed once at its recipient, with its text, its sender and its recipient, as often as commands are repeated and whatever fails in between: mail server, mixes, account, key and token servers, the tools which the client starts, or the client itself, at any point. A failed command can be repeated and then succeeds; nothing that arrives, be it garbage, too large, expired, replayed or made by a hostile sender, keeps later messages from being sent or fetched. No access token is lost: every one which was paid for is still there or was used.",
  ["histories", "fault_sequences", "crash_points"], "all histories of commands of some users, all single faults and kills of the client around each of its tools and each request to a server, all mixed messages",
  "The tests of the packages have no client with servers at all; there is no end-to-end test.",
  ["ctrlengine/msg.go", "cryptengine/decrypt.go", "msgdb/outqueue.go", "msgdb/inqueue.go", "ctrlengine/contact.go"],
  [("queues", "ctrlengine/msg.go"), ("queue entries", "msgdb/outqueue.go"), ("decryption", "cryptengine/decrypt.go")],
  "fault_enumeration", MON + "real mutectrl, mutecrypt and muteproto processes with the harness's servers on the loopback network; mail which leaves is mixed and delivered by the harness; texts, listings and numbers of tokens are compared with what was written and paid",
  "Tools and engine fail or are killed between tools, not within one statement. Known findings: a message is lost if the client dies between the decryption and storing its text, and anybody can use the name of a contact in a UID which he signed himself.",
  state=[("queues", "out, in and the state of each entry", "msgdb/outqueue.go")])
P("E03", "Contact lists decide who is listed, writable and heard",
  "For each of a user's identities a contact is on the white, gray or black list or unknown, exactly as the commands say: add, edit, remove, block and unblock have their effect completely or fail and change nothing, whatever fails meanwhile; lists show exactly the white and the black ones, with the names which the user gave. Only white listed contacts can be written to, and what is written to them can be sent; everything from a black listed contact is dropped, everything else arrives, and senders who are not known become gray. Identities, also those of one user, do not influence each other; spellings of one identity are the same contact.",
  ["histories", "fault_sequences", "crash_points"], "all histories of contact commands and messages between identities, all faults of the key server and kills of the client or its tools meanwhile",
  "The tests cover the database functions one by one, with one contact.",
  ["ctrlengine/contact.go", "ctrlengine/msg.go", "msgdb/contacts.go"],
  [("contact commands", "ctrlengine/contact.go"), ("sending and receiving", "ctrlengine/msg.go"), ("lists", "msgdb/contacts.go")],
  "fault_enumeration", MON + "real mutectrl and mutecrypt processes under a model of the lists; all lists compared after each command, messages exchanged under each state",
  "16 histories of three identities (two of one user) per quick run; 36 kinds of faults in turn.",
  state=[("contacts", "list and names of each pair", "msgdb/contacts.go")])
P("E04", "Identities are made, used and deleted completely or not at all",
  "A name which is free can be registered, costs exactly three valid tokens, each given to whom it was made for, and can then be found, written to and used by others. A name which is malformed, taken or one's own already is refused, which costs nothing and changes nothing at any server. A failed command leaves no token locked and can be repeated. Identities are listed with the spelling and full name given last; the active one is the first one or the one switched to, and never one which was deleted. Deletion is confirmed first; a deleted identity is gone with its messages, contacts, private keys and account, and others are not affected.",
  ["histories", "fault_sequences", "crash_points"], "all histories of identity commands of two users at one key server, all faults of servers and kills of the client or its tools meanwhile",
  "No test registers an identity with the client.",
  ["ctrlengine/uid.go", "cryptengine/uid.go", "msgdb/nyms.go"],
  [("identity commands", "ctrlengine/uid.go"), ("keys", "cryptengine/uid.go"), ("names", "msgdb/nyms.go")],
  "fault_enumeration", MON + "real mutectrl and mutecrypt processes with the harness's servers under a model of who owns which name; lists, keys, accounts and numbers of tokens compared after each command",
  "36 histories per quick run. Known finding: a name is lost to its user if the command fails after the key server has registered it.",
  state=[("identities", "names, keys, accounts and the active one", "msgdb/nyms.go")])

P("E01", "The web application serves nobody who did not log in",
  "mutectrl's web application gives a session cookie for the right passphrase of the message database and for nothing else, before and after it was unlocked, whatever is sent and however many clients talk to it at once. Pages are served, and only files of the document root, to the cookie of the newest login and to no other or missing cookie. A login with the right passphrase always succeeds, also after failed ones; cookies are never repeated. No request crashes the server.",
  ["inputs", "histories", "schedules"], "all requests of any number of clients at once, with and without the passphrase",
  "No test starts the web application.",
  ["ctrlengine/app.go"],
  [("login and session", "ctrlengine/app.go"), ("opening the database", "ctrlengine/ctrlengine.go")],
  "exploration", MON + "the real mutectrl app as a process under the race detector, clients at once; every answer judged by what its sender knows; log watched for races and panics",
  "A passphrase followed by zero bytes is the same passphrase for PBKDF2 (HMAC pads keys with zeros), which is not asserted.",
  state=[("session", "the secret of the newest login", "ctrlengine/app.go")])

P("E05", "Accounts are renewed in time, and each renewal is paid once",
  "Upkeep of an identity renews, with one token each, exactly those of its accounts whose paid time ends within the given span, and no account of another identity; it does nothing if the last execution is not longer ago than the given period, and records its time only if it was complete. Afterwards the client knows the time which each account has at the server; it never believes in a longer one. If a server fails, or the client is killed, nothing is paid which the next execution pays again, no token is lost or stays locked, and the command can be repeated. Unknown identities and malformed spans are refused without any request.",
  ["histories", "fault_sequences", "crash_points"], "all histories of renewals and passing time, numbers of accounts, periods and spans, all single faults of account and token servers",
  "No test calls the account server.",
  ["ctrlengine/upkeep.go", "msgdb/accounts.go", "msgdb/nyms.go", "mix/client/accountrpc.go"],
  [("renewal", "ctrlengine/upkeep.go"), ("account times", "msgdb/accounts.go"), ("execution times", "msgdb/nyms.go"), ("payment", "mix/client/accountrpc.go")],
  "fault_enumeration", MON + "real mutectrl processes with the harness's account and token servers; time passes by moving all stored times; payments, tokens and times compared with a model after each command",
  "A payment repeated with its token is taken once by the harness's server. A client which is killed while it pays may pay again; that is not explored.",
  state=[("accounts", "paid times at server and client", "msgdb/accounts.go")])

P("E06", "The client uses only a fresh, signed configuration, and updates to its release",
  "The client takes a configuration only from the configuration server, with a valid signature which is neither old nor older than that of the one it has, and uses exactly what was signed: for its requests, for its tools and when it shows it. What is refused, or not served completely, changes nothing. A configuration is replaced when it is older than a day; offline it is used with a warning and for a week at most. A client which dies while it takes a configuration has the old or the new one completely, and goes on as usual. A client which is older than its release says so, and refuses to run when it is two weeks older; an update fetches, checks out and installs exactly the commit of the release, only if it is newer, and reports success only if all of it succeeded.",
  ["inputs", "histories", "fault_sequences", "crash_points"], "all histories of configurations, releases, ages and commands, all kinds of bad answers, and all writes at which the client can be killed",
  "No test runs the client with a configuration; those of configclient fetch one or two good ones.",
  ["ctrlengine/upkeep.go", "ctrlengine/ctrlengine.go", "def/def.go", "configclient/client.go", "util/git/git.go", "util/gotool/gotool.go"],
  [("when it is fetched", "ctrlengine/ctrlengine.go"), ("fetch and update", "ctrlengine/upkeep.go"), ("verification", "configclient/client.go"), ("use", "def/def.go")],
  "fault_enumeration", MON + "real mutectrl processes with a configuration server, whose address and key come from the hook; git and go are stand-ins which note what they are told; the client is killed at its n-th write to a file (strace); outcome, requests, stored configuration and time compared with a model after each command",
  "Times are checked some minutes around each limit. Fetching and updating on demand are done with --offline, too.",
  state=[("configuration", "map, date of the signature, time of the fetch", "ctrlengine/upkeep.go")])
P("E07", "Databases are made, rekeyed and rebuilt completely or not at all",
  "db create makes both databases of a user, readable with the passphrase typed twice and nothing else, with the given or a new wallet key, in a directory of the user alone; it refuses malformed wallet keys, differing passphrases and anything which exists already. After db rekey exactly the new passphrase opens both, and everything is still in them. Vacuuming and showing the status change nothing which is stored. If a command fails or dies at any point, nothing which was stored is lost, an incomplete user is never worked with, and the same command can be repeated and completes what was begun.",
  ["histories", "fault_sequences", "crash_points"], "all histories of database commands, passphrases and wallet keys, all failures and deaths of tools and servers meanwhile, and all system calls at which the client can be killed",
  "Tests create and rekey one database inside one process, without any failure.",
  ["ctrlengine/db.go", "ctrlengine/wallet.go", "cryptengine/db.go", "encdb/encdb.go", "encdb/keyfile.go", "msgdb/msgdb.go", "keydb/keydb.go"],
  [("commands", "ctrlengine/db.go"), ("key database", "cryptengine/db.go"), ("key files", "encdb/keyfile.go"), ("wallet key", "ctrlengine/wallet.go")],
  "fault_enumeration", MON + "real mutectrl and mutecrypt processes; tools fail or die before and after their work, and strace kills the client at its n-th write, sync, rename or removal; both databases are opened with every passphrase which was ever typed, and their contents compared with marks, after each command",
  "A passphrase with zero bytes appended is the same passphrase for PBKDF2, which is not asserted. Power failures (unsynced data) are not simulated here.",
  state=[("databases", "files, passphrases, wallet key and marks", "ctrlengine/db.go")])

P("E08", "No secret leaves the client in the clear",
  "Whatever the client does, at any log level: passphrases, private keys, the text of messages and the names given to contacts never leave its memory in the clear, or merely encoded, except where the user asks for them. They are in no file (not in the databases, key files, logs, or temporary files, not even for a moment), in no request to any server and no mail, on no command line, and not in what commands and errors tell, apart from the message or contact which is shown on demand. This includes commands which fail.",
  ["histories", "fault_sequences"], "all commands, successful or not, of any number of users at the most talkative log level; all secrets which exist at any time",
  "No test looks at what is written where.",
  ["ctrlengine/msg.go", "ctrlengine/contact.go", "ctrlengine/uid.go", "ctrlengine/db.go", "ctrlengine/upkeep.go", "cryptengine/cryptengine.go", "encdb/encdb.go", "msg/decrypt.go", "msg/encrypt.go", "log/log.go"],
  [("messages", "ctrlengine/msg.go"), ("tools", "cryptengine/cryptengine.go"), ("storage", "encdb/encdb.go"), ("logs", "log/log.go")],
  "exploration", MON + "strace records every byte that real mutectrl, mutecrypt and muteproto processes write to any file, socket, pipe or terminal, and every command line; all of it, the files themselves, all requests and mails are searched for all secrets known at that time, which are read from the databases (plain, hexadecimal, three base64 alignments)",
  "Pipes between the client and its own tools carry secrets by design. Memory, swap and timing are not looked at.",
  state=[("bytes", "whatever is written to a file, socket or command line", "ctrlengine/ctrlengine.go")])
P("E09", "An interactive session does what the same single commands do",
  "In an interactive session of mutectrl each line does what the same command does by itself: the same output and messages, the same effect on databases, tokens and servers, the same success or failure. A command which fails or is malformed leaves the session usable and changes nothing else. The user ID defaults to the active one, which is shown before each prompt. Messages typed at the terminal arrive as typed. An offline session contacts nobody, whatever is entered that can be done offline. quit and the end of the input end the session without an error.",
  ["histories", "configurations", "fault_sequences"], "all sequences of commands, all ways to enter them, and servers which fail in between",
  "No test runs the loop of the engine.",
  ["ctrlengine/ctrlengine.go", "ctrlengine/msg.go", "ctrlengine/contact.go", "ctrlengine/uid.go"],
  [("loop", "ctrlengine/ctrlengine.go"), ("typed messages", "ctrlengine/msg.go")],
  "exploration", MON + "the same random commands are given to a session in one world and as single commands in its twin, and both are compared after each of them; messages are typed at a pseudo terminal; the harness counts who is contacted",
  "db rekey cannot be used in a session (the file descriptor of the passphrase is closed after login) and is left out. Completion and editing of lines belong to a library and are not examined.",
  state=[("active user ID", "default of all commands in a session", "ctrlengine/uid.go")])
