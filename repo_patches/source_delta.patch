From 89a37887e6f91e419470e8fd01a94b1cdaecde6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 01/94] fix: msg.Encrypt() returns the NymAddress for
 StatusError messages, too

---
 msg/encrypt.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msg/encrypt.go b/msg/encrypt.go
index ed95615..503c6cc 100644
--- a/msg/encrypt.go
+++ b/msg/encrypt.go
@@ -193,11 +193,12 @@ func Encrypt(args *EncryptArgs) (nymAddress string, err error) {
 		if err != nil {
 			return "", err
 		}
-	} else if args.StatusCode != StatusError { // do not update sessions for StatusError messages
+	} else {
 		log.Debug("session found")
 		log.Debugf("got session: %s", ss.SenderSessionPub.HASH)
 		nymAddress = ss.NymAddress
-		if ss.NextSenderSessionPub == nil {
+		// do not update sessions for StatusError messages
+		if args.StatusCode != StatusError && ss.NextSenderSessionPub == nil {
 			// start new session in randomized fashion
 			n, err := rand.Int(cipher.RandReader, big.NewInt(int64(args.AvgSessionSize)))
 			if err != nil {
-- 
2.43.0


From c9e4728b87794c248237d3db1164435970100fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:14 +0000
Subject: [PATCH 02/94] fix: msg.Encrypt() commits the session state before it
 releases the message

---
 msg/encrypt.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/msg/encrypt.go b/msg/encrypt.go
index 503c6cc..85066a1 100644
--- a/msg/encrypt.go
+++ b/msg/encrypt.go
@@ -416,27 +416,34 @@ func Encrypt(args *EncryptArgs) (nymAddress string, err error) {
 	}
 	count++
 
-	// write output
+	// check output size
 	wc.Close()
 	if out.Len() != EncodedMsgSize {
 		return "", log.Errorf("out.Len() = %d != %d = EncodedMsgSize)",
 			out.Len(), EncodedMsgSize)
 	}
-	if _, err := io.Copy(args.Writer, &out); err != nil {
-		return "", log.Error(err)
-	}
+	// The session state is updated before the message key is deleted and before
+	// the message is written. Otherwise, if we are interrupted in between, the
+	// key would be needed again although it has been deleted already or it
+	// would be used for two messages.
 
-	// delete message key
-	err = args.KeyStore.DelMessageKey(sessionKey, true, ss.SenderMessageCount)
-	if err != nil {
-		return "", err
-	}
 	// increase SenderMessageCount
+	messageCount := ss.SenderMessageCount
 	ss.SenderMessageCount++
 	err = args.KeyStore.SetSessionState(sessionStateKey, ss)
 	if err != nil {
 		return "", err
 	}
+	// delete message key
+	err = args.KeyStore.DelMessageKey(sessionKey, true, messageCount)
+	if err != nil {
+		return "", err
+	}
+
+	// write output
+	if _, err := io.Copy(args.Writer, &out); err != nil {
+		return "", log.Error(err)
+	}
 
 	return
 }
-- 
2.43.0


From 2e8ed7c0bae0e31db35c07caa974fe0a98220d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 03/94] fix: msg.Decrypt() bounds the number of missing message
 keys, not the session size

---
 msg/decrypt.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 4cdb27f..1a0eb9c 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -358,15 +358,12 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 			return "", "", err
 		}
 		// prevent denial of service attack by very large h.SenderMessageCount
-		numOfKeys := h.SenderMessageCount / args.NumOfKeys
-		if h.SenderMessageCount%args.NumOfKeys > 0 {
-			numOfKeys++
-		}
-		numOfKeys *= args.NumOfKeys
-		if numOfKeys > mime.MaxMsgSize/MaxContentLength+NumOfFutureKeys {
+		missing := h.SenderMessageCount - n // without the key itself
+		if missing >= mime.MaxMsgSize/MaxContentLength+NumOfFutureKeys {
 			return "", "",
 				log.Errorf("msg: requested number of message keys too large")
 		}
+		numOfKeys := (missing/args.NumOfKeys + 1) * args.NumOfKeys
 		log.Debugf("numOfKeys=%d", numOfKeys)
 		var recipientPub *[32]byte
 		if h.RecipientTempHash == ss.SenderSessionPub.HASH {
-- 
2.43.0


From 99408b3d029b190d22f806ea8e4e2502898091a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:40 +0000
Subject: [PATCH 04/94] fix: msg.Decrypt() writes the content only after the
 message has been authenticated

---
 msg/decrypt.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 1a0eb9c..36cb205 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -458,9 +458,8 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		// create signature hash
 		contentHash = cipher.SHA512(ih.content)
 	}
-	if _, err := args.Writer.Write(ih.content); err != nil {
-		return "", "", log.Error(err)
-	}
+	// the content is only written after the message has been authenticated
+	content := ih.content
 
 	// continue HMAC calculation
 	if err := oh.write(mac, true); err != nil {
@@ -569,6 +568,11 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		return "", "", log.Error(ErrHMACsDiffer)
 	}
 
+	// write content
+	if _, err := args.Writer.Write(content); err != nil {
+		return "", "", log.Error(err)
+	}
+
 	// delete message key
 	err = args.KeyStore.DelMessageKey(sessionKey, false, h.SenderMessageCount)
 	if err != nil {
-- 
2.43.0


From db0cc7a9a657b3f9d845f689afad97ac334d70ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 05/94] fix: msg.Decrypt() changes the key store only after the
 message has been authenticated

---
 msg/decrypt.go  | 100 +++++++++++++++---------
 msg/deferred.go | 202 ++++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 264 insertions(+), 38 deletions(-)
 create mode 100644 msg/deferred.go

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 36cb205..1555605 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -156,32 +156,45 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 	res := make(chan *procUIDResult, 1)
 	go procUID(h.SenderUID, res)
 
+	// defer all changes until the message has been authenticated
+	keyStore := &deferredStore{Store: args.KeyStore}
+
 	// get session state
 	sender := h.SenderIdentity
 	recipient := identity.Identity()
 	log.Debugf("%s -> %s", sender, recipient)
 	sessionStateKey := session.CalcStateKey(recipientID.PublicKey32(),
 		h.SenderIdentityPub.PublicKey32())
-	ss, err := args.KeyStore.GetSessionState(sessionStateKey)
+	ss, err := keyStore.GetSessionState(sessionStateKey)
 	if err != nil {
 		return "", "", err
 	}
+	if ss != nil {
+		// do not change a session state shared with the key store
+		tmp := *ss
+		ss = &tmp
+	}
 	sessionKey := session.CalcKey(recipientID.HASH, h.SenderIdentityPub.HASH,
 		h.RecipientTempHash, h.SenderSessionPub.HASH)
 
-	if !args.KeyStore.HasSession(sessionKey) { // session unknown
+	hasSession := keyStore.HasSession(sessionKey)
+	// A known session without state means that we have been interrupted before
+	// the state could be stored.
+	if !hasSession || ss == nil { // session unknown
 		// try to start session from KeyInit message
-		recipientKI, err := args.KeyStore.GetPrivateKeyEntry(h.RecipientTempHash)
+		recipientKI, err := keyStore.GetPrivateKeyEntry(h.RecipientTempHash)
 		if err != nil && err != session.ErrNoKeyEntry {
 			return "", "", err
 		}
 		if err != session.ErrNoKeyEntry { // KeyInit message found
 			// root key agreement
-			err = rootKeyAgreementRecipient(&senderHeaderPub, sender, recipient,
-				&h.SenderSessionPub, &h.SenderIdentityPub, recipientKI, recipientID,
-				nil, args.NumOfKeys, args.KeyStore)
-			if err != nil {
-				return "", "", err
+			if !hasSession {
+				err = rootKeyAgreementRecipient(&senderHeaderPub, sender, recipient,
+					&h.SenderSessionPub, &h.SenderIdentityPub, recipientKI, recipientID,
+					nil, args.NumOfKeys, keyStore)
+				if err != nil {
+					return "", "", err
+				}
 			}
 
 			// TODO: delete single-use KeyInit message
@@ -195,13 +208,13 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					return "", "", err
 				}
 				// store next session key
-				err := addSessionKey(args.KeyStore, &nextSenderSession)
+				err := addSessionKey(keyStore, &nextSenderSession)
 				if err != nil {
 					return "", "", err
 				}
 				// if we already got h.NextSenderSessionPub prepare next session
 				if h.NextSenderSessionPub != nil {
-					previousRootKeyHash, err := args.KeyStore.GetRootKeyHash(sessionKey)
+					previousRootKeyHash, err := keyStore.GetRootKeyHash(sessionKey)
 					if err != nil {
 						return "", "", err
 					}
@@ -209,7 +222,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					err = rootKeyAgreementSender(&senderHeaderPub, recipient,
 						sender, &nextSenderSession, recipientID,
 						h.NextSenderSessionPub, &h.SenderIdentityPub,
-						previousRootKeyHash, args.NumOfKeys, args.KeyStore)
+						previousRootKeyHash, args.NumOfKeys, keyStore)
 					if err != nil {
 						return "", "", err
 					}
@@ -226,7 +239,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					NymAddress:                  h.NymAddress,
 					KeyInitSession:              false,
 				}
-				err = args.KeyStore.SetSessionState(sessionStateKey, ss)
+				err = keyStore.SetSessionState(sessionStateKey, ss)
 				if err != nil {
 					return "", "", err
 				}
@@ -251,12 +264,12 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 				// ours immediately
 				if ss.NextSenderSessionPub == nil {
 					// prepare upcoming session, but do not switch to it yet
-					nextSenderSession, err := setNextSenderSessionPub(args.KeyStore, ss,
+					nextSenderSession, err := setNextSenderSessionPub(keyStore, ss,
 						sessionStateKey, args.Rand)
 					if err != nil {
 						return "", "", err
 					}
-					previousRootKeyHash, err := args.KeyStore.GetRootKeyHash(sessionKey)
+					previousRootKeyHash, err := keyStore.GetRootKeyHash(sessionKey)
 					if err != nil {
 						return "", "", err
 					}
@@ -264,14 +277,14 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					err = rootKeyAgreementSender(&senderHeaderPub, recipient,
 						sender, nextSenderSession, recipientID,
 						h.NextSenderSessionPub, &h.SenderIdentityPub,
-						previousRootKeyHash, args.NumOfKeys, args.KeyStore)
+						previousRootKeyHash, args.NumOfKeys, keyStore)
 					if err != nil {
 						return "", "", err
 					}
 					if ss.NextRecipientSessionPubSeen == nil {
 						// save h.NextSenderSessionPub, if necessary
 						ss.NextRecipientSessionPubSeen = h.NextSenderSessionPub
-						err := args.KeyStore.SetSessionState(sessionStateKey, ss)
+						err := keyStore.SetSessionState(sessionStateKey, ss)
 						if err != nil {
 							return "", "", err
 						}
@@ -279,22 +292,28 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 				} else if h.NextRecipientSessionPubSeen != nil &&
 					h.NextRecipientSessionPubSeen.HASH == ss.NextSenderSessionPub.HASH {
 					// switch to next session
-					nextSenderSession, err := getSessionKey(args.KeyStore,
+					nextSenderSession, err := getSessionKey(keyStore,
 						ss.NextSenderSessionPub.HASH)
 					if err != nil {
 						return "", "", err
 					}
-					previousRootKeyHash, err := args.KeyStore.GetRootKeyHash(sessionKey)
-					if err != nil {
-						return "", "", err
-					}
-					// root key agreement
-					err = rootKeyAgreementRecipient(&senderHeaderPub, sender,
-						recipient, h.NextSenderSessionPub, &h.SenderIdentityPub,
-						nextSenderSession, recipientID, previousRootKeyHash,
-						args.NumOfKeys, args.KeyStore)
-					if err != nil {
-						return "", "", err
+					// root key agreement (could have been stored already, if we
+					// have been interrupted before the state could be stored)
+					nextSessionKey := session.CalcKey(recipientID.HASH,
+						h.SenderIdentityPub.HASH, nextSenderSession.HASH,
+						h.NextSenderSessionPub.HASH)
+					if !keyStore.HasSession(nextSessionKey) {
+						previousRootKeyHash, err := keyStore.GetRootKeyHash(sessionKey)
+						if err != nil {
+							return "", "", err
+						}
+						err = rootKeyAgreementRecipient(&senderHeaderPub, sender,
+							recipient, h.NextSenderSessionPub, &h.SenderIdentityPub,
+							nextSenderSession, recipientID, previousRootKeyHash,
+							args.NumOfKeys, keyStore)
+						if err != nil {
+							return "", "", err
+						}
 					}
 					// store new session state
 					ss = &session.State{
@@ -308,7 +327,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 						NymAddress:                  h.NymAddress,
 						KeyInitSession:              false,
 					}
-					err = args.KeyStore.SetSessionState(sessionStateKey, ss)
+					err = keyStore.SetSessionState(sessionStateKey, ss)
 					if err != nil {
 						return "", "", err
 					}
@@ -332,20 +351,20 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					NymAddress:                  h.NymAddress,
 					KeyInitSession:              false,
 				}
-				err = args.KeyStore.SetSessionState(sessionStateKey, ss)
+				err = keyStore.SetSessionState(sessionStateKey, ss)
 				if err != nil {
 					return "", "", err
 				}
 			}
 		}
 		// a message with this session key has been decrypted -> delete key
-		if err := args.KeyStore.DelPrivSessionKey(h.RecipientTempHash); err != nil {
+		if err := keyStore.DelPrivSessionKey(h.RecipientTempHash); err != nil {
 			return "", "", err
 		}
 	}
 
 	// make sure we got enough message keys
-	n, err := args.KeyStore.NumMessageKeys(sessionKey)
+	n, err := keyStore.NumMessageKeys(sessionKey)
 	if err != nil {
 		return "", "", err
 	}
@@ -353,7 +372,7 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		// generate more message keys
 		log.Debugf("generate more message keys (h.SenderMessageCount=%d, n=%d)",
 			h.SenderMessageCount, n)
-		chainKey, err := args.KeyStore.GetChainKey(sessionKey)
+		chainKey, err := keyStore.GetChainKey(sessionKey)
 		if err != nil {
 			return "", "", err
 		}
@@ -370,14 +389,14 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 			recipientPub = ss.SenderSessionPub.PublicKey32()
 		} else {
 			log.Debug("different session")
-			recipientKI, err := args.KeyStore.GetPrivateKeyEntry(h.RecipientTempHash)
+			recipientKI, err := keyStore.GetPrivateKeyEntry(h.RecipientTempHash)
 			if err != nil && err != session.ErrNoKeyEntry {
 				return "", "", err
 			}
 			if err != session.ErrNoKeyEntry {
 				recipientPub = recipientKI.PublicKey32()
 			} else {
-				recipientKE, err := getSessionKey(args.KeyStore,
+				recipientKE, err := getSessionKey(keyStore,
 					h.RecipientTempHash)
 				if err != nil {
 					return "", "", err
@@ -388,14 +407,14 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		err = generateMessageKeys(sender, recipient, h.SenderIdentityPub.HASH,
 			recipientID.HASH, chainKey, true,
 			h.SenderSessionPub.PublicKey32(), recipientPub, numOfKeys,
-			args.KeyStore)
+			keyStore)
 		if err != nil {
 			return "", "", err
 		}
 	}
 
 	// get message key
-	messageKey, err := args.KeyStore.GetMessageKey(sessionKey, false,
+	messageKey, err := keyStore.GetMessageKey(sessionKey, false,
 		h.SenderMessageCount)
 	if err != nil {
 		return "", "", err
@@ -573,8 +592,13 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 		return "", "", log.Error(err)
 	}
 
+	// the message has been authenticated -> apply changes
+	if err := keyStore.commit(); err != nil {
+		return "", "", err
+	}
+
 	// delete message key
-	err = args.KeyStore.DelMessageKey(sessionKey, false, h.SenderMessageCount)
+	err = keyStore.DelMessageKey(sessionKey, false, h.SenderMessageCount)
 	if err != nil {
 		return "", "", err
 	}
diff --git a/msg/deferred.go b/msg/deferred.go
new file mode 100644
index 0000000..62004bd
--- /dev/null
+++ b/msg/deferred.go
@@ -0,0 +1,202 @@
+// Copyright (c) 2015 Mute Communications Ltd.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+package msg
+
+import (
+	"github.com/mutecomm/mute/encode/base64"
+	"github.com/mutecomm/mute/log"
+	"github.com/mutecomm/mute/msg/session"
+)
+
+type deferredSession struct {
+	known       bool   // session already exists in the underlying store
+	offset      uint64 // number of message keys in the underlying store
+	sessionKey  string
+	rootKeyHash string
+	chainKey    string
+	send        []string
+	recv        []string
+}
+
+// deferredStore is a session store which defers all changes until commit is
+// called. It is used during decryption, because a message must not change the
+// underlying store before it has been authenticated.
+//
+// It only supports the changes necessary for decryption: For all other methods
+// changes go directly to the underlying store.
+type deferredStore struct {
+	session.Store
+	keys     []func() error
+	sessions []*deferredSession
+	stateKey string
+	state    *session.State
+	delPriv  []string
+}
+
+func (ds *deferredStore) find(sessionKey string) *deferredSession {
+	for _, s := range ds.sessions {
+		if s.sessionKey == sessionKey {
+			return s
+		}
+	}
+	return nil
+}
+
+// AddSessionKey is deferred.
+func (ds *deferredStore) AddSessionKey(
+	hash, json, privKey string,
+	cleanupTime uint64,
+) error {
+	ds.keys = append(ds.keys, func() error {
+		return ds.Store.AddSessionKey(hash, json, privKey, cleanupTime)
+	})
+	return nil
+}
+
+// SetSessionState is deferred.
+func (ds *deferredStore) SetSessionState(
+	sessionStateKey string,
+	sessionState *session.State,
+) error {
+	ds.stateKey = sessionStateKey
+	ds.state = sessionState
+	return nil
+}
+
+// DelPrivSessionKey is deferred.
+func (ds *deferredStore) DelPrivSessionKey(hash string) error {
+	ds.delPriv = append(ds.delPriv, hash)
+	return nil
+}
+
+// StoreSession is deferred.
+func (ds *deferredStore) StoreSession(
+	sessionKey, rootKeyHash, chainKey string,
+	send, recv []string,
+) error {
+	s := ds.find(sessionKey)
+	if s == nil {
+		s = &deferredSession{sessionKey: sessionKey, rootKeyHash: rootKeyHash}
+		if ds.Store.HasSession(sessionKey) {
+			n, err := ds.Store.NumMessageKeys(sessionKey)
+			if err != nil {
+				return err
+			}
+			s.known = true
+			s.offset = n
+		}
+		ds.sessions = append(ds.sessions, s)
+	}
+	s.chainKey = chainKey
+	s.send = append(s.send, send...)
+	s.recv = append(s.recv, recv...)
+	return nil
+}
+
+// HasSession also considers deferred sessions.
+func (ds *deferredStore) HasSession(sessionKey string) bool {
+	return ds.find(sessionKey) != nil || ds.Store.HasSession(sessionKey)
+}
+
+// NumMessageKeys also considers deferred sessions.
+func (ds *deferredStore) NumMessageKeys(sessionKey string) (uint64, error) {
+	if s := ds.find(sessionKey); s != nil {
+		return s.offset + uint64(len(s.send)), nil
+	}
+	return ds.Store.NumMessageKeys(sessionKey)
+}
+
+// GetMessageKey also considers deferred sessions.
+func (ds *deferredStore) GetMessageKey(
+	sessionKey string,
+	sender bool,
+	msgIndex uint64,
+) (*[64]byte, error) {
+	s := ds.find(sessionKey)
+	if s == nil || msgIndex < s.offset {
+		return ds.Store.GetMessageKey(sessionKey, sender, msgIndex)
+	}
+	msgIndex -= s.offset
+	if msgIndex >= uint64(len(s.send)) {
+		return nil, log.Error("msg: message index out of bounds")
+	}
+	enc := s.recv[msgIndex]
+	if sender {
+		enc = s.send[msgIndex]
+	}
+	key, err := base64.Decode(enc)
+	if err != nil {
+		return nil, err
+	}
+	var messageKey [64]byte
+	if copy(messageKey[:], key) != 64 {
+		return nil, log.Error("msg: message key has wrong length")
+	}
+	return &messageKey, nil
+}
+
+// GetRootKeyHash also considers deferred sessions.
+func (ds *deferredStore) GetRootKeyHash(sessionKey string) (*[64]byte, error) {
+	s := ds.find(sessionKey)
+	if s == nil || s.known {
+		return ds.Store.GetRootKeyHash(sessionKey)
+	}
+	enc, err := base64.Decode(s.rootKeyHash)
+	if err != nil {
+		return nil, err
+	}
+	var hash [64]byte
+	if copy(hash[:], enc) != 64 {
+		return nil, log.Error("msg: root key hash has wrong length")
+	}
+	return &hash, nil
+}
+
+// GetChainKey also considers deferred sessions.
+func (ds *deferredStore) GetChainKey(sessionKey string) (*[32]byte, error) {
+	s := ds.find(sessionKey)
+	if s == nil {
+		return ds.Store.GetChainKey(sessionKey)
+	}
+	enc, err := base64.Decode(s.chainKey)
+	if err != nil {
+		return nil, err
+	}
+	var chainKey [32]byte
+	if copy(chainKey[:], enc) != 32 {
+		return nil, log.Error("msg: chain key has wrong length")
+	}
+	return &chainKey, nil
+}
+
+// commit applies all changes to the underlying store. The session state is
+// changed after the keys it needs have been stored, and before the keys it
+// doesn't need anymore are deleted.
+func (ds *deferredStore) commit() error {
+	for _, addKey := range ds.keys {
+		if err := addKey(); err != nil {
+			return err
+		}
+	}
+	for _, s := range ds.sessions {
+		err := ds.Store.StoreSession(s.sessionKey, s.rootKeyHash, s.chainKey,
+			s.send, s.recv)
+		if err != nil {
+			return err
+		}
+	}
+	if ds.state != nil {
+		err := ds.Store.SetSessionState(ds.stateKey, ds.state)
+		if err != nil {
+			return err
+		}
+	}
+	for _, hash := range ds.delPriv {
+		if err := ds.Store.DelPrivSessionKey(hash); err != nil {
+			return err
+		}
+	}
+	return nil
+}
-- 
2.43.0


From 0247591d177c602cc37a50d7f48e56eb97bd6e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 06/94] fix: msg.Decrypt() makes sure the sender UID message
 belongs to the sender identity and key

---
 msg/decrypt.go |  3 +++
 msg/procuid.go | 22 ++++++++++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 1555605..13b9822 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -555,6 +555,9 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 	if uidRes.err != nil {
 		return "", "", uidRes.err
 	}
+	if err := h.checkSender(uidRes.msg); err != nil {
+		return "", "", err
+	}
 
 	// verify signature, if necessary
 	if contentHash != nil {
diff --git a/msg/procuid.go b/msg/procuid.go
index a2bbc8a..be05c39 100644
--- a/msg/procuid.go
+++ b/msg/procuid.go
@@ -6,6 +6,7 @@ package msg
 
 import (
 	"github.com/mutecomm/mute/cipher"
+	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/uid"
 )
 
@@ -30,3 +31,24 @@ func procUID(senderUID string, res chan *procUIDResult) {
 	// return results
 	res <- &r
 }
+
+// checkSender makes sure that the self-signed sender UID message matches the
+// sender identity and the sender identity public key in the header.
+func (h *header) checkSender(msg *uid.Message) error {
+	if msg.UIDContent.SIGKEY.FUNCTION != "ED25519" {
+		return log.Errorf("msg: wrong SIGKEY.FUNCTION in sender UID: %s",
+			msg.UIDContent.SIGKEY.FUNCTION)
+	}
+	if err := msg.VerifySelfSig(); err != nil {
+		return err
+	}
+	if msg.Identity() != h.SenderIdentity {
+		return log.Errorf("msg: sender UID is from %s, not from %s",
+			msg.Identity(), h.SenderIdentity)
+	}
+	if len(msg.UIDContent.PUBKEYS) == 0 ||
+		!uid.KeyEntryEqual(msg.PubKey(), &h.SenderIdentityPub) {
+		return log.Error("msg: sender UID doesn't match sender identity key")
+	}
+	return nil
+}
-- 
2.43.0


From 08b1266b4353ffc47ec5fb639c1f6d11c5ff9ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 07/94] fix: msg.Decrypt() refreshes sessions if both sides
 started the refresh at once

---
 msg/decrypt.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/msg/decrypt.go b/msg/decrypt.go
index 13b9822..cb46cb4 100644
--- a/msg/decrypt.go
+++ b/msg/decrypt.go
@@ -331,6 +331,37 @@ func Decrypt(args *DecryptArgs) (senderID, sig string, err error) {
 					if err != nil {
 						return "", "", err
 					}
+				} else if ss.NextRecipientSessionPubSeen == nil &&
+					recipient < sender {
+					// Both sides have set their NextSenderSessionPub without
+					// having seen the one of the other side: The 'smaller'
+					// side prepares the upcoming session.
+					nextSenderSession, err := getSessionKey(keyStore,
+						ss.NextSenderSessionPub.HASH)
+					if err != nil {
+						return "", "", err
+					}
+					nextSessionKey := session.CalcKey(recipientID.HASH,
+						h.SenderIdentityPub.HASH, nextSenderSession.HASH,
+						h.NextSenderSessionPub.HASH)
+					if !keyStore.HasSession(nextSessionKey) {
+						previousRootKeyHash, err := keyStore.GetRootKeyHash(sessionKey)
+						if err != nil {
+							return "", "", err
+						}
+						err = rootKeyAgreementSender(&senderHeaderPub, recipient,
+							sender, nextSenderSession, recipientID,
+							h.NextSenderSessionPub, &h.SenderIdentityPub,
+							previousRootKeyHash, args.NumOfKeys, keyStore)
+						if err != nil {
+							return "", "", err
+						}
+					}
+					ss.NextRecipientSessionPubSeen = h.NextSenderSessionPub
+					err = keyStore.SetSessionState(sessionStateKey, ss)
+					if err != nil {
+						return "", "", err
+					}
 				}
 			}
 		} else {
-- 
2.43.0


From 8ed9f37862f8ab7c7454802c04ee02797f38ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:16 +0000
Subject: [PATCH 08/94] fix: keydb.AddSession() stores the message keys of an
 extended session under that session

AddSession() took the last insert ID after an UPDATE, which is that of
some unrelated earlier INSERT.
---
 keydb/session.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/keydb/session.go b/keydb/session.go
index a28ab2e..698ca53 100644
--- a/keydb/session.go
+++ b/keydb/session.go
@@ -36,35 +36,40 @@ func (keyDB *KeyDB) AddSession(
 		return log.Error(err)
 	}
 
-	var res sql.Result
+	var sessionID int64
 	_, _, offset, err := keyDB.GetSession(sessionKey)
 	switch {
 	case err == sql.ErrNoRows:
 		// store new session
-		res, err = tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
+		res, err := tx.Stmt(keyDB.insertSessionQuery).Exec(sessionKey,
 			rootKeyHash, chainKey, len(send))
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
+		// get session ID
+		sessionID, err = res.LastInsertId()
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	case err != nil:
 		tx.Rollback()
 		return log.Error(err)
 	default:
 		// update session
-		res, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
+		_, err = tx.Stmt(keyDB.updateSessionQuery).Exec(chainKey,
 			offset+uint64(len(send)), sessionKey)
 		if err != nil {
 			tx.Rollback()
 			return log.Error(err)
 		}
-	}
-
-	// get session ID
-	sessionID, err := res.LastInsertId()
-	if err != nil {
-		tx.Rollback()
-		return log.Error(err)
+		// get session ID (an UPDATE does not set the last insert ID)
+		err = tx.Stmt(keyDB.getSessionIDQuery).QueryRow(sessionKey).Scan(&sessionID)
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
 	}
 
 	// stores message keys
-- 
2.43.0


From ae707c75852370c877e06f36c560ca4e848adc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 09/94] fix: uid.Message.Check() verifies the keys of the
 message

A UID message with malformed keys passed Check() and crashed everybody
who encrypted a message to it. KeyEntry.Verify() refused all ED25519 keys
due to a typo.
---
 uid/keyentry.go | 2 +-
 uid/uid.go      | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/uid/keyentry.go b/uid/keyentry.go
index b8dfe8d..b92b9fd 100644
--- a/uid/keyentry.go
+++ b/uid/keyentry.go
@@ -65,7 +65,7 @@ func (ke *KeyEntry) Verify() error {
 		return log.Errorf("uid: unknown ke.CIPHERSUITE: %s", ke.CIPHERSUITE)
 	}
 	// verify FUNCTION
-	if ke.FUNCTION != "ED25510" && ke.FUNCTION != "ECDHE25519" {
+	if ke.FUNCTION != "ED25519" && ke.FUNCTION != "ECDHE25519" {
 		return log.Errorf("uid: unknown ke.FUNCTION: %s", ke.FUNCTION)
 	}
 	// verify HASH
diff --git a/uid/uid.go b/uid/uid.go
index 21c0be6..fb4a886 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -215,6 +215,9 @@ func (msg *Message) checkV1_0() error {
 	if msg.UIDContent.PUBKEYS[0].FUNCTION != "ECDHE25519" {
 		return log.Error("uid: UIDContent.PUBKEYS[0].FUNCTION != \"ECDHE25519\"")
 	}
+	if err := msg.UIDContent.PUBKEYS[0].Verify(); err != nil {
+		return err
+	}
 	// UIDContent.SIGESCROW must be zero-value.
 	if msg.UIDContent.SIGESCROW != nil {
 		if msg.UIDContent.SIGESCROW.CIPHERSUITE != "" ||
@@ -270,6 +273,9 @@ func (msg *Message) Check() error {
 	if msg.UIDContent.SIGKEY.FUNCTION != "ED25519" {
 		return log.Error("uid: UIDContent.SIGKEY.FUNCTION != \"ED25519\"")
 	}
+	if err := msg.UIDContent.SIGKEY.Verify(); err != nil {
+		return err
+	}
 	// make sure LASTENTRY is parseable for a non-keyserver localpart.
 	// For keyservers the LASTENTRY can be empty, iff this is the first entry
 	// in the hashchain.
-- 
2.43.0


From a271d50f7a84ee259305b3b231fc92ba4129f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 10/94] fix: uid.MessageReply.VerifySrvSig() compares the
 message with the one in the reply

It compared the decrypted message with itself. Also, replies with an
encrypted message which is too short do not panic anymore.
---
 uid/uid.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/uid/uid.go b/uid/uid.go
index fb4a886..65a4588 100644
--- a/uid/uid.go
+++ b/uid/uid.go
@@ -8,6 +8,7 @@ package uid
 
 import (
 	"bytes"
+	"crypto/aes"
 	"crypto/sha256"
 	"encoding/json"
 	"io"
@@ -631,6 +632,9 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 	if err != nil {
 		return nil, nil, log.Error(err)
 	}
+	if len(UIDMessageEncrypted) < sha256.Size+aes.BlockSize {
+		return nil, nil, log.Error("uid: UIDMESSAGEENCRYPTED is too short")
+	}
 	UIDIndex := UIDMessageEncrypted[:sha256.Size]
 	enc := UIDMessageEncrypted[sha256.Size:]
 	Message := aes256.CTRDecrypt(UIDHash, enc)
@@ -645,14 +649,14 @@ func (reply *MessageReply) Decrypt(UIDHash []byte) ([]byte, *Message, error) {
 func (reply *MessageReply) VerifySrvSig(msg *Message, srvPubKey string) error {
 	// make sure messages match
 	UIDHash, UIDIndex, _ := msg.Encrypt()
-	idx, msg, err := reply.Decrypt(UIDHash)
+	idx, replyMsg, err := reply.Decrypt(UIDHash)
 	if err != nil {
 		return err
 	}
 	if !bytes.Equal(idx, UIDIndex) {
 		return log.Error(ErrMsgMismatch)
 	}
-	if !bytes.Equal(msg.JSON(), msg.JSON()) {
+	if !bytes.Equal(msg.JSON(), replyMsg.JSON()) {
 		return log.Error(ErrMsgMismatch)
 	}
 	// verify server signature
-- 
2.43.0


From 4bc6a5cb1002e99249c527926393fa6e700e0995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 11/94] fix: uid.KeyInit verification does not panic on
 malformed session anchors and keys

---
 uid/keyinit.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/uid/keyinit.go b/uid/keyinit.go
index 7e0f831..8407af2 100644
--- a/uid/keyinit.go
+++ b/uid/keyinit.go
@@ -5,6 +5,7 @@
 package uid
 
 import (
+	"crypto/aes"
 	"encoding/json"
 	"io"
 
@@ -127,6 +128,10 @@ func (ki *KeyInit) SessionAnchor(sigPubKey string) (*SessionAnchor, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(enc) < aes.BlockSize {
+		log.Error(ErrSessionAnchor)
+		return nil, ErrSessionAnchor
+	}
 	txt := aes256.CTRDecrypt(keyHash[:32], enc)
 	var sa SessionAnchor
 	if err := json.Unmarshal(txt, &sa); err != nil {
@@ -201,7 +206,9 @@ func (ki *KeyInit) Verify(keyInitRepositoryURIs []string, sigPubKey string) erro
 		return err
 	}
 	// create ed25519 key
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify self-signature
 	if !ed25519Key.Verify(ki.Contents.json(), sig) {
 		log.Error(ErrInvalidKeyInitSig)
@@ -229,7 +236,9 @@ func (ki *KeyInit) VerifySrvSig(signature, srvPubKey string) error {
 	if err != nil {
 		return err
 	}
-	ed25519Key.SetPublicKey(pubKey)
+	if err := ed25519Key.SetPublicKey(pubKey); err != nil {
+		return err
+	}
 	// verify server-signature
 	if !ed25519Key.Verify(ki.JSON(), sig) {
 		log.Error(ErrInvalidSrvSig)
-- 
2.43.0


From 1ee10dbefe97a8582e4bcbb02bb7979e6975b98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:10 +0000
Subject: [PATCH 12/94] fix: identity.Map() does not return identities which
 are too long

---
 uid/identity/identity.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/uid/identity/identity.go b/uid/identity/identity.go
index 77011c3..06bceee 100644
--- a/uid/identity/identity.go
+++ b/uid/identity/identity.go
@@ -38,7 +38,12 @@ func Map(identity string) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return mlp + "@" + MapDomain(domain), nil
+	mappedID := mlp + "@" + MapDomain(domain)
+	// the lower case of a domain can be longer than the domain
+	if len(mappedID) > MaxLen {
+		return "", ErrTooLong
+	}
+	return mappedID, nil
 }
 
 // IsMapped returns an error, if the given identity is not well-formed or not
@@ -68,6 +73,9 @@ func MapPlus(identity string) (mappedID, mappedDomain string, err error) {
 	}
 	mappedDomain = MapDomain(domain)
 	mappedID = mlp + "@" + mappedDomain
+	if len(mappedID) > MaxLen {
+		return "", "", ErrTooLong
+	}
 	return
 }
 
-- 
2.43.0


From fa9a12d9f9692e56998304a54e0504284ef6c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 13/94] fix: hash chain sync checks the replies of the key
 server and reports store errors

---
 cryptengine/hashchain.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 703ff52..3f7c8c7 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -8,6 +8,7 @@ import (
 	"bytes"
 	"crypto/sha256"
 	"fmt"
+	"math"
 
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/cipher/aes256"
@@ -18,6 +19,15 @@ import (
 	"github.com/mutecomm/mute/uid/identity"
 )
 
+// parsePosition parses a hash chain position contained in a JSON-RPC reply.
+func parsePosition(v interface{}) (uint64, bool) {
+	pos, ok := v.(float64)
+	if !ok || pos < 0 || pos > 1<<53 || pos != math.Trunc(pos) {
+		return 0, false
+	}
+	return uint64(pos), true
+}
+
 // syncHashChain brings local hash chain in sync with key server at the given
 // domain. It just downloads the new entries and does not validate them
 // whatsoever.
@@ -39,11 +49,10 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch last hash chain entry reply has the wrong type")
 	}
 	// parse hash chain position
-	hcPosFloat := reply["HCPos"].(float64)
+	hcPos, ok := parsePosition(reply["HCPos"])
 	if !ok {
 		return log.Error("cryptengine: fetch last hash chain position reply has the wrong type")
 	}
-	hcPos := uint64(hcPosFloat)
 	log.Debugf("cryptengine: last HC#%d: %s", hcPos, hcEntry)
 
 	// determine what we already have
@@ -88,11 +97,17 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		return log.Error("cryptengine: fetch hash chain entries reply has the wrong type")
 	}
 	// parse first hash chain position
-	hcPosFirstFloat := reply["HCFirstPos"].(float64)
+	hcFirstPos, ok := parsePosition(reply["HCFirstPos"])
 	if !ok {
 		return log.Error("cryptengine: fetch hash chain first position reply has the wrong type")
 	}
-	hcFirstPos := uint64(hcPosFirstFloat)
+	// make sure we got exactly what is missing
+	if hcFirstPos != start {
+		return log.Error("cryptengine: fetch hash chain reply starts at the wrong position")
+	}
+	if uint64(len(hcEntries)) < end-start+1 {
+		return log.Error("cryptengine: fetch hash chain reply has too few entries")
+	}
 	for i := hcFirstPos; i <= hcPos; i++ {
 		entry, ok := hcEntries[i-hcFirstPos].(string)
 		if !ok {
@@ -102,7 +117,7 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 		// store entry in database
 		err := ce.keyDB.AddHashChainEntry(domain, i, entry)
 		if err != nil {
-			return nil
+			return err
 		}
 	}
 
@@ -218,11 +233,10 @@ func (ce *CryptEngine) fetchUID(
 	if !ok {
 		return nil, log.Error("cryptengine: KeyRepository.FetchUID HASHCHAINENTRY has the wrong type")
 	}
-	hcPos, ok := e["HASHCHAINPOS"].(float64)
+	entry.HASHCHAINPOS, ok = parsePosition(e["HASHCHAINPOS"])
 	if !ok {
 		return nil, log.Error("cryptengine: KeyRepository.FetchUID HASHCHAINPOS has the wrong type")
 	}
-	entry.HASHCHAINPOS = uint64(hcPos)
 
 	// Parse server signature
 	srvSig, ok := rep["SERVERSIGNATURE"].(string)
@@ -412,11 +426,10 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 	var TYPE, NONCE, HashID, CrUID, UIDIndex []byte
 	var matchFound bool
 	for k, v := range hcPositions {
-		hcPosFloat, ok := v.(float64)
+		hcPos, ok := parsePosition(v)
 		if !ok {
 			return log.Errorf("cryptengine: lookup ID reply position entry %d has the wrong type", k)
 		}
-		hcPos := uint64(hcPosFloat)
 		hcEntry, err := ce.keyDB.GetHashChainEntry(domain, hcPos)
 		if err != nil {
 			return err
-- 
2.43.0


From db8ae7504a5357ca8b284b2c5f4e37044a50e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:49 +0000
Subject: [PATCH 14/94] fix: hash chain search and lookup accept only checked
 UID messages of the identity with a valid chain

---
 cryptengine/hashchain.go | 71 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 65 insertions(+), 6 deletions(-)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index 3f7c8c7..eb84724 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -277,6 +277,25 @@ func (ce *CryptEngine) verifyServerSig(
 	return nil
 }
 
+// verifyUIDChain makes sure that the UID message at the given hash chain
+// position continues the chain of UID messages of its identity. That is, it
+// must be signed by its predecessor or be the first one.
+func (ce *CryptEngine) verifyUIDChain(uid *uid.Message, position uint64) error {
+	if position > 0 {
+		preUID, _, found, err := ce.keyDB.GetPublicUID(uid.Identity(), position-1)
+		if err != nil {
+			return err
+		}
+		if found {
+			return uid.VerifyUserSig(preUID)
+		}
+	}
+	if uid.UIDContent.MSGCOUNT != 0 {
+		return log.Errorf("cryptengine: predecessor of UIDMessage for '%s' is missing", uid.Identity())
+	}
+	return nil
+}
+
 // searchHashChain searches the local hash chain corresponding to the given id
 // for the id. It talks to the corresponding key server to retrieve necessary
 // UIDMessageReplys and stores found UIDMessages in the local keyDB.
@@ -331,12 +350,16 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 		log.Debugf("cryptengine: UIDIndex=%s", base64.Encode(UIDIndex))
 
 		// Check UID already exists in keyDB
-		_, pos, found, err := ce.keyDB.GetPublicUID(mappedID, i)
+		known, pos, found, err := ce.keyDB.GetPublicUID(mappedID, i)
 		if err != nil {
 			return err
 		}
 		if found && pos == i {
-			// UID exists already -> skip entry
+			// UID exists already -> make sure it has its place in the chain of
+			// UIDMessages and skip entry
+			if err := ce.verifyUIDChain(known, pos); err != nil {
+				return err
+			}
 			matchFound = true
 			continue
 		}
@@ -369,6 +392,19 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Make sure this is the UIDMessage recorded in the hash chain
+		if hash, _, _ := uid.Encrypt(); !bytes.Equal(hash, UIDHash) {
+			return log.Errorf("cryptengine: UIDMessage does not match UIDHash")
+		}
+
+		// Check UIDMessage and make sure it belongs to the identity
+		if err := uid.Check(); err != nil {
+			return err
+		}
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UIDMessage is not for identity '%s'", mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
@@ -379,7 +415,10 @@ func (ce *CryptEngine) searchHashChain(id string, searchOnly bool) error {
 			return err
 		}
 
-		// TODO: make sure the whole chain of UIDMessages is valid
+		// Make sure the whole chain of UIDMessages is valid
+		if err := ce.verifyUIDChain(uid, i); err != nil {
+			return err
+		}
 
 		// Store UIDMessage
 		if err := ce.keyDB.AddPublicUID(uid, i); err != nil {
@@ -458,12 +497,16 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 		log.Debugf("cryptengine: UIDIndex=%s", base64.Encode(UIDIndex))
 
 		// Check UID already exists in keyDB
-		_, pos, found, err := ce.keyDB.GetPublicUID(mappedID, hcPos)
+		known, pos, found, err := ce.keyDB.GetPublicUID(mappedID, hcPos)
 		if err != nil {
 			return err
 		}
 		if found && pos == hcPos {
-			// UID exists already -> skip entry
+			// UID exists already -> make sure it has its place in the chain of
+			// UIDMessages and skip entry
+			if err := ce.verifyUIDChain(known, pos); err != nil {
+				return err
+			}
 			matchFound = true
 			continue
 		}
@@ -496,6 +539,19 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return log.Errorf("cryptengine: index != UIDIndex")
 		}
 
+		// Make sure this is the UIDMessage recorded in the hash chain
+		if hash, _, _ := uid.Encrypt(); !bytes.Equal(hash, UIDHash) {
+			return log.Errorf("cryptengine: UIDMessage does not match UIDHash")
+		}
+
+		// Check UIDMessage and make sure it belongs to the identity
+		if err := uid.Check(); err != nil {
+			return err
+		}
+		if uid.Identity() != mappedID {
+			return log.Errorf("cryptengine: UIDMessage is not for identity '%s'", mappedID)
+		}
+
 		// Verify self signature
 		if err := uid.VerifySelfSig(); err != nil {
 			return log.Error(err)
@@ -506,7 +562,10 @@ func (ce *CryptEngine) lookupHashChain(id string) error {
 			return err
 		}
 
-		// TODO: make sure the whole chain of UIDMessages is valid
+		// Make sure the whole chain of UIDMessages is valid
+		if err := ce.verifyUIDChain(uid, hcPos); err != nil {
+			return err
+		}
 
 		// Store UIDMessage
 		if err := ce.keyDB.AddPublicUID(uid, hcPos); err != nil {
-- 
2.43.0


From d4232a21c90c0ef09ed0e930b4ac76a81a8aff57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 15/94] fix: fetched key init messages are verified before they
 are stored

---
 cryptengine/keyinit.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index daf77d5..df4a51c 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -126,6 +126,13 @@ func (ce *CryptEngine) fetchKeyInit(pseudonym string) error {
 	if err != nil {
 		return err
 	}
+	// verify key init message
+	if ki.SigKeyHash() != sigKeyHash {
+		return log.Errorf("cryptengine: fetched key init is not for '%s'", sigKeyHash)
+	}
+	if err := ki.Verify([]string{domain}, msg.SigPubKey()); err != nil {
+		return err
+	}
 	// store public key init message
 	return ce.keyDB.AddPublicKeyInit(ki)
 }
-- 
2.43.0


From 6cd234bfd198357dc18d5c542fca0050613d818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 16/94] fix: keydb.GetPublicKeyInit() returns the key init
 fetched last

---
 keydb/keydb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/keydb/keydb.go b/keydb/keydb.go
index 8da80ae..58921c3 100644
--- a/keydb/keydb.go
+++ b/keydb/keydb.go
@@ -121,7 +121,7 @@ CREATE TABLE SessionKeys (
 	addPrivateKeyInitQuery    = "INSERT INTO PrivateKeyInits (SIGKEYHASH, PUBKEYHASH, KeyInit, SigPubKey, PRIVKEY, ServerSignature) VALUES (?, ?, ?, ?, ?, ?);"
 	getPrivateKeyInitQuery    = "SELECT KeyInit, SigPubKey, PRIVKEY FROM PrivateKeyInits WHERE PUBKEYHASH=?;"
 	addPublicKeyInitQuery     = "INSERT INTO PublicKeyInits (SIGKEYHASH, KeyInit) VALUES (?, ?);"
-	getPublicKeyInitQuery     = "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=?;"
+	getPublicKeyInitQuery     = "SELECT KeyInit FROM PublicKeyInits WHERE SIGKEYHASH=? ORDER BY ID DESC;"
 	addPublicUIDQuery         = "INSERT INTO PublicUIDs (IDENTITY, MSGCOUNT, POSITION, UIDMessage) VALUES (?, ?, ?, ?);"
 	getPublicUIDQuery         = "SELECT UIDMessage, POSITION FROM PublicUIDs WHERE IDENTITY=? and POSITION<=? ORDER BY POSITION DESC;"
 	getSessionQuery           = "SELECT RootKeyHash, ChainKey, NumOfKeys FROM Sessions WHERE SessionKey=?;"
@@ -565,7 +565,7 @@ func (keyDB *KeyDB) AddPublicKeyInit(ki *uid.KeyInit) error {
 	return nil
 }
 
-// GetPublicKeyInit gets a public key init from keydb.
+// GetPublicKeyInit gets the last added public key init from keydb.
 // If no such KeyInit could be found, sql.ErrNoRows is returned.
 func (keyDB *KeyDB) GetPublicKeyInit(sigKeyHash string) (*uid.KeyInit, error) {
 	var json string
-- 
2.43.0


From d26ebc9455b01facc4eced58a188bee6ba8cb5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:28 +0000
Subject: [PATCH 17/94] fix: cryptengine does not panic if a key server has no
 signature key

---
 cryptengine/keyinit.go | 3 +++
 cryptengine/uid.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cryptengine/keyinit.go b/cryptengine/keyinit.go
index df4a51c..623d338 100644
--- a/cryptengine/keyinit.go
+++ b/cryptengine/keyinit.go
@@ -66,6 +66,9 @@ func (ce *CryptEngine) addKeyInit(pseudonym, mixaddress, nymaddress, token strin
 	if len(kis) != len(sigs) {
 		return log.Error("cryptengine: number of returned signatures does not equal number of sent key init messages")
 	}
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server for '%s' has no signature key", domain)
+	}
 	for i, ki := range kis {
 		sig, ok := sigs[i].(string)
 		if !ok {
diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 172b215..848df7d 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -117,6 +117,9 @@ func (ce *CryptEngine) registerOrUpdate(
 
 	// verify reply
 	// TODO: keyserver can return more than one SIGPUBKEY
+	if len(caps.SIGPUBKEYS) == 0 {
+		return log.Errorf("cryptengine: key server for '%s' has no signature key", domain)
+	}
 	if err := msgReply.VerifySrvSig(msg, caps.SIGPUBKEYS[0]); err != nil {
 		return err
 	}
-- 
2.43.0


From 93e985138b5cc5d3176937f75b308e04e9c50365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 18/94] fix: copy passphrases out of the scanner when reading
 several of them

The slice returned by Scanner.Bytes is overwritten by later calls of Scan as
soon as the buffer has to be moved, so differing passphrases were accepted
as equal (and the wrong one used) if they were long together.
---
 cryptengine/db.go | 10 +++++-----
 ctrlengine/db.go  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/cryptengine/db.go b/cryptengine/db.go
index ec47338..bbd525d 100644
--- a/cryptengine/db.go
+++ b/cryptengine/db.go
@@ -25,7 +25,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	var passphrase []byte
 	defer bzero.Bytes(passphrase)
 	if scanner.Scan() {
-		passphrase = scanner.Bytes()
+		passphrase = append([]byte{}, scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -34,7 +34,7 @@ func (ce *CryptEngine) dbCreate(homedir string, iterations int) error {
 	var passphrase2 []byte
 	defer bzero.Bytes(passphrase2)
 	if scanner.Scan() {
-		passphrase2 = scanner.Bytes()
+		passphrase2 = append([]byte{}, scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -56,7 +56,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var oldPassphrase []byte
 	defer bzero.Bytes(oldPassphrase)
 	if scanner.Scan() {
-		oldPassphrase = scanner.Bytes()
+		oldPassphrase = append([]byte{}, scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -65,7 +65,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var newPassphrase []byte
 	defer bzero.Bytes(newPassphrase)
 	if scanner.Scan() {
-		newPassphrase = scanner.Bytes()
+		newPassphrase = append([]byte{}, scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
@@ -74,7 +74,7 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	var newPassphrase2 []byte
 	defer bzero.Bytes(newPassphrase2)
 	if scanner.Scan() {
-		newPassphrase2 = scanner.Bytes()
+		newPassphrase2 = append([]byte{}, scanner.Bytes()...)
 	} else if err := scanner.Err(); err != nil {
 		return log.Error(err)
 	}
diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index f1a3719..273afe4 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -103,7 +103,7 @@ func (ce *CtrlEngine) dbCreate(
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			passphrase = scanner.Bytes()
+			passphrase = append([]byte{}, scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -121,7 +121,7 @@ func (ce *CtrlEngine) dbCreate(
 		}
 	} else {
 		if scanner.Scan() {
-			passphrase2 = scanner.Bytes()
+			passphrase2 = append([]byte{}, scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -237,7 +237,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 	} else {
 		scanner = bufio.NewScanner(ce.fileTable.PassphraseFP)
 		if scanner.Scan() {
-			oldPassphrase = scanner.Bytes()
+			oldPassphrase = append([]byte{}, scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -255,7 +255,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		}
 	} else {
 		if scanner.Scan() {
-			newPassphrase = scanner.Bytes()
+			newPassphrase = append([]byte{}, scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
@@ -273,7 +273,7 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 		}
 	} else {
 		if scanner.Scan() {
-			newPassphrase2 = scanner.Bytes()
+			newPassphrase2 = append([]byte{}, scanner.Bytes()...)
 		} else if err := scanner.Err(); err != nil {
 			return log.Error(err)
 		}
-- 
2.43.0


From 1fb731df5ca5ea533537e7bbee3ba1be99535826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 19/94] fix: synchronise the key file before it replaces the
 old one

Without it, a power failure shortly after a rekey can leave an empty key
file, which loses the whole database.
---
 encdb/keyfile.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/encdb/keyfile.go b/encdb/keyfile.go
index de0e34a..9d73110 100644
--- a/encdb/keyfile.go
+++ b/encdb/keyfile.go
@@ -90,7 +90,8 @@ func writeKeyfile(filename string, passphrase []byte, iter int, key []byte) erro
 	if _, err := keyfile.Write(encKey); err != nil {
 		return err
 	}
-	return nil
+	// the keyfile must not be lost, if it replaces another one
+	return keyfile.Sync()
 }
 
 // generateKeyFile generates a key file with the given filename that contains a
-- 
2.43.0


From 4efcbaaaede070a72f713b4f2b1718e6e948eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 20/94] fix: do not crash on malformed mix headers

An empty token or revoke ID, or a header length close to 65536, which any
sender can choose (an empty token also by accident), caused a panic.
---
 mix/mixcrypt/clientmix.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 85cb65a..4ed3535 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -63,18 +63,22 @@ func (cl *ClientMixHeader) Unmarshal(d []byte) (header *ClientMixHeader, headerl
 	if cl == nil {
 		cl = new(ClientMixHeader)
 	}
-	lenB := binary.BigEndian.Uint16(d[0:2]) + 2
-	if len(d) < int(lenB) {
+	l := int(binary.BigEndian.Uint16(d[0:2])) + 2
+	lenB := uint16(l)
+	if int(lenB) != l {
+		return nil, 0, ErrSize
+	}
+	if len(d) < l {
 		return nil, lenB, ErrTooShort
 	}
 	_, err = asn1.Unmarshal(d[2:lenB], cl)
 	if err != nil {
 		return nil, lenB, err
 	}
-	if cl.Token[0] == 0x00 && len(cl.Token) == 1 {
+	if len(cl.Token) == 1 && cl.Token[0] == 0x00 {
 		cl.Token = nil
 	}
-	if (cl.RevokeID[0] == 0x00 && len(cl.RevokeID) == 1) || cl.MessageType == MessageTypeForward {
+	if (len(cl.RevokeID) == 1 && cl.RevokeID[0] == 0x00) || cl.MessageType == MessageTypeForward {
 		cl.RevokeID = nil
 	}
 	return cl, lenB, nil
-- 
2.43.0


From 49edbd4c039d6ae1f352482692081280d897e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:00 +0000
Subject: [PATCH 21/94] fix: refuse mix messages of unknown types

They were handled as forward messages, but without the limits for their size,
so that short ones caused a panic. The same happened for headers longer than
65280 bytes because of an overflow.
---
 mix/mixcrypt/clientmix.go | 8 ++++++--
 mix/mixcrypt/common.go    | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 4ed3535..6a24ebb 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -140,6 +140,10 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	if err != nil {
 		return nil, err
 	}
+	// Test type
+	if rstr.MixHeader.MessageType != MessageTypeRelay && rstr.MixHeader.MessageType != MessageTypeForward {
+		return nil, ErrMessageType
+	}
 	// Test Size
 	msgLen := len(decMessage) - int(lenB)
 	if rstr.MixHeader.MessageType == MessageTypeRelay && (msgLen < RelayMinSize || msgLen > RelayMaxSize) {
@@ -162,7 +166,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 		// First 256byte of message
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: rstr.NymAddressPrivate.Expire,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB : int(lenB)+256]), // First 256 byte of message
 		})
 		if rstr.NymAddressPrivate.SingleUse {
 			rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
@@ -173,7 +177,7 @@ func ReceiveMessage(lookupKey KeyFunc, message []byte) (*ReceiveStruct, error) {
 	} else {
 		rstr.UniqueTest = append(rstr.UniqueTest, UniquenessData{
 			Expire: timeNow() + ExpireReceive,
-			Hash:   mkHash(decMessage[lenB : lenB+256]), // First 256 byte of message
+			Hash:   mkHash(decMessage[lenB : int(lenB)+256]), // First 256 byte of message
 		})
 	}
 	rstr.Message = decMessage[lenB:]
diff --git a/mix/mixcrypt/common.go b/mix/mixcrypt/common.go
index 5cb7caf..9513efa 100644
--- a/mix/mixcrypt/common.go
+++ b/mix/mixcrypt/common.go
@@ -31,6 +31,8 @@ var (
 	ErrTooShort = errors.New("mixcrypt: too short")
 	// ErrSize is returned if a message is too long/short
 	ErrSize = errors.New("mixcrypt: message out of bounds")
+	// ErrMessageType is returned if the type of a message is unknown
+	ErrMessageType = errors.New("mixcrypt: unknown message type")
 	// ErrBadSystem is returned if a message for a wrong system was received
 	ErrBadSystem = errors.New("mixcrypt: bad system")
 )
-- 
2.43.0


From c839dc33481068c08d97351ef84a85c928d15ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:31 +0000
Subject: [PATCH 22/94] fix: mixes must not open expired nym addresses

Only the expire time in the public part was checked, which every sender can
change. As the data which recognises replays and second uses is kept only
until the address expires, single-use addresses could be used again.
---
 mix/nymaddr/addr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mix/nymaddr/addr.go b/mix/nymaddr/addr.go
index 48944fb..ed921e7 100644
--- a/mix/nymaddr/addr.go
+++ b/mix/nymaddr/addr.go
@@ -147,6 +147,10 @@ func (ad *Address) GetMixData(keysLookup KeyFunc) (*AddressPrivate, error) {
 	if err != nil {
 		return nil, err
 	}
+	// the public expire time can be changed by anybody
+	if ap.Expire < times.Now() {
+		return nil, ErrExpired
+	}
 	return ap, nil
 }
 
-- 
2.43.0


From 5dfbca4cc8dbaf86f245615c80dccbe05c54cfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 23/94] fix: data race in mixaddr.KeyList.Marshal

With a value as receiver, the list was copied before the mutex was locked.
---
 mix/mixaddr/privkey.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/mixaddr/privkey.go b/mix/mixaddr/privkey.go
index 5ef2b9f..a573bd3 100644
--- a/mix/mixaddr/privkey.go
+++ b/mix/mixaddr/privkey.go
@@ -119,13 +119,13 @@ func (kl *KeyList) Maintain() {
 }
 
 // Marshal the keylist.
-func (kl KeyList) Marshal() []byte {
+func (kl *KeyList) Marshal() []byte {
 	kl.mutex.Lock()
 	defer kl.mutex.Unlock()
 	return kl.marshal()
 }
 
-func (kl KeyList) marshal() []byte {
+func (kl *KeyList) marshal() []byte {
 	klist := make([]KeyEntry, 0, len(kl.Keys))
 	for _, e := range kl.Keys {
 		klist = append(klist, e)
-- 
2.43.0


From fbbe027b30f66657d7e68810cf98cd14bd1cef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 24/94] fix: stored MessageOutput forgot that it was delivered

Unmarshal turned nil fields into empty ones: a delivered message no longer
gave ErrAlreadySent, and a message without CA certificate demanded TLS.
---
 mix/client/send.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mix/client/send.go b/mix/client/send.go
index e73426a..42f7144 100644
--- a/mix/client/send.go
+++ b/mix/client/send.go
@@ -157,6 +157,16 @@ func (mm MessageMarshalled) Unmarshal() *MessageOutput {
 	mo.SmartHost = mom.SmartHost
 	mo.CACert = mom.CACert
 	mo.Resend = mom.Resend
+	// ASN.1 does not distinguish between nil and empty, but Deliver does
+	if len(mo.Message) == 0 {
+		mo.Message = nil
+	}
+	if len(mo.RevokeID) == 0 {
+		mo.RevokeID = nil
+	}
+	if len(mo.CACert) == 0 {
+		mo.CACert = nil
+	}
 	if mom.Error != "" && mom.Error != "nil" {
 		mo.Error = translateError(mom.Error)
 	}
-- 
2.43.0


From 5efc6db539746962f8f8b933e50ca65ee453cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:27 +0000
Subject: [PATCH 25/94] fix: do not resend mail because QUIT failed

The server has accepted the message before.
---
 mix/smtpclient/client.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mix/smtpclient/client.go b/mix/smtpclient/client.go
index d53dd02..61f6918 100644
--- a/mix/smtpclient/client.go
+++ b/mix/smtpclient/client.go
@@ -194,6 +194,7 @@ func (mc *MailClient) SendMail(to, from string, mail []byte) error {
 		client.Reset()
 		return mc.parseError(err)
 	}
-	err = client.Quit()
-	return mc.parseError(err)
+	// the server accepted the message, it is not to be sent again if QUIT fails
+	client.Quit()
+	return nil
 }
-- 
2.43.0


From e0ba8b1588cfd103bc4261bf61e406bb4ac1516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 26/94] fix: extend accounts at the server that has them

PayAccount ignored the known server.
---
 mix/client/accountrpc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index edb2772..437a146 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -49,8 +49,8 @@ func payAccount(authtoken, paytoken []byte, serverKnown string, cacert []byte) (
 	var ok bool
 	method := "AccountServer.LoadAccount"
 	url := DefaultAccountServer
-	if server != "" {
-		url = server
+	if serverKnown != "" {
+		url = serverKnown
 	}
 	url = "https://" + url + ":" + RPCPort + "/account"
 	client, err := DefaultClientFactory(url, cacert)
-- 
2.43.0


From 87e25f1e30f9f7c4b50b101aca75028f4953c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 27/94] fix: do not shorten message lists with malformed
 entries

The errors were assigned to shadowed variables: everything from the
malformed entry on was dropped silently, or the client crashed.
---
 mix/client/accountrpc.go | 87 +++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 46 deletions(-)

diff --git a/mix/client/accountrpc.go b/mix/client/accountrpc.go
index 437a146..873b456 100644
--- a/mix/client/accountrpc.go
+++ b/mix/client/accountrpc.go
@@ -250,57 +250,52 @@ func listMessages(authtoken []byte, lastMessageTime int64, server string, cacert
 	if !ok {
 		return nil, 0, ErrProto
 	}
-	if len(messagesI) > 0 {
-		for _, e := range messagesI {
-			x := e.(map[string]interface{})
-
-			ReceiveTime, ok := x["ReceiveTime"].(float64)
-			if !ok {
-				err = ErrProto
-				break
-			}
-			ReceiveTimeNano, ok := x["ReceiveTimeNano"].(float64)
-			if !ok {
-				err = ErrProto
-				break
-			}
-			ReadTime, ok := x["ReadTime"].(float64)
-			if !ok {
-				err = ErrProto
-				break
-			}
-			uks, ok := x["UserKey"].(string)
-			if !ok {
-				err = ErrProto
-				break
-			}
-			uk, err := hex.DecodeString(uks)
-			if err != nil {
-				break
-			}
-			ukh := new([ed25519.PublicKeySize]byte)
-			copy(ukh[:], uk)
+	for _, e := range messagesI {
+		x, ok := e.(map[string]interface{})
+		if !ok {
+			return nil, 0, ErrProto
+		}
+		ReceiveTime, ok := x["ReceiveTime"].(float64)
+		if !ok {
+			return nil, 0, ErrProto
+		}
+		ReceiveTimeNano, ok := x["ReceiveTimeNano"].(float64)
+		if !ok {
+			return nil, 0, ErrProto
+		}
+		ReadTime, ok := x["ReadTime"].(float64)
+		if !ok {
+			return nil, 0, ErrProto
+		}
+		uks, ok := x["UserKey"].(string)
+		if !ok {
+			return nil, 0, ErrProto
+		}
+		uk, err := hex.DecodeString(uks)
+		if err != nil {
+			return nil, 0, err
+		}
+		ukh := new([ed25519.PublicKeySize]byte)
+		if len(uk) != len(ukh) {
+			return nil, 0, ErrProto
+		}
+		copy(ukh[:], uk)
 
-			mis, ok := x["MessageID"].(string)
-			if !ok {
-				err = ErrProto
-				break
-			}
-			mi, err := hex.DecodeString(mis)
-			if err != nil {
-				break
-			}
-			messages = append(messages, MessageMeta{
-				MessageID:       mi,
-				ReceiveTime:     int64(ReceiveTime),
-				ReceiveTimeNano: int64(ReceiveTimeNano),
-				ReadTime:        int64(ReadTime),
-				UserKey:         *ukh,
-			})
+		mis, ok := x["MessageID"].(string)
+		if !ok {
+			return nil, 0, ErrProto
 		}
+		mi, err := hex.DecodeString(mis)
 		if err != nil {
 			return nil, 0, err
 		}
+		messages = append(messages, MessageMeta{
+			MessageID:       mi,
+			ReceiveTime:     int64(ReceiveTime),
+			ReceiveTimeNano: int64(ReceiveTimeNano),
+			ReadTime:        int64(ReadTime),
+			UserKey:         *ukh,
+		})
 	}
 	return messages, 0, nil
 }
-- 
2.43.0


From 5a3f69de2d27f1f041400909bfdc72a6d6f2313c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:53 +0000
Subject: [PATCH 28/94] fix: walletauth.IsReplay crashed on short errors

---
 serviceguard/common/walletauth/walletauth.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 0144fc1..8ad2c4e 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -13,6 +13,7 @@ import (
 	"errors"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/mutecomm/mute/util/times"
 )
@@ -80,7 +81,7 @@ func (token AuthToken) Hash() []byte {
 // update error and LastCounter.
 // If err is no replay error, the original error is returned.
 func IsReplay(err error) (uint64, error) {
-	if err.Error()[:len("ErrReplay: ")] == "ErrReplay: " {
+	if strings.HasPrefix(err.Error(), "ErrReplay: ") {
 		counter := err.Error()[len("ErrReplay: "):]
 		LastCounter, err := strconv.ParseInt(counter, 10, 64)
 		if err == nil {
-- 
2.43.0


From d6125af19c9a94db018427efc0c935663bfe36c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 29/94] fix: recognise REVOKED as the whole reply of a mix

---
 mix/client/mixrpc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mix/client/mixrpc.go b/mix/client/mixrpc.go
index 3dfd624..1270837 100644
--- a/mix/client/mixrpc.go
+++ b/mix/client/mixrpc.go
@@ -105,7 +105,7 @@ func RevokeMessage(revokeID []byte, mixaddress string, cacert []byte) (bool, err
 	if err != nil {
 		return false, err
 	}
-	if len(body) > 7 {
+	if len(body) >= 7 {
 		if string(body[0:7]) == "REVOKED" {
 			return true, nil
 		}
-- 
2.43.0


From c49c9880b3226054443f3189de37ab12c3334191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 30/94] fix: refuse tokens with fields of wrong length

---
 serviceguard/common/token/types.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/serviceguard/common/token/types.go b/serviceguard/common/token/types.go
index 4ac5c2e..9cc2109 100644
--- a/serviceguard/common/token/types.go
+++ b/serviceguard/common/token/types.go
@@ -9,6 +9,7 @@ import (
 	"crypto/rand"
 	"crypto/sha256"
 	"encoding/asn1"
+	"errors"
 	"io"
 	"math/big"
 
@@ -18,6 +19,11 @@ import (
 	"github.com/ronperry/cryptoedge/jjm"
 )
 
+var (
+	// ErrBadToken is returned if a token contains fields of wrong length
+	ErrBadToken = errors.New("token: bad token")
+)
+
 const (
 	// KeyIDSize is the length of the KeyID
 	KeyIDSize = 32
@@ -112,6 +118,10 @@ func Unmarshal(d []byte) (*Token, error) {
 	if err != nil {
 		return nil, err
 	}
+	// The hash is only unambiguous if all fields have their fixed length
+	if len(t.KeyID) != KeyIDSize || len(t.Nonce) != NonceSize || len(t.Owner) != OwnerSize {
+		return nil, ErrBadToken
+	}
 	return t, nil
 }
 
-- 
2.43.0


From cbc1baed82e821b5694df7d79d2da36b8de1bb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:50 +0000
Subject: [PATCH 31/94] fix: refuse token signatures with points off the curve

---
 serviceguard/client/verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index a1956e9..5ef708f 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -36,6 +36,11 @@ func (c *Client) Verify(inputToken []byte) (outputToken *TokenEntry, err error)
 	tempSignature.PointR = signature.PointR
 	tempSignature.ScalarS = signature.ScalarS
 	tempSignature.ScalarR = signature.ScalarR
+	// The token can come from anybody, points must be on the curve
+	if !c.packetClient.Curve.Curve.IsOnCurve(signature.PointR.X, signature.PointR.Y) {
+		c.LastError = ErrSignatureToken
+		return nil, ErrFinal
+	}
 	// Get signature message
 	clearMessage := jjm.NewClearMessage(tokenUnmarshalled.Hash())
 	// Verify the signature
-- 
2.43.0


From 4866e8e820945b5d72dd02948de3eff11a5b9763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:58 +0000
Subject: [PATCH 32/94] fix: refuse received tokens without owner instead of
 crashing

---
 serviceguard/client/receive.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index f69dbcf..24c4353 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -16,7 +16,7 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 		return ErrFinal
 	}
 	pubkey, _ := splitKey(c.walletKey)
-	if *tokenEntry.OwnerPubKey != *pubkey {
+	if tokenEntry.OwnerPubKey == nil || *tokenEntry.OwnerPubKey != *pubkey {
 		c.LastError = ErrOwnerToken
 		return ErrFinal
 	}
-- 
2.43.0


From ece9a3f8e40208d13987d05ac5c044da4a68ca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 33/94] fix: do not load public keys which are not on the curve

---
 serviceguard/common/keypool/generator.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 80f518b..aed4d7d 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -25,6 +25,8 @@ var (
 	ErrExpired = errors.New("keypool: expired key")
 	// ErrBadSigner is returned if a key signature cannot be verified
 	ErrBadSigner = errors.New("keypool: bad signature")
+	// ErrBadPoint is returned if a key is not a point on the curve
+	ErrBadPoint = errors.New("keypool: key not on curve")
 	// ErrExists is returned if a key to load is already loaded
 	ErrExists = errors.New("keypool: key exists")
 )
@@ -217,6 +219,10 @@ func (kp *KeyPool) loadKey(loadKey *signkeys.PublicKey) (*[signkeys.KeyIDSize]by
 		// Don't load keys without matching signature
 		return nil, ErrBadSigner
 	}
+	if !kp.Generator.Curve.Curve.IsOnCurve(loadKey.PublicKey.X, loadKey.PublicKey.Y) {
+		// The signature does not cover the border between the coordinates
+		return nil, ErrBadPoint
+	}
 	if _, exists := kp.keys[loadKey.KeyID]; exists {
 		return &loadKey.KeyID, ErrExists
 	}
-- 
2.43.0


From 3536ebf6334633c10d051392bafce2077e141e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:42 +0000
Subject: [PATCH 34/94] fix: only verify tokens with the key they name

---
 serviceguard/client/verify.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/verify.go b/serviceguard/client/verify.go
index 5ef708f..2f130a6 100644
--- a/serviceguard/client/verify.go
+++ b/serviceguard/client/verify.go
@@ -85,11 +85,16 @@ func (c *Client) getPubKey(keyid [signkeys.KeyIDSize]byte) (pubkey *signkeys.Pub
 			}
 			return nil, ErrRetry
 		}
-		_, err = c.packetClient.Keypool.LoadKey(pubkey)
+		loadID, err := c.packetClient.Keypool.LoadKey(pubkey)
 		if err != nil && err != keypool.ErrExists {
 			c.LastError = err
 			return nil, ErrFatal
 		}
+		// Make sure we got the key we asked for
+		if *loadID != keyid {
+			c.LastError = keypool.ErrNotFound
+			return nil, ErrFatal
+		}
 	}
 	return pubkey, nil
 }
-- 
2.43.0


From 88a4a8c32599598604531457f3e1a25713ddc7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:50 +0000
Subject: [PATCH 35/94] fix: keylookup client crashed on replies with fields of
 other types

---
 serviceguard/client/keylookup/impl.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 7dd6d00..766350d 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -75,8 +75,8 @@ func (klc LookupClient) getKey(keyid []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Key"]; ok {
-		keyMarshalled, err := base64.StdEncoding.DecodeString(data["Key"].(string))
+	if key, ok := data["Key"].(string); ok {
+		keyMarshalled, err := base64.StdEncoding.DecodeString(key)
 		if err != nil {
 			return nil, err
 		}
@@ -119,16 +119,19 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["PublicKey"]; !ok {
+	publicKeyS, ok := data["PublicKey"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["Signature"]; !ok {
+	signatureS, ok := data["Signature"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	if _, ok := data["KeyList"]; !ok {
+	keylist, ok := data["KeyList"].(string)
+	if !ok {
 		return nil, ErrParams
 	}
-	pubKey, err := hex.DecodeString(data["PublicKey"].(string))
+	pubKey, err := hex.DecodeString(publicKeyS)
 	if err != nil {
 		return nil, ErrParams
 	}
@@ -137,12 +140,11 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 		return nil, ErrBadSigner
 	}
 
-	signature, err := hex.DecodeString(data["Signature"].(string))
+	signature, err := hex.DecodeString(signatureS)
 	if err != nil {
 		return nil, ErrParams
 	}
-	keylist := data["KeyList"].(string)
-	ok := ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
+	ok = ed25519.Verify(klc.PubKey[:], []byte(keylist), signature)
 	if !ok {
 		return nil, ErrBadSignature
 	}
-- 
2.43.0


From be41320bf855f90db3035980461a619a670b529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:58 +0000
Subject: [PATCH 36/94] fix: do not pad the verification keys of a signed list

---
 serviceguard/client/keylookup/impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/keylookup/impl.go b/serviceguard/client/keylookup/impl.go
index 766350d..12381c6 100644
--- a/serviceguard/client/keylookup/impl.go
+++ b/serviceguard/client/keylookup/impl.go
@@ -156,6 +156,10 @@ func (klc LookupClient) GetVerifyList() ([][ed25519.PublicKeySize]byte, error) {
 		if err != nil {
 			return nil, err
 		}
+		// Never trust a key padded with zeros, there is no key behind it
+		if len(dk) != len(keyA) {
+			return nil, ErrParams
+		}
 		copy(keyA[:], dk)
 		keylistRet = append(keylistRet, keyA)
 	}
-- 
2.43.0


From 060d59cbf50ee7d44ef592998ea54e01088eff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 37/94] fix: guardrpc crashed on replies with fields of other
 types

---
 serviceguard/client/guardrpc/client.go | 32 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/serviceguard/client/guardrpc/client.go b/serviceguard/client/guardrpc/client.go
index 0a8908c..6417ed4 100644
--- a/serviceguard/client/guardrpc/client.go
+++ b/serviceguard/client/guardrpc/client.go
@@ -74,8 +74,8 @@ func (rpc RPCclient) GetParams(pubKey *[ed25519.PublicKeySize]byte) ([]byte, err
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -97,8 +97,8 @@ func (rpc RPCclient) GetParamsInternal(pubKey *[ed25519.PublicKeySize]byte) ([]b
 	if err != nil {
 		return nil, err
 	}
-	if _, ok := data["Packet"]; ok {
-		params, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	if packet, ok := data["Packet"].(string); ok {
+		params, err := base64.StdEncoding.DecodeString(packet)
 		if err != nil {
 			return nil, err
 		}
@@ -120,8 +120,8 @@ func (rpc RPCclient) Spend(pubKey *[ed25519.PublicKeySize]byte, packet []byte) (
 	if err != nil {
 		return false, err
 	}
-	if _, ok := data["Status"]; ok {
-		return data["Status"].(bool), nil
+	if status, ok := data["Status"].(bool); ok {
+		return status, nil
 	}
 	return false, ErrParams
 }
@@ -139,17 +139,19 @@ func (rpc RPCclient) Reissue(pubKey *[ed25519.PublicKeySize]byte, packet []byte)
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	packetS, ok := data["Packet"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	pubkeyUsedS, ok := data["PubkeyUsed"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	retpacket, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	retpacket, err := base64.StdEncoding.DecodeString(packetS)
 	if err != nil {
 		return nil, nil, err
 	}
-	pubkeyUsed, err := base64.StdEncoding.DecodeString(data["PubkeyUsed"].(string))
+	pubkeyUsed, err := base64.StdEncoding.DecodeString(pubkeyUsedS)
 	if err != nil {
 		return nil, nil, err
 	}
@@ -176,17 +178,19 @@ func (rpc RPCclient) Issue(pubKey, owner *[ed25519.PublicKeySize]byte) ([]byte,
 	if err != nil {
 		return nil, nil, err
 	}
-	if _, ok := data["Packet"]; !ok {
+	packetS, ok := data["Packet"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	if _, ok := data["PubkeyUsed"]; !ok {
+	pubkeyUsedS, ok := data["PubkeyUsed"].(string)
+	if !ok {
 		return nil, nil, ErrParams
 	}
-	packet, err := base64.StdEncoding.DecodeString(data["Packet"].(string))
+	packet, err := base64.StdEncoding.DecodeString(packetS)
 	if err != nil {
 		return nil, nil, err
 	}
-	pubkeyUsed, err := base64.StdEncoding.DecodeString(data["PubkeyUsed"].(string))
+	pubkeyUsed, err := base64.StdEncoding.DecodeString(pubkeyUsedS)
 	if err != nil {
 		return nil, nil, err
 	}
-- 
2.43.0


From 7a56449561f014806d5d67bc95d981d519dd05ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:35 +0000
Subject: [PATCH 38/94] fix: wallet store never read back its cache

---
 serviceguard/client/walletstore/store.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 1f65653..775c998 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -321,10 +321,10 @@ func (ws *Storage) writeCache() error {
 
 // readCache reads the cache from the database
 func (ws *Storage) readCache() {
-	var data string
+	var hash, data string
 	ws.cacheMutex.Lock()
 	defer ws.cacheMutex.Unlock()
-	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&data)
+	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&hash, &data)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 5825c81aba39d51ba651c612da4664e05ae48fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 39/94] fix: keep the other half of the wallet cache and lock
 it for writing

---
 serviceguard/client/walletstore/store.go | 43 ++++++++----------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 775c998..84f484b 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -319,11 +319,14 @@ func (ws *Storage) writeCache() error {
 	return nil
 }
 
-// readCache reads the cache from the database
+// readCache makes sure that there is a cache, it is read from the database if
+// necessary. The caller must hold cacheMutex.
 func (ws *Storage) readCache() {
 	var hash, data string
-	ws.cacheMutex.Lock()
-	defer ws.cacheMutex.Unlock()
+	if ws.cache != nil {
+		return
+	}
+	ws.cache = new(CacheData)
 	err := ws.getStateQuery.QueryRow("CONFIGCACHE").Scan(&hash, &data)
 	if err != nil {
 		return
@@ -338,9 +341,7 @@ func (ws *Storage) readCache() {
 // SetVerifyKeys saves verification keys
 func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
 	ws.cacheMutex.Lock()
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	ws.readCache()
 	ws.cache.VerifyKeys = verifyKeys
 	ws.cacheMutex.Unlock()
 	ws.writeCache()
@@ -348,28 +349,19 @@ func (ws *Storage) SetVerifyKeys(verifyKeys [][ed25519.PublicKeySize]byte) {
 
 // GetVerifyKeys loads verification keys
 func (ws *Storage) GetVerifyKeys() [][ed25519.PublicKeySize]byte {
-	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
+	ws.readCache()
 	if ws.cache.VerifyKeys == nil {
 		ws.cache.VerifyKeys = make([][ed25519.PublicKeySize]byte, 0)
 	}
-	defer ws.cacheMutex.RUnlock()
 	return ws.cache.VerifyKeys
 }
 
 // SetAuthToken stores an authtoken and tries
 func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
 	ws.cacheMutex.Lock()
-	if ws.cache == nil {
-		ws.cache = new(CacheData)
-	}
+	ws.readCache()
 	ws.cache.AuthToken = authToken
 	ws.cache.AuthTries = tries
 	ws.cacheMutex.Unlock()
@@ -378,16 +370,9 @@ func (ws *Storage) SetAuthToken(authToken []byte, tries int) error {
 
 // GetAuthToken gets authtoken from store
 func (ws *Storage) GetAuthToken() (authToken []byte, tries int) {
-	ws.cacheMutex.RLock()
-	if ws.cache == nil {
-		ws.cacheMutex.RUnlock()
-		ws.readCache()
-		ws.cacheMutex.RLock()
-	}
-	defer ws.cacheMutex.RUnlock()
-	if ws.cache == nil {
-		return nil, 0
-	}
+	ws.cacheMutex.Lock()
+	defer ws.cacheMutex.Unlock()
+	ws.readCache()
 	return ws.cache.AuthToken, ws.cache.AuthTries
 }
 
-- 
2.43.0


From 69c863abc925f28560d9f5bc54dd3fc7ea4f258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:12 +0000
Subject: [PATCH 40/94] fix: no stored auth token is not an empty auth token

---
 serviceguard/client/walletstore/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/types.go b/serviceguard/client/walletstore/types.go
index e096422..8c6b77d 100644
--- a/serviceguard/client/walletstore/types.go
+++ b/serviceguard/client/walletstore/types.go
@@ -203,7 +203,9 @@ func (cd *CacheData) Unmarshal(d string) (*CacheData, error) {
 		copy(copyKey[:], key)
 		cd.VerifyKeys = append(cd.VerifyKeys, *copyKey)
 	}
-	cd.AuthToken = cdb.AuthToken
+	if len(cdb.AuthToken) > 0 {
+		cd.AuthToken = cdb.AuthToken
+	}
 	cd.AuthTries = cdb.AuthTries
 	return cd, nil
 }
-- 
2.43.0


From 83287895c489e5cf392e1371169336b44d27d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:27 +0000
Subject: [PATCH 41/94] fix: unblinding crashed on signatures which cannot be
 read

---
 serviceguard/client/packetproto/methods.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 0eb6da2..997dc9a 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -147,6 +147,9 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	}
 	clearMessage := jjm.NewClearMessage(token.Hash())
 	blindSig, err := jjm.NewBlindSignature(&pubkey.PublicKey).Unmarshal(signature)
+	if err != nil {
+		return nil, err
+	}
 	blindClient := jjm.NewGenericBlindingClient(&pubkey.PublicKey, c.Curve)
 	sig, _, err := blindClient.Unblind(params, clearMessage, blindSig)
 	if err != nil {
-- 
2.43.0


From 71ca11a7738621af7e1e208fa1981bcb8c4cf3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 42/94] fix: do not accept invalid signatures for new tokens

---
 serviceguard/client/packetproto/methods.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index 997dc9a..b55a47b 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -23,6 +23,8 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadSignature signals that a signature is not a valid signature of the token
+	ErrBadSignature = errors.New("client: invalid token signature")
 )
 
 var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
@@ -155,10 +157,13 @@ func (c Client) Unblind(storeLocal *types.ReissuePacketPrivate, signature []byte
 	if err != nil {
 		return nil, err
 	}
-	_, err = blindClient.Verify(sig, clearMessage)
+	valid, err := blindClient.Verify(sig, clearMessage)
 	if err != nil {
 		return nil, err
 	}
+	if !valid {
+		return nil, ErrBadSignature
+	}
 	t := sig.(jjm.ClearSignature)
 	token.AddSignature(&t)
 	return token.Marshal()
-- 
2.43.0


From bfbeabb79a9fde4cae937bd51ce33889109a7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:43 +0000
Subject: [PATCH 43/94] fix: refuse blinding parameters with points off the
 curve

---
 serviceguard/client/packetproto/methods.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/serviceguard/client/packetproto/methods.go b/serviceguard/client/packetproto/methods.go
index b55a47b..3cc6aec 100644
--- a/serviceguard/client/packetproto/methods.go
+++ b/serviceguard/client/packetproto/methods.go
@@ -12,6 +12,7 @@ import (
 	"github.com/mutecomm/mute/serviceguard/common/signkeys"
 	"github.com/mutecomm/mute/serviceguard/common/token"
 	"github.com/mutecomm/mute/serviceguard/common/types"
+	"github.com/ronperry/cryptoedge/eccutil"
 	"github.com/ronperry/cryptoedge/genericblinding"
 	"github.com/ronperry/cryptoedge/jjm"
 )
@@ -23,18 +24,28 @@ var (
 	ErrMissingSigner = errors.New("client: signer missing but required")
 	// ErrParamMismatch signals that a token and parameters do not match
 	ErrParamMismatch = errors.New("client: parameters do not match token")
+	// ErrBadParams signals that parameters contain points which are not on the curve
+	ErrBadParams = errors.New("client: invalid parameters")
 	// ErrBadSignature signals that a signature is not a valid signature of the token
 	ErrBadSignature = errors.New("client: invalid token signature")
 )
 
 var zeroOwner = [ed25519.PublicKeySize]byte{0x00}
 
+// onCurve tells if the point is on the curve of the client
+func (c Client) onCurve(point *eccutil.Point) bool {
+	return point.X != nil && point.Y != nil && c.Curve.Curve.IsOnCurve(point.X, point.Y)
+}
+
 // NewToken returns a blinded token ready for signing. Blindmessage goes to server, blindfactors and clear message remain local
 func (c Client) NewToken(issuerPubKey *signkeys.PublicKey, pubParams *jjm.BlindingParamClient, owner *[ed25519.PublicKeySize]byte) (genericblinding.BlindingFactors, genericblinding.BlindMessage, *token.Token, error) {
 	newToken := token.New(&issuerPubKey.KeyID, owner)
 	if newToken == nil {
 		return nil, nil, nil, ErrNoToken
 	}
+	if !c.onCurve(&pubParams.PointRs1) || !c.onCurve(&pubParams.PointRs2) {
+		return nil, nil, nil, ErrBadParams
+	}
 	blindClient := jjm.NewGenericBlindingClient(&issuerPubKey.PublicKey, c.Curve)
 	clearMessage := jjm.NewClearMessage(newToken.Hash())
 	blindingParams := jjm.NewBlindingParamClient(&issuerPubKey.PublicKey)
-- 
2.43.0


From 617684077d0a2ce56587176819e4fbc6cc62bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:57 +0000
Subject: [PATCH 44/94] fix: wallet store removed all locks when it was opened

---
 serviceguard/client/walletstore/store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 84f484b..71adfcb 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -207,7 +207,7 @@ func (ws *Storage) initDB() (err error) {
 
 // CleanLocks cleans all locks. If force is true all locks are removed, not only expired locks
 func (ws *Storage) CleanLocks(force bool) {
-	locktime := times.Now() + MaxLockAge
+	locktime := times.Now() - MaxLockAge
 	if force {
 		locktime = int64(^uint32(0)) // MaxUInt32
 	}
-- 
2.43.0


From 46f07113bebeb2a56e2be04eff250236cd2bad90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:28 +0000
Subject: [PATCH 45/94] fix: wallet store lost tokens whose state could not be
 written

---
 serviceguard/client/walletstore/store.go | 32 ++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 71adfcb..06d6c23 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -214,15 +214,34 @@ func (ws *Storage) CleanLocks(force bool) {
 	ws.cleanLocksQuery.Exec(locktime)
 }
 
+// exists tells if the query finds the hash
+func exists(query *sql.Stmt, hash string) bool {
+	rows, err := query.Query(hash)
+	if err != nil {
+		return false
+	}
+	defer rows.Close()
+	return rows.Next()
+}
+
 // SetToken writes a token to the walletstore. repeated calls update the entry of tokenEntry.Hash is the same
 func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 	global, state := encodeToken(&tokenEntry)
-	_, err := ws.setTokenQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+	// A token without its state cannot be read, write both or none
+	tx, err := ws.DB.Begin()
+	if err != nil {
+		return err
+	}
+	defer tx.Rollback()
+	_, err = tx.Stmt(ws.setTokenQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 		global.OwnerPrivKey, global.Renewable, global.CanReissue,
 		global.Usage, global.Expire, global.OwnedSelf,
 		global.HasParams, global.HasState)
 	if err != nil {
-		_, err := ws.setTokenUpdateQuery.Exec(global.Hash, global.Token, global.OwnerPubKey,
+		if !exists(tx.Stmt(ws.getTokenQuery), global.Hash) {
+			return err
+		}
+		_, err := tx.Stmt(ws.setTokenUpdateQuery).Exec(global.Hash, global.Token, global.OwnerPubKey,
 			global.OwnerPrivKey, global.Renewable, global.CanReissue,
 			global.Usage, global.Expire, global.OwnedSelf,
 			global.HasParams, global.HasState, global.Hash)
@@ -231,15 +250,18 @@ func (ws *Storage) SetToken(tokenEntry client.TokenEntry) error {
 		}
 	}
 	if len(state) > 0 {
-		_, err = ws.setStateQuery.Exec(global.Hash, state)
+		_, err = tx.Stmt(ws.setStateQuery).Exec(global.Hash, state)
 		if err != nil {
-			_, err = ws.setStateUpdateQuery.Exec(state, global.Hash)
+			if !exists(tx.Stmt(ws.getStateQuery), global.Hash) {
+				return err
+			}
+			_, err = tx.Stmt(ws.setStateUpdateQuery).Exec(state, global.Hash)
 			if err != nil {
 				return err
 			}
 		}
 	}
-	return nil
+	return tx.Commit()
 }
 
 // GetToken returns the token identified by tokenHash. If lockID>=0, enforce lock (return ErrLocked)
-- 
2.43.0


From 103326803d3eeeedc88f6e34ba3947298d1145a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 46/94] fix: wallet store kept a token but dropped its state

---
 serviceguard/client/walletstore/store.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/walletstore/store.go b/serviceguard/client/walletstore/store.go
index 06d6c23..a5a6181 100644
--- a/serviceguard/client/walletstore/store.go
+++ b/serviceguard/client/walletstore/store.go
@@ -294,7 +294,10 @@ func (ws *Storage) GetToken(tokenHash []byte, lockID int64) (tokenEntry *client.
 // DelToken deletes the token identified by tokenHash
 func (ws *Storage) DelToken(tokenHash []byte) {
 	tokenHashS := hex.EncodeToString(tokenHash)
-	ws.deleteTokenQuery.Exec(tokenHashS)
+	if _, err := ws.deleteTokenQuery.Exec(tokenHashS); err != nil {
+		// The token cannot be read without its state
+		return
+	}
 	ws.deleteStateQuery.Exec(tokenHashS)
 }
 
-- 
2.43.0


From dfcd143faa2189f353f385d0a403ecdb425abb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:07 +0000
Subject: [PATCH 47/94] fix: one damaged file made all keys of a keydir
 unreadable

---
 serviceguard/common/keypool/keydir/filestorage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/keydir/filestorage.go b/serviceguard/common/keypool/keydir/filestorage.go
index 635d8ff..61e3829 100644
--- a/serviceguard/common/keypool/keydir/filestorage.go
+++ b/serviceguard/common/keypool/keydir/filestorage.go
@@ -45,13 +45,16 @@ func loadKeysFromDir(keyDir string) keypool.LoadKeysCallbackFunc {
 			return err
 		}
 		for _, file := range files {
+			if filepath.Ext(file.Name()) != ".pubkey" {
+				continue
+			}
 			d, err := ioutil.ReadFile(filepath.Join(keyDir, file.Name()))
 			if err != nil {
 				return err
 			}
 			loadKey, err := new(signkeys.PublicKey).Unmarshal(d)
 			if err != nil {
-				return err
+				continue // not written completely, the other keys are fine
 			}
 			keypool.LoadKey(loadKey) // ignore errors
 		}
-- 
2.43.0


From c8dbb35a66c5f1d9e043ff7783dbc41befe99e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 48/94] fix: keydb did not report keys which could not be
 stored

---
 serviceguard/common/keypool/keydb/dbstorage.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/serviceguard/common/keypool/keydb/dbstorage.go b/serviceguard/common/keypool/keydb/dbstorage.go
index 2bde807..e9fbab5 100644
--- a/serviceguard/common/keypool/keydb/dbstorage.go
+++ b/serviceguard/common/keypool/keydb/dbstorage.go
@@ -130,10 +130,12 @@ func (kd *KeyDB) writeFunc() keypool.WriteKeyCallbackFunc {
 		id := hex.EncodeToString(keyid)
 		marshalled := base64.StdEncoding.EncodeToString(marshalledKey)
 		_, err := kd.insertQuery.Exec(id, usage, marshalled)
-		if err == nil {
-			return err
+		if err != nil {
+			if _, errFetch := kd.Fetch(keyid); errFetch == nil {
+				return nil // stored already
+			}
 		}
-		return nil
+		return err
 	}
 }
 
-- 
2.43.0


From 8d23b98a312e37bcfb7e6e11dcd02e93d28bfbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 49/94] fix: key generator used its keys long after they
 expired

---
 serviceguard/common/keypool/generator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index aed4d7d..c9da456 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -166,7 +166,7 @@ func (kp *KeyPool) Current() (*signkeys.KeyPair, *signkeys.KeyPair, error) {
 	if kp.currentKey == nil {
 		// Always generate if we dont have one yet
 		generate = true
-	} else if kp.currentKey.PublicKey.Expire < times.Now()-kp.Generator.ExpireTime/2 {
+	} else if kp.currentKey.PublicKey.Expire < times.Now()+kp.Generator.ExpireTime/2 {
 		// Key has half expired, generate new one
 		generate = true
 	}
-- 
2.43.0


From 1b471442228206e8e48949fee177e82a3b501ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:30 +0000
Subject: [PATCH 50/94] fix: key pool was changed under a read lock

---
 serviceguard/common/keypool/generator.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index c9da456..8b4be85 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -104,8 +104,9 @@ func (kp *KeyPool) HasVerifyKey(key *[ed25519.PublicKeySize]byte, nolock bool) b
 
 // Lookup a public key from keypool.
 func (kp *KeyPool) Lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey, error) {
-	kp.mapMutex.RLock()
-	defer kp.mapMutex.RUnlock()
+	// Fetched keys are added to the pool
+	kp.mapMutex.Lock()
+	defer kp.mapMutex.Unlock()
 	key, err := kp.lookup(keyid)
 	if err == ErrNotFound && kp.FetchKeyCallBack != nil {
 		// Use fetchkey callback
-- 
2.43.0


From 3d092a48efbccd33ab3a04829123127965966b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:52 +0000
Subject: [PATCH 51/94] fix: reissuing a token to ourselves crashed

---
 serviceguard/client/reissue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index a177816..0da2726 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -88,7 +88,9 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 				c.LastError = err
 				return nil, ErrFatal
 			}
+			ownerPubkey = new([ed25519.PublicKeySize]byte)
 			copy(ownerPubkey[:], pk)
+			ownerPrivkey = new([ed25519.PrivateKeySize]byte)
 			copy(ownerPrivkey[:], sk)
 			tokenEntry.NewOwnerPrivKey = ownerPrivkey
 		}
-- 
2.43.0


From 0e2b30be8272540906046bf3feeac9bd790e3aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:59 +0000
Subject: [PATCH 52/94] fix: tokens in use were reissued

---
 serviceguard/client/reissue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 0da2726..18e9d41 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -26,7 +26,7 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 	defer onlineGroup.Done()
 	// Lock token against other use
 	lockID := c.LockToken(tokenHash)
-	if lockID == 0 {
+	if lockID <= 0 {
 		c.LastError = ErrLocked
 		return nil, ErrRetry
 	}
-- 
2.43.0


From 589f1b2c38f7e559dd1fadb6c0a92c0a6bfb033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:07 +0000
Subject: [PATCH 53/94] fix: keep the old token until the reissued one is
 stored

---
 serviceguard/client/reissue.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/reissue.go b/serviceguard/client/reissue.go
index 18e9d41..8a8d31d 100644
--- a/serviceguard/client/reissue.go
+++ b/serviceguard/client/reissue.go
@@ -125,7 +125,6 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		}
 		return nil, ErrRetry
 	}
-	c.walletStore.DelToken(tokenEntry.Hash) // Delete old token, it's invalid from here
 	// Parse new pubkey and add to keypool
 	signerPubKey, err := new(signkeys.PublicKey).Unmarshal(newPubkey)
 	if err != nil {
@@ -177,5 +176,8 @@ func (c *Client) ReissueToken(tokenHash []byte, ownerPubkey *[ed25519.PublicKeyS
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	// Delete old token, it's invalid. Until the new one is stored it is needed
+	// to get the reply again.
+	c.walletStore.DelToken(tokenEntry.Hash)
 	return tokenentryNew.Hash, nil
 }
-- 
2.43.0


From aef52933cd40312f9c6e03065d7ddae072b6e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:15 +0000
Subject: [PATCH 54/94] fix: wallet did not load its stored keys after a
 restart

---
 serviceguard/client/clientlib.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index 729d95e..e0ccd04 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -69,11 +69,12 @@ func New(keyBackends []types.Backend, walletstore WalletStore, walletKey *[ed255
 	if err != nil {
 		return nil, err
 	}
+	c.walletStore = walletstore
+	c.GetVerifyKeys() // keys can only be loaded if their signers are known
 	err = c.packetClient.Keypool.Load()
 	if err != nil {
 		return nil, err
 	}
-	c.walletStore = walletstore
 	c.cacert = cacert
 	c.walletKey = walletKey
 	c.stopChan = make(chan bool)
-- 
2.43.0


From 791d2fc7715de070e098eafc498dacbd3607f067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:23 +0000
Subject: [PATCH 55/94] fix: wallet returned neither token nor error if its
 store failed

---
 serviceguard/client/clientlib.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/clientlib.go b/serviceguard/client/clientlib.go
index e0ccd04..482b999 100644
--- a/serviceguard/client/clientlib.go
+++ b/serviceguard/client/clientlib.go
@@ -198,6 +198,9 @@ func (c *Client) GetToken(usage string, owner *[ed25519.PublicKeySize]byte) (*To
 			c.LastError = err
 			return nil, ErrFatal
 		}
+	} else if err != nil {
+		c.LastError = err
+		return nil, ErrFatal
 	}
 	return retToken, nil
 }
-- 
2.43.0


From 5a8267c9cd7cc1b6e5b0b741e4a3a4af1fd8584f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:31 +0000
Subject: [PATCH 56/94] fix: wallet crashed on replies without key

---
 serviceguard/client/walletrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 6c88877..b1a4516 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -170,6 +170,9 @@ func (wc WalletClient) getToken(usage string, authtoken []byte) (token, params,
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
 	}
+	if _, ok := data["PubKeyUsed"].(string); !ok {
+		return nil, nil, nil, 0, ErrParams
+	}
 	pubKeyUsed, err = base64.StdEncoding.DecodeString(data["PubKeyUsed"].(string))
 	if err != nil {
 		return nil, nil, nil, 0, ErrParams
-- 
2.43.0


From 3b9c3c7967d769e0dfea40ee6c0fd4249d0395b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 57/94] fix: wallet repeated auth tokens which the server
 refuses

---
 serviceguard/client/walletrpc/client.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index b1a4516..7f6e200 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -59,6 +59,7 @@ CallLoop:
 		SubscriptionTokens, PrepayTokens, LastSubscribeLoad, lastcounter, err = wc.getBalance(authtoken)
 		if err == walletauth.ErrReplay {
 			wc.LastAuthCounter = lastcounter
+			wc.LastAuthToken = nil // it cannot be used anymore
 			if i > 0 {
 				i--
 				continue CallLoop
@@ -125,6 +126,7 @@ CallLoop:
 		token, params, pubKeyUsed, lastcounter, err = wc.getToken(usage, authtoken)
 		if err == walletauth.ErrReplay {
 			wc.LastAuthCounter = lastcounter
+			wc.LastAuthToken = nil // it cannot be used anymore
 			if i > 0 {
 				i--
 				continue CallLoop
-- 
2.43.0


From aec6eb70711cf1d736c0a58fbb250b8a7dddee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:25 +0000
Subject: [PATCH 58/94] fix: wallet returned tokens of another usage

---
 serviceguard/client/walletserver.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 39f45e4..cdb7d14 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -74,6 +74,11 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	// The reply can be the one of an earlier call, the token is ours anyway
+	if tokenentry.Usage != usage {
+		c.LastError = ErrUsageToken
+		return nil, ErrRetry
+	}
 	if owner == nil && renewable == false {
 		return tokenentry.Hash, ErrNeedReissue
 	}
-- 
2.43.0


From 19c387a1d91d6165ae48b271a6ba02f4f2705fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:06 +0000
Subject: [PATCH 59/94] fix: starting the wallet runner twice blocked the
 wallet

---
 serviceguard/client/runner.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serviceguard/client/runner.go b/serviceguard/client/runner.go
index 911eb5f..f1cdea8 100644
--- a/serviceguard/client/runner.go
+++ b/serviceguard/client/runner.go
@@ -28,6 +28,7 @@ func (c *Client) runner() {
 	// Prevent double-start
 	runnerLock.Lock()
 	if c.runnerRunning {
+		runnerLock.Unlock()
 		return
 	}
 	c.runnerRunning = true
-- 
2.43.0


From c898ee32dab07f427a28b226d89bfcc2f08ecbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:15 +0000
Subject: [PATCH 60/94] fix: wallet runner could not be stopped

---
 serviceguard/client/runner.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/serviceguard/client/runner.go b/serviceguard/client/runner.go
index f1cdea8..686f86e 100644
--- a/serviceguard/client/runner.go
+++ b/serviceguard/client/runner.go
@@ -5,7 +5,6 @@
 package client
 
 import (
-	"runtime"
 	"time"
 )
 
@@ -21,7 +20,25 @@ func (c *Client) Runner() {
 
 // StopRunner stops the runner. Should be called non-blocking (go StopRunner()).
 func (c *Client) StopRunner() {
-	c.stopChan <- true
+	runnerLock.Lock()
+	running := c.runnerRunning
+	runnerLock.Unlock()
+	if running {
+		c.stopChan <- true
+	}
+}
+
+// stopped waits at most the given time for a call to StopRunner.
+func (c *Client) stopped(wait time.Duration) bool {
+	select {
+	case <-c.stopChan:
+		runnerLock.Lock()
+		c.runnerRunning = false
+		runnerLock.Unlock()
+		return true
+	case <-time.After(wait):
+		return false
+	}
 }
 
 func (c *Client) runner() {
@@ -35,10 +52,6 @@ func (c *Client) runner() {
 	runnerLock.Unlock()
 	for {
 		var actionCount int
-		if len(c.stopChan) > 0 {
-			<-c.stopChan
-			runtime.Goexit()
-		}
 		onlineGroup.Add(1)
 		// Delete some expired tokens
 		if c.walletStore.ExpireUnusable() {
@@ -64,8 +77,12 @@ func (c *Client) runner() {
 			actionCount++
 		}
 		onlineGroup.Done()
+		var wait time.Duration
 		if actionCount == 0 {
-			time.Sleep(time.Second * 3)
+			wait = time.Second * 3
+		}
+		if c.stopped(wait) {
+			return
 		}
 	}
 }
-- 
2.43.0


From e4d08e17e4b59d1b67e644dd5ca43a02d168eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:23 +0000
Subject: [PATCH 61/94] fix: wallet runner called failing servers without a
 pause

---
 serviceguard/client/runner.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/serviceguard/client/runner.go b/serviceguard/client/runner.go
index 686f86e..ec30ec7 100644
--- a/serviceguard/client/runner.go
+++ b/serviceguard/client/runner.go
@@ -60,16 +60,20 @@ func (c *Client) runner() {
 		// Finish expired reissues
 		reissueTokenHash := c.walletStore.GetInReissue()
 		if reissueTokenHash != nil {
-			c.ReissueToken(reissueTokenHash, nil) // Continue reissue on token
-			actionCount++
+			_, err := c.ReissueToken(reissueTokenHash, nil) // Continue reissue on token
+			if err == nil {
+				actionCount++
+			}
 		}
 		// Update an expiring token
 		reissueTokenHash = c.walletStore.GetExpire()
 		if reissueTokenHash != nil {
 			tokenData, err := c.walletStore.GetToken(reissueTokenHash, -1)
 			if err == nil {
-				c.ReissueToken(tokenData.Hash, nil) // Reissue token to new target
-				actionCount++
+				_, err = c.ReissueToken(tokenData.Hash, nil) // Reissue token to new target
+				if err == nil {
+					actionCount++
+				}
 			}
 		}
 		// Meet targets
@@ -119,7 +123,7 @@ LoadLoop:
 			c.target[owner] = target
 		}
 		// Never care about more than one owner
-		return true
+		return err == nil
 	}
 	return false
 }
-- 
2.43.0


From 20d15d4bdfb658a8cd0b5a00658c8e862633017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:33 +0000
Subject: [PATCH 62/94] fix: wallet stored tokens under the usage of another
 key

---
 serviceguard/client/walletserver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index cdb7d14..103ab64 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -34,6 +34,10 @@ func (c *Client) WalletToken(usage string, owner *[ed25519.PublicKeySize]byte) (
 		c.LastError = err
 		return nil, ErrFatal
 	}
+	if tokenKeyID, _ := tokenUnmarshalled.Properties(); *tokenKeyID != signerPubKey.KeyID {
+		c.LastError = ErrUsageToken
+		return nil, ErrFatal
+	}
 	keyid, err := c.packetClient.Keypool.LoadKey(signerPubKey)
 	if err != nil && err != keypool.ErrExists {
 		c.LastError = err
-- 
2.43.0


From 801e4ab7b00f3e6456e8a66354afc89f323141dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:41 +0000
Subject: [PATCH 63/94] fix: received tokens which could not be stored were
 lost silently

---
 serviceguard/client/receive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serviceguard/client/receive.go b/serviceguard/client/receive.go
index 24c4353..3261841 100644
--- a/serviceguard/client/receive.go
+++ b/serviceguard/client/receive.go
@@ -22,7 +22,11 @@ func (c *Client) ReceiveToken(usage string, inputToken []byte) error {
 	}
 	retToken, err := c.walletStore.GetToken(tokenEntry.Hash, -1)
 	if err != nil || retToken == nil {
-		c.walletStore.SetToken(*tokenEntry)
+		err = c.walletStore.SetToken(*tokenEntry)
+		if err != nil {
+			c.LastError = err
+			return ErrFatal
+		}
 		return nil
 	}
 	c.LastError = ErrTokenKnown
-- 
2.43.0


From d1ff6ad3628fc030e1836f6e90898b0cc1de42b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:57 +0000
Subject: [PATCH 64/94] fix: configurations without public key could be forged

---
 configclient/sortedmap/map.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/configclient/sortedmap/map.go b/configclient/sortedmap/map.go
index 0456287..431ac0a 100644
--- a/configclient/sortedmap/map.go
+++ b/configclient/sortedmap/map.go
@@ -110,10 +110,11 @@ func (so SortedMap) Sign(signdate uint64, privKey *[ed25519.PrivateKeySize]byte)
 
 // Verify a signature for a SortedMap with the publickey.
 func (so SortedMap) Verify(signdate uint64, publicKey []byte, signature []byte) bool {
-	var pubkey [ed25519.PublicKeySize]byte
+	if len(publicKey) != ed25519.PublicKeySize {
+		return false // a shorter key would be filled up with zeros
+	}
 	sdate := make([]byte, 8)
 	binary.BigEndian.PutUint64(sdate, signdate)
 
-	copy(pubkey[:], publicKey)
-	return ed25519.Verify(pubkey[:], append(so.Image(), sdate...), signature)
+	return ed25519.Verify(publicKey, append(so.Image(), sdate...), signature)
 }
-- 
2.43.0


From e0a4096e16dcc65ad1fb4249cc361d52b1690e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 65/94] fix: configuration update crashed if a server sent no
 CA certificate

---
 configclient/cahash/hash.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index f3c436c..99ebdd0 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -9,11 +9,18 @@ import (
 	"crypto/sha512"
 	"crypto/x509"
 	"encoding/pem"
+	"errors"
 )
 
+// ErrNoPEM is returned if cert is not PEM-encoded.
+var ErrNoPEM = errors.New("cahash: certificate not PEM-encoded")
+
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
 	block, _ := pem.Decode(cert)
+	if block == nil {
+		return nil, ErrNoPEM
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 1c21d6c999cc3e8c968b75e6e541c0fc3979dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 66/94] fix: config servers could add CA certificates of their
 own

---
 configclient/cahash/hash.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/configclient/cahash/hash.go b/configclient/cahash/hash.go
index 99ebdd0..2450c6e 100644
--- a/configclient/cahash/hash.go
+++ b/configclient/cahash/hash.go
@@ -15,12 +15,19 @@ import (
 // ErrNoPEM is returned if cert is not PEM-encoded.
 var ErrNoPEM = errors.New("cahash: certificate not PEM-encoded")
 
+// ErrMultiple is returned if cert contains more than one certificate.
+var ErrMultiple = errors.New("cahash: more than one certificate")
+
 // Hash returns the hash of cert, or error if cert is not a valid pem-encoded x509 cert
 func Hash(cert []byte) ([]byte, error) {
-	block, _ := pem.Decode(cert)
+	block, rest := pem.Decode(cert)
 	if block == nil {
 		return nil, ErrNoPEM
 	}
+	// the hash covers only one certificate, but all in cert would be trusted
+	if more, _ := pem.Decode(rest); more != nil {
+		return nil, ErrMultiple
+	}
 	_, err := x509.ParseCertificates(block.Bytes)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 84c7ffc0eae011060ed472003cdf26bc84feaff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 67/94] fix: configuration update skipped servers or crashed
 after a failed update

---
 configclient/client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/configclient/client.go b/configclient/client.go
index 8ec5d35..ee28aa1 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -59,6 +59,7 @@ func (c *Config) Update() error {
 	ts := roundrobin.ParseServers(c.URLList)
 	sort.Sort(ts)
 	c.servers = ts.Order()
+	c.curServer = 0
 	if len(c.servers) < 1 {
 		return ErrNoServers
 	}
-- 
2.43.0


From cf0acb005dd104ea677aa68d9e1cccc3597143cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:33 +0000
Subject: [PATCH 68/94] fix: failed configuration update removed the CA
 certificate

---
 configclient/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/configclient/client.go b/configclient/client.go
index ee28aa1..83c4c56 100644
--- a/configclient/client.go
+++ b/configclient/client.go
@@ -50,6 +50,7 @@ func (c *Config) Update() error {
 	var err error
 	var cert *sortedmap.SignedMap
 	var myCAhash, certHashb []byte
+	caCert := c.CACert
 	var hisHash string
 	var ok bool
 
@@ -96,7 +97,7 @@ GetConfigLoop:
 	if !bytes.Equal(myCAhash, certHashb) {
 	CALoop:
 		for ; c.curServer < len(c.servers); c.curServer++ {
-			c.CACert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
+			caCert, err = getCACert(c.servers[c.curServer], hisHash, c.Timeout)
 			if err == nil {
 				break CALoop
 			}
@@ -105,6 +106,7 @@ GetConfigLoop:
 	if err != nil {
 		return err
 	}
+	c.CACert = caCert
 	c.Map = cert.Config
 	c.LastSignDate = cert.SignDate
 	return nil
-- 
2.43.0


From 12ac7b37da6a4c10fc6cda6e3d1b606bed2bdb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:07 +0000
Subject: [PATCH 69/94] fix: messages lost after a failed fetch

---
 ctrlengine/msg.go | 43 ++++++++++++++++++++++---------------------
 msgdb/cache.go    | 38 ++++++++++++++++++++++++++++++++++++++
 msgdb/inqueue.go  | 39 ++++++++++++++++++++++++++++++++++++++-
 msgdb/msgdb.go    |  6 ++++++
 4 files changed, 104 insertions(+), 22 deletions(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 79fe5b0..d57c239 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -538,6 +538,7 @@ func muteprotoFetch(
 		}
 	}()
 	firstMessage := true
+	var listed []string
 	cache, err := msgDB.GetMessageIDCache(myID, contactID)
 	if err != nil {
 		return 0, err
@@ -563,24 +564,12 @@ func muteprotoFetch(
 		}
 		messageID := parts[1]
 		log.Debugf("read: MESSAGEID:\t%s", messageID)
-		if cache[messageID] {
-			// message known -> abort fetching messages and remove old IDs from cache
-			log.Debug("write: QUIT")
-			fmt.Fprintln(cmdW, "QUIT")
-			err := msgDB.RemoveMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
-			break
-		} else {
-			// message unknown -> fetch it and add messageID to cache
-			log.Debug("write: NEXT")
-			fmt.Fprintln(cmdW, "NEXT")
-			err := msgDB.AddMessageIDCache(myID, contactID, messageID)
-			if err != nil {
-				return 0, log.Error(err)
-			}
-		}
+		listed = append(listed, messageID)
+		// Known messages do not end the list: the newest message comes first
+		// and, if an earlier fetch failed, there are unknown messages behind
+		// the ones it already got.
+		log.Debug("write: NEXT")
+		fmt.Fprintln(cmdW, "NEXT")
 		// read message
 		stop := make(chan uint64)
 		done := make(chan bool)
@@ -630,9 +619,14 @@ func muteprotoFetch(
 
 		stop <- length
 		<-done
-		err = msgDB.AddInQueue(myID, contactID, receiveTime, outbuf.String())
-		if err != nil {
-			return 0, err
+		if !cache[messageID] {
+			// message unknown -> add it to inqueue and messageID to cache
+			err = msgDB.AddInQueueCached(myID, contactID, receiveTime,
+				outbuf.String(), messageID)
+			if err != nil {
+				return 0, err
+			}
+			cache[messageID] = true
 		}
 		if firstMessage {
 			newMessageTime = receiveTime
@@ -643,6 +637,13 @@ func muteprotoFetch(
 	if err := cmd.Wait(); err != nil {
 		return 0, err
 	}
+	// got the entire list -> remove IDs which will not be listed again
+	if len(listed) > 0 {
+		err := msgDB.CleanMessageIDCache(myID, contactID, listed)
+		if err != nil {
+			return 0, err
+		}
+	}
 	return
 }
 
diff --git a/msgdb/cache.go b/msgdb/cache.go
index 33603c0..803b612 100644
--- a/msgdb/cache.go
+++ b/msgdb/cache.go
@@ -134,3 +134,41 @@ func (msgDB *MsgDB) RemoveMessageIDCache(
 	}
 	return nil
 }
+
+// CleanMessageIDCache removes all entries from the message ID cache for the
+// myID and contactID pair which are not in messageIDs.
+func (msgDB *MsgDB) CleanMessageIDCache(
+	myID, contactID string,
+	messageIDs []string,
+) error {
+	cache, err := msgDB.GetMessageIDCache(myID, contactID)
+	if err != nil {
+		return err
+	}
+	for _, messageID := range messageIDs {
+		delete(cache, messageID)
+	}
+	if len(cache) == 0 {
+		return nil
+	}
+	// get MyID
+	var mID int
+	if err := msgDB.getNymUIDQuery.QueryRow(myID).Scan(&mID); err != nil {
+		return log.Error(err)
+	}
+	// get ContactID
+	var cID int
+	if contactID != "" {
+		err := msgDB.getContactUIDQuery.QueryRow(mID, contactID).Scan(&cID)
+		if err != nil {
+			return log.Error(err)
+		}
+	}
+	for messageID := range cache {
+		_, err := msgDB.deleteMessageIDCacheQuery.Exec(mID, cID, messageID)
+		if err != nil {
+			return log.Error(err)
+		}
+	}
+	return nil
+}
diff --git a/msgdb/inqueue.go b/msgdb/inqueue.go
index 9c95dae..9cbfb6c 100644
--- a/msgdb/inqueue.go
+++ b/msgdb/inqueue.go
@@ -15,6 +15,27 @@ import (
 // AddInQueue adds the given message corressponding to myID and contactID (can
 // be nil) to the inqueue.
 func (msgDB *MsgDB) AddInQueue(myID, contactID string, date int64, msg string) error {
+	return msgDB.addInQueue(myID, contactID, date, msg, "")
+}
+
+// AddInQueueCached adds the given message like AddInQueue and, in the same
+// transaction, its messageID to the message ID cache.
+func (msgDB *MsgDB) AddInQueueCached(
+	myID, contactID string,
+	date int64,
+	msg, messageID string,
+) error {
+	if messageID == "" {
+		return log.Error(ErrNilMessageID)
+	}
+	return msgDB.addInQueue(myID, contactID, date, msg, messageID)
+}
+
+func (msgDB *MsgDB) addInQueue(
+	myID, contactID string,
+	date int64,
+	msg, messageID string,
+) error {
 	if err := identity.IsMapped(myID); err != nil {
 		return log.Error(err)
 	}
@@ -33,7 +54,23 @@ func (msgDB *MsgDB) AddInQueue(myID, contactID string, date int64, msg string) e
 			return log.Error(err)
 		}
 	}
-	if _, err := msgDB.addInQueueQuery.Exec(mID, cID, date, msg); err != nil {
+	tx, err := msgDB.encDB.Begin()
+	if err != nil {
+		return log.Error(err)
+	}
+	if _, err := tx.Stmt(msgDB.addInQueueQuery).Exec(mID, cID, date, msg); err != nil {
+		tx.Rollback()
+		return log.Error(err)
+	}
+	if messageID != "" {
+		_, err := tx.Stmt(msgDB.addMessageIDCacheQuery).Exec(mID, cID, messageID)
+		if err != nil {
+			tx.Rollback()
+			return log.Error(err)
+		}
+	}
+	if err := tx.Commit(); err != nil {
+		tx.Rollback()
 		return log.Error(err)
 	}
 	return nil
diff --git a/msgdb/msgdb.go b/msgdb/msgdb.go
index 9ad846f..e0fdf7b 100644
--- a/msgdb/msgdb.go
+++ b/msgdb/msgdb.go
@@ -203,6 +203,7 @@ CREATE TABLE MessageIDCache(
 	getMessageIDCacheQuery      = "SELECT MessageID FROM MessageIDCache WHERE MyID=? AND ContactID=?;"
 	getMessageIDCacheEntryQuery = "SELECT Entry FROM MessageIDCache WHERE MyID=? AND ContactID=? AND MessageID=?;"
 	removeMessageIDCacheQuery   = "DELETE FROM MessageIDCache WHERE MyID=? AND ContactID=? AND Entry<?;"
+	deleteMessageIDCacheQuery   = "DELETE FROM MessageIDCache WHERE MyID=? AND ContactID=? AND MessageID=?;"
 )
 
 // MsgDB is a handle for an encrypted database to store messsages and tokens.
@@ -259,6 +260,7 @@ type MsgDB struct {
 	getMessageIDCacheQuery      *sql.Stmt
 	getMessageIDCacheEntryQuery *sql.Stmt
 	removeMessageIDCacheQuery   *sql.Stmt
+	deleteMessageIDCacheQuery   *sql.Stmt
 }
 
 // Create returns a new message database with the given dbname.
@@ -510,6 +512,10 @@ func Open(dbname string, passphrase []byte) (*MsgDB, error) {
 		msgDB.encDB.Close()
 		return nil, err
 	}
+	if msgDB.deleteMessageIDCacheQuery, err = msgDB.encDB.Prepare(deleteMessageIDCacheQuery); err != nil {
+		msgDB.encDB.Close()
+		return nil, err
+	}
 	return &msgDB, nil
 }
 
-- 
2.43.0


From 142e5fd952066efbe551e3860b0a605d3edc31ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:52 +0000
Subject: [PATCH 70/94] fix: messages with an expired token were never sent
 again

---
 ctrlengine/msg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index d57c239..6e1efda 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -333,7 +333,7 @@ func (ce *CtrlEngine) procOutQueue(
 			// Matching the error message string is not optimal, but the best
 			// available solution since the error results from calling another
 			// binary (muteproto).
-			if strings.HasSuffix(err.Error(), client.ErrFinal.Error()) {
+			if strings.Contains(err.Error(), client.ErrFinal.Error()) {
 				log.Debug("retract")
 				if err := ce.msgDB.RetractOutQueue(oqIdx); err != nil {
 					return err
-- 
2.43.0


From b1ae9d503572aa90c1e7d7dfa970a47325e53617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:59 +0000
Subject: [PATCH 71/94] fix: undecryptable messages blocked all incoming
 messages

---
 cryptengine/decrypt.go  | 19 ++++++++++++++++---
 cryptengine/keystore.go |  3 +++
 ctrlengine/msg.go       | 19 +++++++++++++++++--
 msg/errors.go           |  4 ++++
 4 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/cryptengine/decrypt.go b/cryptengine/decrypt.go
index 4ebb475..7c53127 100644
--- a/cryptengine/decrypt.go
+++ b/cryptengine/decrypt.go
@@ -9,6 +9,7 @@ import (
 	"io"
 	"os"
 
+	sqlite3 "github.com/mutecomm/go-sqlcipher/v4"
 	"github.com/mutecomm/mute/cipher"
 	"github.com/mutecomm/mute/encode/base64"
 	"github.com/mutecomm/mute/log"
@@ -36,6 +37,18 @@ func (ce *CryptEngine) getRecipientIdentities() ([]*uid.Message, error) {
 	return uidMsgs, nil
 }
 
+// undecryptable marks a decryption error with msg.ErrUndecryptable, if the
+// message is to blame for it and not the key database.
+func undecryptable(err error) error {
+	if err == msg.ErrNoPreHeaderKey {
+		return err // has a meaning of its own
+	}
+	if _, ok := err.(sqlite3.Error); ok {
+		return err
+	}
+	return log.Errorf("%s: %s", err, msg.ErrUndecryptable)
+}
+
 func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) error {
 	// retrieve all possible recipient identities from keyDB
 	identities, err := ce.getRecipientIdentities()
@@ -47,7 +60,7 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 	r = base64.NewDecoder(r)
 	version, preHeader, err := msg.ReadFirstOuterHeader(r)
 	if err != nil {
-		return err
+		return undecryptable(err)
 	}
 
 	// check version
@@ -55,7 +68,7 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 		return log.Errorf("cryptengine: newer message version, please update software")
 	}
 	if version < msg.Version {
-		return log.Errorf("cryptengine: outdated message version, cannot process")
+		return undecryptable(log.Errorf("cryptengine: outdated message version, cannot process"))
 	}
 
 	// decrypt message
@@ -73,7 +86,7 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 	if err != nil {
 		// TODO: handle msg.ErrStatusError, should trigger a subsequent
 		// encrypted message with StatusError
-		return err
+		return undecryptable(err)
 	}
 	fmt.Fprintf(statusfp, "SENDERIDENTITY:\t%s\n", senderID)
 	if sig != "" {
diff --git a/cryptengine/keystore.go b/cryptengine/keystore.go
index ad98218..82f3393 100644
--- a/cryptengine/keystore.go
+++ b/cryptengine/keystore.go
@@ -112,6 +112,9 @@ func (ce *CryptEngine) GetMessageKey(
 	msgIndex uint64,
 ) (*[64]byte, error) {
 	key, err := ce.keyDB.GetMessageKey(sessionKey, sender, msgIndex)
+	if err == sql.ErrNoRows {
+		return nil, log.Error(session.ErrMessageKeyUsed)
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 6e1efda..a96a22b 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -690,6 +690,11 @@ func mutecryptDecrypt(
 				"could not decrypt pre-header, message dropped\n")
 			return "", "", nil
 		}
+		if strings.HasSuffix(errstr, msg.ErrUndecryptable.Error()) {
+			log.Warnf("%s, message dropped", errstr)
+			fmt.Fprintf(statusFP, "could not decrypt message, message dropped\n")
+			return "", "", nil
+		}
 		return "", "", log.Errorf("%s: %s", err, errstr)
 	}
 	// TODO: parse and process signature!
@@ -730,7 +735,12 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			// decrypt envelope
 			message, err := base64.Decode(msg)
 			if err != nil {
-				return log.Error(err)
+				// discard message, it must not block the inqueue
+				log.Warnf("ctrlengine: %s -> discard message", err)
+				if err := ce.msgDB.DelInQueue(iqIdx); err != nil {
+					return err
+				}
+				continue
 			}
 			privkey, server, secret, _, _, _, err := ce.msgDB.GetAccount(myID, contactID)
 			if err != nil {
@@ -744,7 +754,12 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			dec, nym, err := mixcrypt.ReceiveFromMix(receiveTemplate,
 				util.MailboxAddress(&pubkey, server), message)
 			if err != nil {
-				return log.Error(err)
+				// discard message, it must not block the inqueue
+				log.Warnf("ctrlengine: %s -> discard message", err)
+				if err := ce.msgDB.DelInQueue(iqIdx); err != nil {
+					return err
+				}
+				continue
 			}
 			if !bytes.Equal(nym, cipher.SHA256([]byte(myID))) {
 				// discard message
diff --git a/msg/errors.go b/msg/errors.go
index 1a487f8..c1b047b 100644
--- a/msg/errors.go
+++ b/msg/errors.go
@@ -15,6 +15,10 @@ var ErrNotPreHeader = errors.New("msg: message doesn't start with pre-header")
 // not be found.
 var ErrNoPreHeaderKey = errors.New("msg: could not find key to decrypt pre-header")
 
+// ErrUndecryptable is raised for a message which cannot be decrypted, no matter
+// how often it is tried.
+var ErrUndecryptable = errors.New("msg: message cannot be decrypted")
+
 // ErrNotEncryptedHeader is raised when a message doesn't has an encrypted
 // header after the pre-header.
 var ErrNotEncryptedHeader = errors.New("msg: message doesn't have encrypted header")
-- 
2.43.0


From 8e365852cce462221e5ac7bfaea1820c1dea7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 72/94] fix: oversized message blocked all outgoing messages

---
 ctrlengine/msg.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index a96a22b..7b63bae 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -103,6 +103,15 @@ func mutecryptEncrypt(
 	return
 }
 
+// checkLength makes sure the message can be encrypted later.
+func checkLength(message []byte) error {
+	if len(message) > msg.MaxContentLength {
+		return log.Errorf("ctrlengine: message too long (%d > %d)",
+			len(message), msg.MaxContentLength)
+	}
+	return nil
+}
+
 func (ce *CtrlEngine) msgAdd(
 	c *cli.Context,
 	from, to, file string,
@@ -177,6 +186,11 @@ func (ce *CtrlEngine) msgAdd(
 		return log.Errorf("contact %s not found (for user ID %s)", to, from)
 	}
 
+	// a message which is too long would block all messages behind it
+	if err := checkLength(msg); err != nil {
+		return err
+	}
+
 	// store message in message DB
 	now := times.Now()
 	err = ce.msgDB.AddMessage(fromMapped, toMapped, now, true, string(msg),
-- 
2.43.0


From 35f618b9202cdb8e38424a412a2f7fa45d1e9025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:33 +0000
Subject: [PATCH 73/94] fix: token stayed locked after a failed send

---
 ctrlengine/msg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 7b63bae..622ea20 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -323,6 +323,7 @@ func (ce *CtrlEngine) procOutQueue(
 			env, err := muteprotoCreate(c, msg, minDelay, maxDelay,
 				base64.Encode(token.Token), nymaddress)
 			if err != nil {
+				ce.client.UnlockToken(token.Hash)
 				return log.Error(err)
 			}
 			// update outqueue
-- 
2.43.0


From b2bc05e1b069967c7edd35cfd21aa393728cfc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:59 +0000
Subject: [PATCH 74/94] fix: paid token lost if the client is killed while
 withdrawing it

---
 serviceguard/client/walletrpc/client.go | 6 ++++++
 serviceguard/client/walletserver.go     | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/serviceguard/client/walletrpc/client.go b/serviceguard/client/walletrpc/client.go
index 7f6e200..50cf7db 100644
--- a/serviceguard/client/walletrpc/client.go
+++ b/serviceguard/client/walletrpc/client.go
@@ -34,6 +34,7 @@ type WalletClient struct {
 	PrivKey         *[ed25519.PrivateKeySize]byte // Private key of PrivKey
 	LastAuthCounter uint64                        // Last authentication counter
 	LastAuthToken   []byte                        // Last authtoken used, required for call caching
+	SaveAuthToken   func(authToken []byte) error  // If set, called with a new authtoken before a token is requested with it
 }
 
 // New returns a new walletservice  client
@@ -122,6 +123,11 @@ CallLoop:
 		authtoken := wc.LastAuthToken
 		if authtoken == nil {
 			authtoken = walletauth.CreateToken(wc.PubKey, wc.PrivKey, lastcounter+1)
+			if wc.SaveAuthToken != nil {
+				if err := wc.SaveAuthToken(authtoken); err != nil {
+					return nil, nil, nil, err
+				}
+			}
 		}
 		token, params, pubKeyUsed, lastcounter, err = wc.getToken(usage, authtoken)
 		if err == walletauth.ErrReplay {
diff --git a/serviceguard/client/walletserver.go b/serviceguard/client/walletserver.go
index 103ab64..1bf2aae 100644
--- a/serviceguard/client/walletserver.go
+++ b/serviceguard/client/walletserver.go
@@ -109,6 +109,11 @@ func (c *Client) getTokenFromWallet(usage string) (token, params, pubkeyUsed []b
 		c.walletRPC.LastAuthToken = nil
 		tries = 0
 	}
+	// store a new authtoken before it is used, otherwise the token is lost if
+	// we are interrupted before the reply arrives
+	c.walletRPC.SaveAuthToken = func(authToken []byte) error {
+		return c.walletStore.SetAuthToken(authToken, tries)
+	}
 	newToken, params, pubkeyUsed, err := c.walletRPC.GetToken(usage)
 	if err != nil {
 		c.LastError = err
-- 
2.43.0


From b486a76de1b6629c561c3ed7f77d7ca6fc788733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:23 +0000
Subject: [PATCH 75/94] fix: messages of unknown senders lost while the key
 server is down

---
 ctrlengine/contact.go | 19 ++++++-------------
 ctrlengine/msg.go     | 15 ++++++++++++++-
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index a338049..172b6ff 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -252,29 +252,22 @@ func (ce *CtrlEngine) contactAdd(
 		return err
 	}
 	// check if contact is already known and white listed
-	unmappedID, fullName, contactType, err := ce.msgDB.GetContact(idMapped,
-		contactMapped)
+	unmappedID, _, prevType, err := ce.msgDB.GetContact(idMapped, contactMapped)
 	if err != nil {
 		return err
 	}
-	if unmappedID != "" {
-		log.Infof("contact already known -> make sure it is white listed")
-		if contactType != msgdb.WhiteList {
-			err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
-				msgdb.WhiteList)
-			if err != nil {
-				return err
-			}
-		}
+	if unmappedID != "" && prevType == msgdb.WhiteList {
+		log.Infof("contact already known and white listed")
 		return nil
 	}
-	// add new contact
+	// add new contact (the keys of a known contact which has not been white
+	// listed could be missing)
 	err = mutecryptAddContact(c, ce.passphrase, contactMapped, domain, host, ce.client)
 	if err != nil {
 		return err
 	}
 	log.Info("add contact")
-	return add(ce.msgDB, idMapped, contactMapped, fullName, contactType)
+	return add(ce.msgDB, idMapped, contact, fullName, contactType)
 }
 
 func (ce *CtrlEngine) contactEdit(id, contact, fullName string) error {
diff --git a/ctrlengine/msg.go b/ctrlengine/msg.go
index 622ea20..e5eebe3 100644
--- a/ctrlengine/msg.go
+++ b/ctrlengine/msg.go
@@ -813,7 +813,7 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			// compare it with hash chain entry (doesn't compromise anonymity)
 			var drop bool
 			if contact == "" {
-				err := ce.contactAdd(myID, senderID, "", host, msgdb.GrayList, c)
+				err := add(ce.msgDB, myID, senderID, "", msgdb.GrayList)
 				if err != nil {
 					return log.Error(err)
 				}
@@ -826,6 +826,19 @@ func (ce *CtrlEngine) procInQueue(c *cli.Context, host string) error {
 			if err != nil {
 				return err
 			}
+			if contact == "" {
+				// The message cannot be decrypted a second time, therefore it is
+				// stored before the key server is asked for the new contact.
+				_, domain, err := identity.Split(senderID)
+				if err != nil {
+					return log.Error(err)
+				}
+				err = mutecryptAddContact(c, ce.passphrase, senderID, domain,
+					host, ce.client)
+				if err != nil {
+					log.Warnf("ctrlengine: cannot get keys of %s: %s", senderID, err)
+				}
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 15fda89ab41db0feca035b881c82919a770ddc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:31 +0000
Subject: [PATCH 76/94] fix: sender with a malformed name blocked all incoming
 messages

---
 cryptengine/decrypt.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cryptengine/decrypt.go b/cryptengine/decrypt.go
index 7c53127..bffa5a0 100644
--- a/cryptengine/decrypt.go
+++ b/cryptengine/decrypt.go
@@ -8,6 +8,8 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"strings"
+	"unicode"
 
 	sqlite3 "github.com/mutecomm/go-sqlcipher/v4"
 	"github.com/mutecomm/mute/cipher"
@@ -15,6 +17,7 @@ import (
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/msg"
 	"github.com/mutecomm/mute/uid"
+	"github.com/mutecomm/mute/uid/identity"
 )
 
 // TODO: better selection of identities. Take NOTBEFORE and NOTAFTER into account.
@@ -88,6 +91,14 @@ func (ce *CryptEngine) decrypt(w io.Writer, r io.Reader, statusfp *os.File) erro
 		// encrypted message with StatusError
 		return undecryptable(err)
 	}
+	// The sender chooses his name. It cannot be a contact if it is not mapped
+	// and it must fit in a line of the status output.
+	if err := identity.IsMapped(senderID); err != nil {
+		return undecryptable(err)
+	}
+	if strings.IndexFunc(senderID, unicode.IsSpace) >= 0 {
+		return undecryptable(log.Errorf("cryptengine: sender identity contains white space"))
+	}
 	fmt.Fprintf(statusfp, "SENDERIDENTITY:\t%s\n", senderID)
 	if sig != "" {
 		fmt.Fprintf(statusfp, "SIGNATURE:\t%s\n", sig)
-- 
2.43.0


From 3587c364496130882cf8abc6729a03105a6e664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 77/94] fix: unblocked contacts had no keys and lost their name

---
 ctrlengine/contact.go    | 23 ++++++++++++++---------
 ctrlengine/ctrlengine.go |  2 +-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/ctrlengine/contact.go b/ctrlengine/contact.go
index 172b6ff..c59c0be 100644
--- a/ctrlengine/contact.go
+++ b/ctrlengine/contact.go
@@ -226,7 +226,7 @@ func get(outfp io.Writer, msgDB *msgdb.MsgDB, id string, blocked bool) error {
 	// get list of mapped contacts
 	contacts, err := msgDB.GetContacts(id, blocked)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// print list
@@ -312,21 +312,20 @@ func (ce *CtrlEngine) contactBlock(id, contact string) error {
 	if err != nil {
 		return err
 	}
-	contactMapped, err := identity.Map(contact)
-	if err != nil {
-		return err
-	}
 
-	// TODO: call mutecryptAddContact() like in addContact() ?
-	return add(ce.msgDB, idMapped, contactMapped, "", msgdb.BlackList)
+	// the keys of the contact are fetched when it is unblocked
+	return add(ce.msgDB, idMapped, contact, "", msgdb.BlackList)
 }
 
-func (ce *CtrlEngine) contactUnblock(id, contact string) error {
+func (ce *CtrlEngine) contactUnblock(
+	id, contact string,
+	c *cli.Context,
+) error {
 	idMapped, err := identity.Map(id)
 	if err != nil {
 		return err
 	}
-	contactMapped, err := identity.Map(contact)
+	contactMapped, domain, err := identity.MapPlus(contact)
 	if err != nil {
 		return err
 	}
@@ -341,6 +340,12 @@ func (ce *CtrlEngine) contactUnblock(id, contact string) error {
 		return log.Errorf("ctrlengine: %s is not blocked", contact)
 	}
 
+	// the keys of the contact are missing, if it has never been added
+	err = mutecryptAddContact(c, ce.passphrase, contactMapped, domain, "", ce.client)
+	if err != nil {
+		return err
+	}
+
 	// unblock contact (-> white list)
 	err = ce.msgDB.AddContact(idMapped, contactMapped, unmappedID, fullName,
 		msgdb.WhiteList)
diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index 784b8a2..9c7fd2d 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -919,7 +919,7 @@ Tries to register a new user ID with the corresponding key server.
 					},
 					Action: func(c *cli.Context) {
 						ce.err = ce.contactUnblock(ce.getID(c),
-							c.String("contact"))
+							c.String("contact"), c)
 					},
 				},
 				{
-- 
2.43.0


From 7eaa91c115b3f5255022f7a69471f5e601c0afe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:50 +0000
Subject: [PATCH 78/94] fix: failed registration or deletion left tokens
 locked, keys behind and a deleted user ID active

---
 cryptengine/uid.go | 16 ++++++++++++++
 ctrlengine/uid.go  | 54 ++++++++++++++++++++++++++++++++++------------
 msgdb/keyvalue.go  |  9 ++++++++
 3 files changed, 65 insertions(+), 14 deletions(-)

diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 848df7d..84ed74f 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -167,6 +167,22 @@ func (ce *CryptEngine) deleteUID(pseudonym string, force bool) error {
 		return err
 	}
 
+	// a forced deletion can be repeated
+	if force {
+		ids, err := ce.keyDB.GetPrivateIdentities()
+		if err != nil {
+			return err
+		}
+		found := false
+		for _, i := range ids {
+			found = found || i == id
+		}
+		if !found {
+			log.Warnf("cryptengine: user ID %s has no key material", id)
+			return nil
+		}
+	}
+
 	// get UID from keyDB
 	msg, _, err := ce.keyDB.GetPrivateUID(id, false)
 	if err != nil {
diff --git a/ctrlengine/uid.go b/ctrlengine/uid.go
index b4d44b6..1c9afe3 100644
--- a/ctrlengine/uid.go
+++ b/ctrlengine/uid.go
@@ -206,9 +206,14 @@ func mutecryptNewUID(
 		if err := scanner.Err(); err != nil {
 			return err
 		}
-	} else {
-		client.DelToken(token.Hash)
+		// there is no UID to add KeyInit messages for
+		if _, err := io.WriteString(commandWriter, "quit\n"); err != nil {
+			return err
+		}
+		cmd.Wait()
+		return cryptErr
 	}
+	client.DelToken(token.Hash)
 
 	// add KeyInit messages
 	token, err = wallet.GetToken(client, "Message", owner)
@@ -229,6 +234,7 @@ func mutecryptNewUID(
 	for scanner.Scan() {
 		line := scanner.Text()
 		if line != "READY." {
+			client.UnlockToken(token.Hash)
 			return errors.New(line)
 		}
 		break
@@ -254,16 +260,7 @@ func mutecryptNewUID(
 		return err
 	}
 
-	if err := cmd.Wait(); err != nil {
-		return err
-	}
-
-	// propagate error
-	if cryptErr != nil {
-		return cryptErr
-	}
-
-	return nil
+	return cmd.Wait()
 }
 
 func mutecryptHashchainSearch(
@@ -529,13 +526,19 @@ func (ce *CtrlEngine) uidDelete(
 		servers = append(servers, server)
 	}
 
+	// remove user ID from key DB (first, otherwise the private keys could not be
+	// removed anymore if this fails)
+	if err := mutecryptDeleteUID(c, mappedID, ce.passphrase); err != nil {
+		return err
+	}
+
 	// remove user ID from message DB
 	if err := ce.msgDB.DelNym(mappedID); err != nil {
 		return err
 	}
 
-	// remove user ID from key DB
-	if err := mutecryptDeleteUID(c, mappedID, ce.passphrase); err != nil {
+	// a deleted user ID cannot be active
+	if err := ce.uidDeactivate(mappedID); err != nil {
 		return err
 	}
 
@@ -551,6 +554,29 @@ func (ce *CtrlEngine) uidDelete(
 	return nil
 }
 
+// uidDeactivate makes another user ID active, if mappedID is the active one.
+func (ce *CtrlEngine) uidDeactivate(mappedID string) error {
+	active, err := ce.msgDB.GetValue(msgdb.ActiveUID)
+	if err != nil {
+		return err
+	}
+	if activeMapped, err := identity.Map(active); err != nil || activeMapped != mappedID {
+		return nil
+	}
+	nyms, err := ce.msgDB.GetNyms(true)
+	if err != nil {
+		return err
+	}
+	if len(nyms) == 0 {
+		return ce.msgDB.DelValue(msgdb.ActiveUID)
+	}
+	unmappedID, _, err := ce.msgDB.GetNym(nyms[0])
+	if err != nil {
+		return err
+	}
+	return ce.msgDB.AddValue(msgdb.ActiveUID, unmappedID)
+}
+
 func (ce *CtrlEngine) uidList(outfp io.Writer) error {
 	nyms, err := ce.msgDB.GetNyms(false)
 	if err != nil {
diff --git a/msgdb/keyvalue.go b/msgdb/keyvalue.go
index 005f1e7..c7c1563 100644
--- a/msgdb/keyvalue.go
+++ b/msgdb/keyvalue.go
@@ -51,3 +51,12 @@ func (msgDB *MsgDB) GetValue(key string) (string, error) {
 		return value, nil
 	}
 }
+
+// DelValue deletes the value for the given key from the msgDB.
+func (msgDB *MsgDB) DelValue(key string) error {
+	_, err := msgDB.encDB.Exec("DELETE FROM KeyValueStore WHERE KeyEntry=?;", key)
+	if err != nil {
+		return log.Error(err)
+	}
+	return nil
+}
-- 
2.43.0


From 4c25517e9c15201825375c2d6e8cd0cc29f0fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:13 +0000
Subject: [PATCH 79/94] fix: web app served pages with an empty cookie,
 accepted any passphrase once unlocked and panicked without one

---
 ctrlengine/app.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/ctrlengine/app.go b/ctrlengine/app.go
index cbc8fc3..96b8852 100644
--- a/ctrlengine/app.go
+++ b/ctrlengine/app.go
@@ -5,6 +5,8 @@
 package ctrlengine
 
 import (
+	"crypto/subtle"
+	"errors"
 	"fmt"
 	"html/template"
 	"io"
@@ -42,11 +44,26 @@ var auth struct {
 }
 
 type loginHandler struct {
+	sync.Mutex
 	ce       *CtrlEngine
 	c        *cli.Context
 	statusfp io.Writer
 }
 
+// login prepares the control engine with the given passphrase. If the message
+// DB has been opened already, the passphrase must be the one it was opened
+// with.
+func (lh *loginHandler) login(passphrase []byte) error {
+	lh.Lock()
+	defer lh.Unlock()
+	if lh.ce.msgDB == nil {
+		lh.ce.passphrase = passphrase
+	} else if subtle.ConstantTimeCompare(passphrase, lh.ce.passphrase) != 1 {
+		return errors.New("wrong passphrase")
+	}
+	return lh.ce.prepare(lh.c, true, true)
+}
+
 func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	if r.Method == "GET" {
 		if err := t.Execute(w, nil); err != nil {
@@ -58,9 +75,7 @@ func (lh *loginHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 			http.Error(w, err.Error(), http.StatusBadRequest)
 			return
 		}
-		passphrase := r.Form["passphrase"][0]
-		lh.ce.passphrase = []byte(passphrase)
-		if err := lh.ce.prepare(lh.c, true, true); err != nil {
+		if err := lh.login([]byte(r.FormValue("passphrase"))); err != nil {
 			// TODO: allow to input passphrase again
 			http.Error(w, err.Error(), http.StatusForbidden)
 			return
@@ -104,7 +119,7 @@ func (sh *staticHandler) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	secret = auth.secret
 	auth.RUnlock()
 	// check that cookie has been set and equals random secret
-	if cookie.Value != "" && cookie.Value != secret {
+	if secret == "" || cookie.Value != secret {
 		http.Error(w, "invalid cookie value", http.StatusForbidden)
 		return
 	}
-- 
2.43.0


From 0ad936ddfd6dd324e92c316a06ca00b8a2bf41c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:58 +0000
Subject: [PATCH 80/94] fix: account was paid again if its new time could not
 be fetched, and a payment whose answer was lost kept its token

---
 ctrlengine/upkeep.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ctrlengine/upkeep.go b/ctrlengine/upkeep.go
index 692d141..8258a40 100644
--- a/ctrlengine/upkeep.go
+++ b/ctrlengine/upkeep.go
@@ -379,10 +379,20 @@ func (ce *CtrlEngine) upkeepAccounts(
 			}
 			_, err = mixclient.PayAccount(privkey, token.Token, server, def.CACert)
 			if err != nil {
-				ce.client.UnlockToken(token.Hash)
-				return log.Error(err)
+				// the payment might have been made although we got no answer
+				t, e := mixclient.AccountStat(privkey, server, def.CACert)
+				if e != nil || t <= last {
+					ce.client.UnlockToken(token.Hash)
+					return log.Error(err)
+				}
 			}
 			ce.client.DelToken(token.Hash)
+			// the account time is unknown until the server told us, the
+			// account must not be paid again if we do not get that far
+			err = ce.msgDB.SetAccountTime(mappedID, contact, 0)
+			if err != nil {
+				return err
+			}
 			last, err = mixclient.AccountStat(privkey, server, def.CACert)
 			if err != nil {
 				return err
-- 
2.43.0


From f6bdb282ed5c8a7bbbda0b26c4603a3991919be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:06 +0000
Subject: [PATCH 81/94] verif: build tag verif lets a test choose the
 configuration server

---
 def/def.go      |  2 +-
 def/hook_off.go | 13 +++++++++++++
 def/hook_on.go  | 23 +++++++++++++++++++++++
 3 files changed, 37 insertions(+), 1 deletion(-)
 create mode 100644 def/hook_off.go
 create mode 100644 def/hook_on.go

diff --git a/def/def.go b/def/def.go
index fe11d19..9967a56 100644
--- a/def/def.go
+++ b/def/def.go
@@ -127,7 +127,7 @@ func ConfigParams() (netDomain, pubkeyStr, configURL string) {
 		pubkeyStr = MainnetPubkeyStr
 		configURL = MainnetConfigURL
 	}
-	return
+	return hookConfigParams(netDomain, pubkeyStr, configURL)
 }
 
 // InitMuteFromFile initializes Mute with the config file from
diff --git a/def/hook_off.go b/def/hook_off.go
new file mode 100644
index 0000000..03f2816
--- /dev/null
+++ b/def/hook_off.go
@@ -0,0 +1,13 @@
+// Copyright (c) 2016 Mute Communications Ltd.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build !verif
+// +build !verif
+
+package def
+
+// hookConfigParams returns the configuration parameters as they are.
+func hookConfigParams(netDomain, pubkeyStr, configURL string) (string, string, string) {
+	return netDomain, pubkeyStr, configURL
+}
diff --git a/def/hook_on.go b/def/hook_on.go
new file mode 100644
index 0000000..e70c3f9
--- /dev/null
+++ b/def/hook_on.go
@@ -0,0 +1,23 @@
+// Copyright (c) 2016 Mute Communications Ltd.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+//go:build verif
+// +build verif
+
+package def
+
+import (
+	"os"
+	"strings"
+)
+
+// hookConfigParams replaces the public key and the URL of the configuration
+// server by those in the environment variable VERIF_CONFIG ("key url"), so that
+// a configuration server can be run for verification.
+func hookConfigParams(netDomain, pubkeyStr, configURL string) (string, string, string) {
+	if f := strings.Fields(os.Getenv("VERIF_CONFIG")); len(f) == 2 {
+		return netDomain, f[0], f[1]
+	}
+	return netDomain, pubkeyStr, configURL
+}
-- 
2.43.0


From 0ba912b1298e9c50da1d4d768230931dedd60f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:15 +0000
Subject: [PATCH 82/94] fix: configuration without fetch time was never
 updated, update and quit failed after success, and fetchconf --show formatted
 the configuration

---
 ctrlengine/ctrlengine.go | 43 ++++++++++++++++++++--------------------
 ctrlengine/upkeep.go     |  2 +-
 2 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index 9c7fd2d..812e8a7 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -118,30 +118,31 @@ func (ce *CtrlEngine) getConfig(homedir string, offline bool) error {
 			if err != nil {
 				return err
 			}
+			var t int64 // unknown time (of an interrupted fetch) is outdated
 			if timestr != "" {
-				t, err := strconv.ParseInt(timestr, 10, 64)
+				t, err = strconv.ParseInt(timestr, 10, 64)
 				if err != nil {
 					return log.Error(err)
 				}
-				last := time.Now().Sub(time.Unix(t, 0))
-				if last > def.FetchconfMinDuration {
-					if offline {
-						if last > def.FetchconfMaxDuration {
-							return log.Error("ctrlengine: configuration is " +
-								"outdated, please run without --offline")
-						}
-						log.Warn("ctrlengine: cannot fetch outdated config " +
-							"in --offline mode")
-						fmt.Fprintf(ce.fileTable.StatusFP,
-							"ctrlengine: cannot fetch outdated config in "+
-								"--offline mode\n")
-					} else {
-						// update config
-						err := ce.upkeepFetchconf(ce.msgDB, homedir, false, nil,
-							ce.fileTable.StatusFP)
-						if err != nil {
-							return err
-						}
+			}
+			last := time.Now().Sub(time.Unix(t, 0))
+			if last > def.FetchconfMinDuration {
+				if offline {
+					if last > def.FetchconfMaxDuration {
+						return log.Error("ctrlengine: configuration is " +
+							"outdated, please run without --offline")
+					}
+					log.Warn("ctrlengine: cannot fetch outdated config " +
+						"in --offline mode")
+					fmt.Fprintf(ce.fileTable.StatusFP,
+						"ctrlengine: cannot fetch outdated config in "+
+							"--offline mode\n")
+				} else {
+					// update config
+					err := ce.upkeepFetchconf(ce.msgDB, homedir, false, nil,
+						ce.fileTable.StatusFP)
+					if err != nil {
+						return err
 					}
 				}
 			}
@@ -1361,7 +1362,7 @@ func (ce *CtrlEngine) Start(args []string) error {
 	if err := ce.app.Run(args); err != nil {
 		return err
 	}
-	if ce.err != nil {
+	if ce.err != nil && ce.err != errExit {
 		return ce.translateError(ce.err)
 	}
 	return nil
diff --git a/ctrlengine/upkeep.go b/ctrlengine/upkeep.go
index 8258a40..8c1a131 100644
--- a/ctrlengine/upkeep.go
+++ b/ctrlengine/upkeep.go
@@ -151,7 +151,7 @@ func (ce *CtrlEngine) upkeepFetchconf(
 	}
 	// show new configuration
 	if show {
-		fmt.Fprintf(outfp, string(jsn)+"\n")
+		fmt.Fprintln(outfp, string(jsn))
 	}
 	return nil
 }
-- 
2.43.0


From 16ca8045045c3aa67e498cf86a612aa7b4f8f34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:23 +0000
Subject: [PATCH 83/94] fix: db vacuum failed because mutecrypt has no option
 --auto-vacuum

---
 ctrlengine/db.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index 273afe4..edf022f 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -335,20 +335,14 @@ func (ce *CtrlEngine) dbStatus(c *cli.Context, w io.Writer) error {
 	return nil
 }
 
-func mutecryptDBVacuum(
-	c *cli.Context,
-	passphrase []byte,
-	autoVacuumMode string,
-) error {
+// mutecrypt always uses auto_vacuum mode FULL
+func mutecryptDBVacuum(c *cli.Context, passphrase []byte) error {
 	args := []string{
 		"--homedir", c.GlobalString("homedir"),
 		"--loglevel", c.GlobalString("loglevel"),
 		"--logdir", c.GlobalString("logdir"),
 		"db", "vacuum",
 	}
-	if autoVacuumMode != "" {
-		args = append(args, "--auto-vacuum", autoVacuumMode)
-	}
 	cmd := exec.Command("mutecrypt", args...)
 	var errbuf bytes.Buffer
 	cmd.Stderr = &errbuf
@@ -373,7 +367,7 @@ func (ce *CtrlEngine) dbVacuum(c *cli.Context, autoVacuumMode string) error {
 	if err := ce.msgDB.Vacuum(autoVacuumMode); err != nil {
 		return err
 	}
-	if err := mutecryptDBVacuum(c, ce.passphrase, autoVacuumMode); err != nil {
+	if err := mutecryptDBVacuum(c, ce.passphrase); err != nil {
 		return log.Error(err)
 	}
 	return nil
-- 
2.43.0


From c1b2204cb3aaf86b60aa10324161f11599b8f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:31 +0000
Subject: [PATCH 84/94] fix: an interrupted rekey left two passphrases and
 could not be completed

---
 cryptengine/db.go | 12 +++++++++++-
 ctrlengine/db.go  |  8 +++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cryptengine/db.go b/cryptengine/db.go
index bbd525d..a4789c4 100644
--- a/cryptengine/db.go
+++ b/cryptengine/db.go
@@ -84,7 +84,17 @@ func (ce *CryptEngine) dbRekey(homedir string, iterations int) error {
 	}
 	// rekey keyDB
 	log.Infof("rekey keyDB '%s'", keydbname)
-	return keydb.Rekey(keydbname, oldPassphrase, newPassphrase, iterations)
+	err := keydb.Rekey(keydbname, oldPassphrase, newPassphrase, iterations)
+	if err != nil {
+		// an interrupted rekey has to be completed
+		keyDB, e := keydb.Open(keydbname, newPassphrase)
+		if e != nil {
+			return err
+		}
+		keyDB.Close()
+		log.Info("keyDB has been rekeyed already")
+	}
+	return nil
 }
 
 func (ce *CryptEngine) dbStatus(w io.Writer) error {
diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index edf022f..5caced6 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -286,7 +286,13 @@ func (ce *CtrlEngine) dbRekey(statusfp io.Writer, c *cli.Context) error {
 	// rekey msgDB
 	log.Infof("rekey msgDB '%s'", msgdbname)
 	if err := msgdb.Rekey(msgdbname, oldPassphrase, newPassphrase, c.Int("iterations")); err != nil {
-		return err
+		// an interrupted rekey has to be completed
+		msgDB, e := msgdb.Open(msgdbname, newPassphrase)
+		if e != nil {
+			return err
+		}
+		msgDB.Close()
+		log.Info("msgDB has been rekeyed already")
 	}
 	// rekey keyDB
 	log.Info("rekey keyDB")
-- 
2.43.0


From 35f2b698bb277fb7dc9f00fc160767e2b6b8eaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:41 +0000
Subject: [PATCH 85/94] fix: a failed db create could not be repeated, an
 interrupted one was used without wallet key, and malformed wallet keys were
 taken

---
 ctrlengine/ctrlengine.go |  5 ++++-
 ctrlengine/db.go         | 31 ++++++++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index 812e8a7..a661688 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -1373,7 +1373,10 @@ func decodeWalletKey(p string) (*[ed25519.PrivateKeySize]byte, error) {
 	var ret [ed25519.PrivateKeySize]byte
 	pd, err := base64.Decode(p)
 	if err != nil {
-		return nil, err
+		return nil, log.Error(err)
+	}
+	if len(pd) != ed25519.PrivateKeySize {
+		return nil, log.Error("ctrlengine: wallet key has wrong length")
 	}
 	copy(ret[:], pd)
 	return &ret, nil
diff --git a/ctrlengine/db.go b/ctrlengine/db.go
index 5caced6..c0aef28 100644
--- a/ctrlengine/db.go
+++ b/ctrlengine/db.go
@@ -19,6 +19,7 @@ import (
 
 	"github.com/frankbraun/codechain/util/bzero"
 	"github.com/mutecomm/mute/cipher"
+	"github.com/mutecomm/mute/encdb"
 	"github.com/mutecomm/mute/encode/base64"
 	"github.com/mutecomm/mute/log"
 	"github.com/mutecomm/mute/msgdb"
@@ -79,8 +80,15 @@ func (ce *CtrlEngine) dbCreate(
 	w, statusfp io.Writer,
 	homedir string,
 	c *cli.Context,
-) error {
+) (err error) {
 	msgdbname := filepath.Join(c.GlobalString("homedir"), "msgs")
+	// check given private walletKey
+	walletKey := c.String("walletkey")
+	if walletKey != "" {
+		if _, err := decodeWalletKey(walletKey); err != nil {
+			return err
+		}
+	}
 	// read passphrase
 	fmt.Fprintf(statusfp, "read passphrase from fd %d (not echoed)\n",
 		ce.fileTable.PassphraseFD)
@@ -90,7 +98,6 @@ func (ce *CtrlEngine) dbCreate(
 		scanner     *bufio.Scanner
 		passphrase  []byte
 		passphrase2 []byte
-		err         error
 	)
 	defer bzero.Bytes(passphrase)
 	defer bzero.Bytes(passphrase2)
@@ -131,6 +138,25 @@ func (ce *CtrlEngine) dbCreate(
 	if !bytes.Equal(passphrase, passphrase2) {
 		return log.Error(ErrPassphrasesDiffer)
 	}
+	// make sure databases do not exist already
+	var files []string
+	for _, dbname := range []string{"msgs", "keys"} {
+		for _, suffix := range []string{encdb.DBSuffix, encdb.KeySuffix} {
+			file := filepath.Join(c.GlobalString("homedir"), dbname+suffix)
+			if _, err := os.Lstat(file); !os.IsNotExist(err) {
+				return log.Errorf("ctrlengine: file '%s' exists already", file)
+			}
+			files = append(files, file)
+		}
+	}
+	// remove incomplete databases in case of error
+	defer func() {
+		if err != nil {
+			for _, file := range files {
+				os.Remove(file)
+			}
+		}
+	}()
 	// create msgDB
 	log.Infof("create msgDB '%s'", msgdbname)
 	if err := msgdb.Create(msgdbname, passphrase, c.Int("iterations")); err != nil {
@@ -156,7 +182,6 @@ func (ce *CtrlEngine) dbCreate(
 	fmt.Fprintf(statusfp, "database files created\n")
 	log.Info("database files created")
 	// determine private walletKey
-	walletKey := c.String("walletkey")
 	if walletKey == "" {
 		// generate wallet key
 		_, privateKey, err := ed25519.GenerateKey(cipher.RandReader)
-- 
2.43.0


From e1234f6046a1def7b731e95d84a08471fd2b840d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:26 +0000
Subject: [PATCH 86/94] fix: mime: subjects which look encoded or have
 surrounding spaces survive encoding

---
 msg/mime/mime.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 5f4e14e..4530411 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -17,6 +17,7 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/mutecomm/mute/encode/base64"
 	"github.com/mutecomm/mute/log"
@@ -47,6 +48,29 @@ type Header struct {
 	InReplyTo string   // optional
 }
 
+// encodeSubject encodes a subject such that decoding gives it back.
+func encodeSubject(subject string) string {
+	enc := mime.QEncoding.Encode("utf-8", subject)
+	dec, err := new(mime.WordDecoder).DecodeHeader(enc)
+	if err == nil && dec == subject && strings.TrimSpace(enc) == enc {
+		return enc
+	}
+	// surrounding spaces and what looks like an encoding need encoding, too
+	var words []string
+	for len(subject) > 0 {
+		n := 45 // bytes, maximum length of encoded word is 75
+		for n > 40 && n < len(subject) && !utf8.RuneStart(subject[n]) {
+			n--
+		}
+		if n > len(subject) {
+			n = len(subject)
+		}
+		words = append(words, "=?utf-8?b?"+base64.Encode([]byte(subject[:n]))+"?=")
+		subject = subject[n:]
+	}
+	return strings.Join(words, " ")
+}
+
 func mailHeader(
 	w io.Writer,
 	header Header,
@@ -59,7 +83,7 @@ func mailHeader(
 		fmt.Fprintf(w, "Cc: %s\r\n", strings.Join(header.Cc, ","))
 	}
 	if subject != "" {
-		fmt.Fprintf(w, "Subject: %s\r\n", mime.QEncoding.Encode("utf-8", subject))
+		fmt.Fprintf(w, "Subject: %s\r\n", encodeSubject(subject))
 	}
 	fmt.Fprintf(w, "Message-ID: %s\r\n", header.MessageID)
 	if header.InReplyTo != "" {
-- 
2.43.0


From 7cb02ff35f6a9486fe2486f447ce3f320756bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:33 +0000
Subject: [PATCH 87/94] fix: mime: quote file names of attachments with special
 characters

---
 msg/mime/mime.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 4530411..0ae83d5 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -128,7 +128,8 @@ func multipartMIME(
 			}
 		}
 		mh.Add("Content-Transfer-Encoding", "base64")
-		mh.Add("Content-Disposition", "attachment; filename="+base)
+		mh.Add("Content-Disposition", mime.FormatMediaType("attachment",
+			map[string]string{"filename": base}))
 		if attachment.Inline {
 			mh.Add("Content-Disposition", "inline")
 		}
-- 
2.43.0


From 658e8f3ef272dbaa82acb93ddd413ffb88a74425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:40 +0000
Subject: [PATCH 88/94] fix: mime: parse messages without subject, refuse
 truncated and damaged ones

---
 msg/mime/mime.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/msg/mime/mime.go b/msg/mime/mime.go
index 0ae83d5..02bbfc8 100644
--- a/msg/mime/mime.go
+++ b/msg/mime/mime.go
@@ -148,6 +148,20 @@ func multipartMIME(
 	return nil
 }
 
+// newMultipartReader returns a reader for the multipart message body r. It
+// makes sure that the body has not been truncated: the reader itself takes a
+// body which ends in the header of a part for a complete one.
+func newMultipartReader(r io.Reader, boundary string) (*multipart.Reader, error) {
+	body, err := ioutil.ReadAll(r)
+	if err != nil {
+		return nil, log.Error(err)
+	}
+	if !bytes.Contains(body, []byte("\n--"+boundary+"--")) {
+		return nil, log.Error("mime: message is truncated")
+	}
+	return multipart.NewReader(bytes.NewReader(body), boundary), nil
+}
+
 // SplitMessage splits a given Mute message msg into subject line (before the
 // first newline) and actual message (after the first newline).
 func SplitMessage(msg string) (subject, message string) {
@@ -267,7 +281,10 @@ func DecodeChunk(chunk string) (
 			log.Errorf("mime: unexpected mediaType: %s", mediaType)
 	}
 
-	mr := multipart.NewReader(msg.Body, params["boundary"])
+	mr, err := newMultipartReader(msg.Body, params["boundary"])
+	if err != nil {
+		return nil, "", 0, 0, err
+	}
 	p, err := mr.NextPart()
 	if err != nil {
 		return nil, "", 0, 0, log.Error(err)
@@ -334,13 +351,9 @@ func Parse(r io.Reader) (
 			h.Cc = append(h.Cc, address.Address)
 		}
 	}
-	// parse subject
-	subj := msg.Header.Get("Subject")
-	if subj == "" {
-		return nil, "", "", nil, log.Error("mime: 'Subject' not defined")
-	}
+	// parse optional subject
 	dec := new(mime.WordDecoder)
-	subject, err = dec.DecodeHeader(subj)
+	subject, err = dec.DecodeHeader(msg.Header.Get("Subject"))
 	if err != nil {
 		return nil, "", "", nil, log.Error(err)
 	}
@@ -363,7 +376,10 @@ func Parse(r io.Reader) (
 		return nil, "", "", nil, log.Error("mime: wrong 'Content-Type' header ")
 	}
 	// read first MIME part (message)
-	mr := multipart.NewReader(msg.Body, params["boundary"])
+	mr, err := newMultipartReader(msg.Body, params["boundary"])
+	if err != nil {
+		return nil, "", "", nil, err
+	}
 	p, err := mr.NextPart()
 	if err != nil {
 		return nil, "", "", nil, log.Error(err)
@@ -394,6 +410,9 @@ func Parse(r io.Reader) (
 		if err == io.EOF {
 			break
 		}
+		if err != nil {
+			return nil, "", "", nil, log.Error(err)
+		}
 		// parse header
 		contentType := p.Header.Get("Content-Type")
 		if contentType == "" {
@@ -423,9 +442,6 @@ func Parse(r io.Reader) (
 		}
 
 		// parse body
-		if err != nil {
-			return nil, "", "", nil, log.Error(err)
-		}
 		enc, err := ioutil.ReadAll(p)
 		if err != nil {
 			return nil, "", "", nil, log.Error(err)
-- 
2.43.0


From d23680267ae32fb0facdad3f64163f34c3949ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:44 +0000
Subject: [PATCH 89/94] fix: cryptengine: notice when a key server replaces its
 hash chain

---
 cryptengine/hashchain.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cryptengine/hashchain.go b/cryptengine/hashchain.go
index eb84724..aed5d8a 100644
--- a/cryptengine/hashchain.go
+++ b/cryptengine/hashchain.go
@@ -64,6 +64,14 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 	if found {
 		log.Debugf("cryptengine: last position for domain '%s': %d", domain, pos)
 		if pos >= hcPos {
+			// make sure the server still has the same hash chain
+			entry, err := ce.keyDB.GetHashChainEntry(domain, hcPos)
+			if err != nil {
+				return err
+			}
+			if entry != hcEntry {
+				return log.Errorf("cryptengine: hash chain entry %d differs from the one of the key server", hcPos)
+			}
 			// already in sync
 			log.Debugf("cryptengine: hash chain already in sync")
 			return nil
@@ -108,6 +116,9 @@ func (ce *CryptEngine) syncHashChain(domain string) error {
 	if uint64(len(hcEntries)) < end-start+1 {
 		return log.Error("cryptengine: fetch hash chain reply has too few entries")
 	}
+	if last, ok := hcEntries[end-start].(string); !ok || last != hcEntry {
+		return log.Error("cryptengine: fetch hash chain reply ends with the wrong entry")
+	}
 	for i := hcFirstPos; i <= hcPos; i++ {
 		entry, ok := hcEntries[i-hcFirstPos].(string)
 		if !ok {
-- 
2.43.0


From c6cfe262a8dc22b233945f33a201b9a1d7a5d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:04 +0000
Subject: [PATCH 90/94] fix: keypool: methods copied the pool while others
 changed it

---
 serviceguard/common/keypool/generator.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serviceguard/common/keypool/generator.go b/serviceguard/common/keypool/generator.go
index 8b4be85..4a356e7 100644
--- a/serviceguard/common/keypool/generator.go
+++ b/serviceguard/common/keypool/generator.go
@@ -82,7 +82,7 @@ func (kp *KeyPool) AddVerifyKey(key *[ed25519.PublicKeySize]byte) {
 }
 
 // ListVerifyKeys lists all known verification keys.
-func (kp KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
+func (kp *KeyPool) ListVerifyKeys() [][ed25519.PublicKeySize]byte {
 	kp.mapMutex.Lock()
 	defer kp.mapMutex.Unlock()
 	ret := make([][ed25519.PublicKeySize]byte, 0, len(kp.VerifyPubKeys))
@@ -141,14 +141,14 @@ func (kp *KeyPool) lookup(keyid [signkeys.KeyIDSize]byte) (*signkeys.PublicKey,
 }
 
 // SaveKey writes keyid to the keydir
-func (kp KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKey(keyid [signkeys.KeyIDSize]byte) error {
 	kp.mapMutex.RLock()
 	defer kp.mapMutex.RUnlock()
 	return kp.SaveKeyUnsafe(keyid)
 }
 
 // SaveKeyUnsafe writes keyid to the keydir. Unsafe. No mutex. Only within callbacks.
-func (kp KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
+func (kp *KeyPool) SaveKeyUnsafe(keyid [signkeys.KeyIDSize]byte) error {
 	key, err := kp.lookup(keyid)
 	if err != nil {
 		return err
@@ -240,7 +240,7 @@ func (kp *KeyPool) Load() error {
 }
 
 // WriteKey calls the write callback chain to write keys to storage
-func (kp KeyPool) WriteKey(key *signkeys.PublicKey) error {
+func (kp *KeyPool) WriteKey(key *signkeys.PublicKey) error {
 	// Write currentKey to file
 	data, err := key.Marshal()
 	if err != nil {
-- 
2.43.0


From 16ee7914e198f49011fdf9283144de38923e331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:48 +0000
Subject: [PATCH 91/94] fix: failures of the source of randomness were ignored
 for auth tokens and revoke IDs

---
 mix/mixcrypt/clientmix.go                    | 5 ++++-
 serviceguard/common/walletauth/walletauth.go | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/mix/mixcrypt/clientmix.go b/mix/mixcrypt/clientmix.go
index 6a24ebb..b81a8a3 100644
--- a/mix/mixcrypt/clientmix.go
+++ b/mix/mixcrypt/clientmix.go
@@ -112,7 +112,10 @@ func (cl *ClientMixHeader) NewRelayMessage(NymAddress []byte, msg []byte) (messa
 	copy(NextHopKey[:], address.MixPubKey)
 	cl.MessageType = MessageTypeRelay
 	cl.Address = NymAddress
-	revokeID, _ := genNonce()
+	revokeID, err := genNonce()
+	if err != nil {
+		return nil, "", err
+	}
 	cl.RevokeID = revokeID[:]
 	header := cl.Marshal()
 	messageC := make([]byte, len(header)+len(msg))
diff --git a/serviceguard/common/walletauth/walletauth.go b/serviceguard/common/walletauth/walletauth.go
index 8ad2c4e..fd2ea9c 100644
--- a/serviceguard/common/walletauth/walletauth.go
+++ b/serviceguard/common/walletauth/walletauth.go
@@ -44,7 +44,9 @@ func CreateToken(pubkey *[ed25519.PublicKeySize]byte, privkey *[ed25519.PrivateK
 	now := uint64(times.Now()) / SkewWindow
 	token := make([]byte, TokenSize)
 	copy(token[:32], pubkey[:])
-	io.ReadFull(Rand, token[32:64])
+	if _, err := io.ReadFull(Rand, token[32:64]); err != nil {
+		panic(err) // Should never happen
+	}
 	binary.BigEndian.PutUint64(token[64:72], now)
 	binary.BigEndian.PutUint64(token[72:80], counter)
 	sig := ed25519.Sign(privkey[:], token[:80])
-- 
2.43.0


From 415424647ba29237b2c24b5eb74be0f76dbd4205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:57 +0000
Subject: [PATCH 92/94] fix: commands of an interactive session with --offline
 were not offline

---
 ctrlengine/ctrlengine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctrlengine/ctrlengine.go b/ctrlengine/ctrlengine.go
index a661688..c50831a 100644
--- a/ctrlengine/ctrlengine.go
+++ b/ctrlengine/ctrlengine.go
@@ -373,6 +373,9 @@ func (ce *CtrlEngine) loop(c *cli.Context) {
 			"--logdir", c.GlobalString("logdir"),
 			"--loglevel", c.GlobalString("loglevel"),
 		)
+		if c.GlobalBool("offline") {
+			args = append(args, "--offline")
+		}
 		args = append(args, strings.Fields(ln)...)
 		if err := ce.app.Run(args); err != nil {
 			// command execution failed -> issue status and continue
-- 
2.43.0


From 72d43a21ff568cbc8fb1f8e29303fda303a590c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:48 +0000
Subject: [PATCH 93/94] fix: uid delete left key material behind after a
 repeated registration

---
 cryptengine/uid.go | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/cryptengine/uid.go b/cryptengine/uid.go
index 84ed74f..3cc1096 100644
--- a/cryptengine/uid.go
+++ b/cryptengine/uid.go
@@ -169,14 +169,10 @@ func (ce *CryptEngine) deleteUID(pseudonym string, force bool) error {
 
 	// a forced deletion can be repeated
 	if force {
-		ids, err := ce.keyDB.GetPrivateIdentities()
+		found, err := ce.hasPrivateUID(id)
 		if err != nil {
 			return err
 		}
-		found := false
-		for _, i := range ids {
-			found = found || i == id
-		}
 		if !found {
 			log.Warnf("cryptengine: user ID %s has no key material", id)
 			return nil
@@ -203,8 +199,39 @@ func (ce *CryptEngine) deleteUID(pseudonym string, force bool) error {
 		}
 	}
 
-	// delete UID from keyDB
-	return ce.keyDB.DelPrivateUID(msg)
+	// delete all UIDs of the nym from keyDB (there is more than one, if it was
+	// generated again after an aborted registration)
+	for {
+		if err := ce.keyDB.DelPrivateUID(msg); err != nil {
+			return err
+		}
+		found, err := ce.hasPrivateUID(id)
+		if err != nil {
+			return err
+		}
+		if !found {
+			return nil
+		}
+		msg, _, err = ce.keyDB.GetPrivateUID(id, false)
+		if err != nil {
+			return err
+		}
+	}
+}
+
+// hasPrivateUID reports whether the keyDB contains a private UID for the given
+// (mapped) identity.
+func (ce *CryptEngine) hasPrivateUID(id string) (bool, error) {
+	ids, err := ce.keyDB.GetPrivateIdentities()
+	if err != nil {
+		return false, err
+	}
+	for _, i := range ids {
+		if i == id {
+			return true, nil
+		}
+	}
+	return false, nil
 }
 
 // list UIDs shows all own (mapped) users IDs on outfp.
-- 
2.43.0


From 62796888a3fd92d32b3f6f91baa9d593789b2efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:49 +0000
Subject: [PATCH 94/94] fix: control characters of a text reached the terminal
 of the pager

---
 tui/editor/model.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tui/editor/model.go b/tui/editor/model.go
index 9614afb..c24c142 100644
--- a/tui/editor/model.go
+++ b/tui/editor/model.go
@@ -5,6 +5,7 @@
 package editor
 
 import (
+	"unicode"
 	"unicode/utf8"
 
 	"github.com/gdamore/tcell"
@@ -34,7 +35,20 @@ func (m *textBufferModel) GetCell(x, y int) (rune, tcell.Style, []rune, int) {
 		// do not return second half of wide characters
 		return utf8.RuneError, m.style, nil, 0
 	}
-	return c[0], m.style, c[1:], w
+	return c[0], m.style, printable(c[1:]), w
+}
+
+// printable returns the combining runes comb without the control characters,
+// which must not reach the terminal. They do not occupy a cell and have
+// therefore been combined with the character before them.
+func printable(comb []rune) []rune {
+	var p []rune
+	for _, r := range comb {
+		if !unicode.IsControl(r) {
+			p = append(p, r)
+		}
+	}
+	return p
 }
 
 func (m *textBufferModel) GetBounds() (int, int) {
-- 
2.43.0

