package main

import (
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
	"verif/harness/keyserv"
	"verif/harness/kit"
	"verif/harness/mon"
)

var h03 = &mon.Prop{
	Level: "exploration",
	Rule: "identities with random histories of records (registrations, updates, key server key changes, records of other identities in between) on which a hostile key server places wrong ones (other identity or domain, skipped or repeated counts, successors signed by others, takeovers, broken or foreign self, user and server signatures, records breaking the protocol, other contents under the same index, junk) or answers requests wrongly; users search or look up; " +
		"the records stored afterwards are compared with a model which accepts the longest valid prefix; one evaluation is one search or lookup which was judged",
	MinEvents: 500,
	Run:       runH03,
}

func runH03(t *mon.T) {
	for c := 0; c < t.N(120, 2500) && t.Violations() < 12; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		w := newWorld(t, rng, "aaa.example", "bbb.example")
		w.h03(c)
		w.close()
	}
}

// record is one entry for an identity as it was placed by the key server.
type record struct {
	kind string
	ok   bool // belongs to the longest valid chain, if all before do
	pos  uint64
	json string
}

// resign makes a record of the content of m with changes, signed by its owner.
func resign(m *uid.Message, sk *cipher.Ed25519Key, edit func(c map[string]interface{}), prev *cipher.Ed25519Key) []byte {
	var tr map[string]interface{}
	d := json.NewDecoder(strings.NewReader(string(m.JSON())))
	d.UseNumber()
	d.Decode(&tr)
	c := tr["UIDContent"].(map[string]interface{})
	edit(c)
	b, _ := json.Marshal(c)
	tr["SELFSIGNATURE"] = keyserv.B64(sk.Sign(b))
	if prev != nil {
		tr["USERSIGNATURE"] = keyserv.B64(prev.Sign(b))
	}
	out, _ := json.Marshal(tr)
	return out
}

func plain(m *uid.Message) string { return string(m.JSON()) }

// the kinds of wrong records take turns
var nFirst, nNext int

func (w *world) h03(c int) {
	t, rng := w.t, w.rng
	s, o := w.srv[0], w.srv[1]
	dom := s.Domain
	ids := []string{w.name() + "@" + dom, w.name() + "@" + dom}
	// history of the honest world: who has which record now
	cur := map[string]*uid.Message{}
	recs := map[string][]record{}
	srvID := "keyserver@" + dom
	srvMsg := s.ID
	recs[srvID] = []record{{"first", true, 0, plain(s.ID)}}
	cur[srvID] = s.ID
	dead := map[string]bool{} // the chain of this identity has been broken
	place := func(id, kind string, ok bool, msg []byte, sk *cipher.Ed25519Key) {
		if sk == nil {
			sk = s.SK
		}
		pos := s.AddRaw(msg, id, sk)
		if dead[id] {
			ok = false
		}
		recs[id] = append(recs[id], record{kind, ok, pos, string(msg)})
		if !ok {
			dead[id] = true
		}
	}
	update := func(m *uid.Message) *uid.Message {
		n, err := m.Update(cipher.RandReader)
		t.Must(err, "update")
		return n
	}
	honest := func(id string) {
		if id == srvID {
			// the key server changes its key; the new record is signed with
			// the old one
			n := update(srvMsg)
			place(srvID, "server-update", true, n.JSON(), s.SK)
			srvMsg, cur[srvID] = n, n
			s.SK = key(n)
			return
		}
		if cur[id] == nil {
			m := w.create(id, s.Chain[rng.Intn(len(s.Chain))])
			place(id, "first", true, m.JSON(), nil)
			cur[id] = m
			return
		}
		n := update(cur[id])
		place(id, "update", true, n.JSON(), nil)
		cur[id] = n
	}
	evil, err := cipher.Ed25519Generate(cipher.RandReader)
	t.Must(err, "key")
	last := s.Chain[0]
	wrong := func(id string) {
		m := cur[id]
		if m == nil {
			// the first record of the identity is wrong
			m = w.create(id, last)
			n := w.create(ids[0][:3]+"zz@"+dom, last)
			nFirst++
			switch nFirst % 9 {
			case 0:
				place(id, "other-identity", false, n.JSON(), nil)
			case 1:
				place(id, "starts-with-update", false, update(m).JSON(), nil)
			case 2:
				b := []byte(strings.Replace(plain(m), m.SELFSIGNATURE, n.SELFSIGNATURE, 1))
				place(id, "selfsig", false, b, nil)
			case 3:
				place(id, "server-signature", false, m.JSON(), evil)
			case 4:
				x := w.create(strings.Split(id, "@")[0]+"@"+o.Domain, last)
				place(id, "other-domain", false, x.JSON(), nil)
			case 5:
				x := w.create("keyserver@"+o.Domain, "")
				place(id, "keyserver-of-other-domain", false, x.JSON(), nil)
			case 6:
				place(id, "keyserver", false, s.ID.JSON(), evil)
			case 7:
				place(id, "junk", false, []byte([]string{"{}", "null", "[]", "{\"UIDContent\":{}}", "x", "{\"UIDContent\":null}", "5"}[rng.Intn(7)]), nil)
			case 8:
				place(id, "foreign-signer", false, resign(m, key(n), func(c map[string]interface{}) {}, nil), nil)
			}
			return
		}
		sk := key(m)
		if rng.Intn(4) == 0 && len(recs[id]) > 0 {
			// the same record again
			r := recs[id][rng.Intn(len(recs[id]))]
			place(id, "repeated", false, []byte(r.json), nil)
			return
		}
		n := update(m)
		nk := key(n)
		nNext++
		switch nNext % 11 {
		case 0:
			x := w.create(id, last)
			place(id, "takeover", false, x.JSON(), nil)
		case 1:
			place(id, "skipped", false, update(n).JSON(), nil)
		case 2:
			place(id, "successor-of-other", false, resign(n, nk, func(c map[string]interface{}) {}, evil), nil)
		case 3:
			place(id, "new-key-only", false, resign(n, nk, func(c map[string]interface{}) {}, nk), nil)
		case 4:
			b := []byte(strings.Replace(plain(n), n.USERSIGNATURE, n.SELFSIGNATURE, 1))
			place(id, "usersig-swapped", false, b, nil)
		case 5:
			place(id, "server-signature", false, n.JSON(), evil)
		case 6:
			place(id, "selfsig-old-key", false, resign(n, sk, func(c map[string]interface{}) {}, sk), nil)
		case 7:
			b := resign(n, nk, func(c map[string]interface{}) { c["IDENTITY"] = ids[0][:3] + "yy@" + dom }, sk)
			place(id, "identity-changed", false, b, nil)
		case 8:
			edits := map[string]func(c map[string]interface{}){
				"version": func(c map[string]interface{}) { c["VERSION"] = "2.0" },
				"repo":    func(c map[string]interface{}) { c["REPOURIS"] = []string{o.Domain} },
				"keys":    func(c map[string]interface{}) { c["PUBKEYS"] = []interface{}{} },
				"prefs": func(c map[string]interface{}) {
					c["PREFERENCES"] = map[string]interface{}{"FORWARDSEC": "optional", "CIPHERSUITES": []string{uid.DefaultCiphersuite}}
				},
				"suite": func(c map[string]interface{}) {
					c["SIGKEY"].(map[string]interface{})["CIPHERSUITE"] = "NONE"
				},
			}
			names := []string{"version", "repo", "keys", "prefs", "suite"}
			k := names[nNext/11%len(names)]
			place(id, "protocol-"+k, false, resign(n, nk, edits[k], sk), nil)
		case 9:
			place(id, "no-usersig", false, []byte(strings.Replace(plain(n), n.USERSIGNATURE, "", 1)), nil)
		case 10:
			b := resign(n, nk, func(c map[string]interface{}) {
				c["MSGCOUNT"] = json.Number([]string{"0", "18446744073709551615", fmt.Sprint(m.UIDContent.MSGCOUNT)}[rng.Intn(3)])
			}, sk)
			place(id, "count", false, b, nil)
		}
	}
	users := []*member{w.user(fmt.Sprintf("a%d", c)), w.user(fmt.Sprintf("b%d", c))}
	defer func() {
		for _, u := range users {
			u.close()
		}
	}()
	known := []map[string][]record{{}, {}} // what the users have stored
	hcLen := []int{0, 0}
	evilRound := 1 + rng.Intn(4)
	for round := 0; round < 6; round++ {
		unlock := s.Lock()
		for n := rng.Intn(4); n > 0; n-- {
			switch rng.Intn(5) {
			case 0:
				s.Noise(1)
			case 1:
				if !dead[srvID] {
					honest(srvID)
				}
			default:
				if id := ids[rng.Intn(2)]; !dead[id] {
					honest(id)
				}
			}
		}
		if round >= evilRound && rng.Intn(4) > 0 {
			all := append([]string{srvID}, ids...)
			if id := all[rng.Intn(3)]; !dead[id] || rng.Intn(3) == 0 {
				wrong(id)
				if !dead[id] {
					t.Fatalf("placed record of %s is not wrong", id)
				}
			}
		}
		unlock()
		for k, u := range users {
			if rng.Intn(3) == 0 {
				continue
			}
			u.must("hashchain sync --domain %s", dom)
			hcLen[k] = len(s.Chain)
			for _, id := range append([]string{srvID}, ids...) {
				w.lookFor(c, round, k, u, s, id, recs[id], known[k], hcLen[k], o)
			}
			// nothing else is stored
			total := 0
			for _, l := range known[k] {
				total += len(l)
			}
			if n := u.rows("SELECT COUNT(*) FROM PublicUIDs"); n[0] != fmt.Sprint(total) {
				w.bad("stored-other", "%s records are stored instead of %d", n[0], total)
			}
		}
	}
}

// lookFor makes the user search for or look up an identity.
func (w *world) lookFor(c, round, who int, u *member, s *keyserv.Server, id string, recs []record, known map[string][]record, hcLen int, o *keyserv.Server) {
	t, rng := w.t, w.rng
	var visible []record
	for _, r := range recs {
		if int(r.pos) < hcLen {
			visible = append(visible, r)
		}
	}
	cmd := []string{"search", "lookup"}[who]
	if rng.Intn(5) == 0 {
		cmd = []string{"lookup", "search"}[who]
	}
	idSpelled := id
	if rng.Intn(4) == 0 {
		idSpelled = strings.ToUpper(id[:1]) + id[1:]
	}
	stored := func() []string {
		return u.rows("SELECT MSGCOUNT, POSITION, UIDMessage FROM PublicUIDs WHERE IDENTITY=? ORDER BY POSITION, ID", id)
	}
	before := stored()
	if rng.Intn(3) == 0 {
		// search only: tells whether there is an entry, stores nothing
		r := u.do("hashchain search --search-only --id %s", idSpelled)
		if (r == "") != (len(visible) > 0) {
			w.bad("search-only", "%q for %d entries", r, len(visible))
		}
		if !same(before, stored()) {
			w.bad("search-only/stored", "records were stored")
		}
	}
	// a request is answered wrongly
	hostileKind := ""
	if o != nil && len(before) == 0 && id == "keyserver@"+s.Domain {
		// a false key of the key server itself
		done := false
		s.Hook = func(method string, p, res map[string]interface{}) interface{} {
			if method != "KeyRepository.FetchUID" || res == nil || done {
				return nil
			}
			done = true
			rep := res["UIDMessageReply"].(map[string]interface{})
			b := w.substitute(s, keyserv.Dec(rep["ENTRY"].(map[string]interface{})["UIDMESSAGEENCRYPTED"].(string)))
			if b == nil {
				return nil
			}
			hostileKind = "/false-server-key"
			return signedReply(s, rep["ENTRY"].(map[string]interface{}), b)
		}
	} else if o != nil && rng.Intn(4) == 0 {
		target := []string{"KeyRepository.FetchUID", "KeyRepository.FetchUID", "KeyHashchain.LookupUID"}[rng.Intn(3)]
		skip := rng.Intn(2)
		s.Hook = func(method string, p, res map[string]interface{}) interface{} {
			if method != target || res == nil {
				return nil
			}
			if skip > 0 {
				skip--
				return nil
			}
			if hostileKind != "" && rng.Intn(2) == 0 {
				return nil
			}
			out, k := w.hostileReply(s, o, method, res)
			hostileKind += "/" + strings.SplitN(method, ".", 2)[1] + "-" + k
			return out
		}
	}
	r := u.do("hashchain %s --id %s", cmd, idSpelled)
	s.Hook = nil
	after := stored()
	// what has to be accepted: the longest valid prefix
	var want []string
	wantErr := len(visible) == 0
	lastKind := "none"
	for _, x := range visible {
		lastKind = x.kind
		if !x.ok {
			wantErr = true
			break
		}
		m, _ := uid.NewJSON(x.json)
		want = append(want, fmt.Sprintf("%d|%d|%s", m.UIDContent.MSGCOUNT, x.pos, x.json))
	}
	what := fmt.Sprintf("%s/%s", cmd, lastKind)
	w.log("(%s %s)", what, hostileKind)
	t.Eval(fmt.Sprint(c, round, u.Home, id, what, hostileKind))
	t.Count("judged/" + what)
	// the key server's own record is needed to judge those of others
	switch {
	case hostileKind != "":
		t.Count("hostile" + hostileKind)
		// nothing wrong is stored, nothing is lost
		if len(after) < len(before) || len(after) > len(want) || !same(after, want[:len(after)]) {
			w.bad("hostile"+hostileKind, "%d records stored, %d before, %d valid ones", len(after), len(before), len(want))
		}
		if r == "" && len(after) == 0 {
			w.bad("hostile-success"+hostileKind, "success, but no record of %s is known", id)
		}
	default:
		if !same(after, want) {
			w.bad("stored/"+what, "%d records of %s stored, %d valid ones of %d placed (result %q)", len(after), id, len(want), len(visible), r)
		}
		if wantErr && r == "" {
			w.bad("accepted/"+what, "no error for %s", id)
		} else if !wantErr && r != "" {
			w.bad("refused/"+what, "%s", r)
		}
		t.Sample(what, map[string]interface{}{"placed": len(visible), "stored": len(after), "result": r})
	}
	var l []record
	for range after {
		l = append(l, record{})
	}
	known[id] = l
	if hostileKind != "" {
		// once more, with honest replies
		w.lookFor(c, round+100, who, u, s, id, recs, known, hcLen, nil)
	}
}

// signedReply is a reply with other contents, signed by the server.
func signedReply(s *keyserv.Server, entry map[string]interface{}, b []byte) map[string]interface{} {
	e := map[string]interface{}{"UIDMESSAGEENCRYPTED": keyserv.B64(b), "HASHCHAINENTRY": entry["HASHCHAINENTRY"], "HASHCHAINPOS": entry["HASHCHAINPOS"]}
	j, _ := json.Marshal(e)
	return map[string]interface{}{"UIDMessageReply": map[string]interface{}{"ENTRY": e, "SERVERSIGNATURE": keyserv.B64(s.SK.Sign(j))}}
}

// hostileReply makes a wrong answer to a request for a record.
func (w *world) hostileReply(s, o *keyserv.Server, method string, res map[string]interface{}) (interface{}, string) {
	rng := w.rng
	if method == "KeyRepository.FetchUID" && rng.Intn(3) > 0 {
		rep, _ := res["UIDMessageReply"].(map[string]interface{})
		entry, _ := rep["ENTRY"].(map[string]interface{})
		enc := keyserv.Dec(entry["UIDMESSAGEENCRYPTED"].(string))
		set := func(b []byte) map[string]interface{} { return signedReply(s, entry, b) }
		switch rng.Intn(6) {
		case 0: // another record under this index
			for idx, r := range s.Replies {
				if b := keyserv.Dec(r.ENTRY.UIDMESSAGEENCRYPTED); idx != keyserv.B64(enc[:32]) && len(b) > 32 {
					return set(append(append([]byte{}, enc[:32]...), b[32:]...)), "other-record"
				}
			}
		case 1: // a valid new record of the same identity under this index
			if b := w.substitute(s, enc); b != nil {
				return set(b), "substituted"
			}
		case 2:
			b := append([]byte{}, enc...)
			b[32+rng.Intn(len(b)-32)] ^= 1 << uint(rng.Intn(8))
			return set(b), "damaged"
		case 3:
			return set(enc[:rng.Intn(len(enc))]), "short"
		case 4:
			b := append([]byte{}, enc...)
			b[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
			return set(b), "index"
		case 5:
			m := map[string]interface{}{"UIDMessageReply": map[string]interface{}{"ENTRY": keyserv.JunkIn(rng, entry), "SERVERSIGNATURE": rep["SERVERSIGNATURE"]}}
			return m, "entry"
		}
	}
	if method == "KeyHashchain.LookupUID" && rng.Intn(3) > 0 {
		ps, _ := res["HCPositions"].([]uint64)
		var l []interface{}
		for _, p := range ps {
			l = append(l, p)
		}
		if len(l) > 0 {
			switch rng.Intn(5) {
			case 0:
				l = append(l, uint64(rng.Intn(len(s.Chain))))
				return map[string]interface{}{"HCPositions": l}, "extra"
			case 1:
				l = append(l, uint64(len(s.Chain)+rng.Intn(3)))
				return map[string]interface{}{"HCPositions": l}, "beyond"
			case 2:
				return map[string]interface{}{"HCPositions": l[1:]}, "first-missing"
			case 3:
				rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				return map[string]interface{}{"HCPositions": l}, "shuffled"
			case 4:
				l[rng.Intn(len(l))] = []interface{}{-1.0, 0.5, 1e300, 1e19, "0", nil, true}[rng.Intn(7)]
				return map[string]interface{}{"HCPositions": l}, "junk-position"
			}
		}
	}
	return hostile(rng, method, res)
}

// substitute replaces the record encrypted in enc by a fresh one of the same
// identity. The server knows the record, and with it the encryption key.
func (w *world) substitute(s *keyserv.Server, enc []byte) []byte {
	for _, cand := range s.Texts {
		hash := sha256.Sum256(cand)
		index := sha256.Sum256(hash[:])
		if string(index[:]) != string(enc[:32]) {
			continue
		}
		m, err := uid.NewJSON(string(cand))
		if err != nil || !strings.Contains(m.Identity(), "@") || m.UIDContent.MSGCOUNT != 0 {
			return nil
		}
		n := w.create(m.Identity(), m.UIDContent.LASTENTRY).JSON()
		iv := make([]byte, 16)
		w.rng.Read(iv)
		b, _ := aes.NewCipher(hash[:])
		c := make([]byte, len(n))
		stdcipher.NewCTR(b, iv).XORKeyStream(c, n)
		return append(append(append([]byte{}, enc[:32]...), iv...), c...)
	}
	return nil
}
