package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	stdb64 "encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"crypto/ecdh"
	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
	"verif/harness/kit"
	"verif/harness/mon"
)

// canonical is an independent implementation of the sorted JSON encoding.
func canonical(jsn []byte) []byte {
	d := json.NewDecoder(bytes.NewReader(jsn))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil
	}
	b, _ := json.Marshal(v)
	return b
}

func tree(jsn []byte) map[string]interface{} {
	d := json.NewDecoder(bytes.NewReader(jsn))
	d.UseNumber()
	var v map[string]interface{}
	if d.Decode(&v) != nil {
		return nil
	}
	return v
}

func enc(v interface{}) []byte { b, _ := json.Marshal(v); return b }

func b64d(s string) []byte { b, _ := stdb64.StdEncoding.DecodeString(s); return b }
func b64e(b []byte) string { return stdb64.StdEncoding.EncodeToString(b) }

const hcEntry = "PxIx7lxwcKB3vmPLGzqm3alBCBkHbD89qRBWs7+N8yMB6QEQSe7yf4BrMISdYWeF/Ycm7tKzb6q8LZgdjtTHHAFSkuD/Q3aUITVhT19g5WKwEZ1TlMH0n7ymEEVVhW/PtEDOO/uMoEOKTTvwQp6QA2NE1GYYqhzBtQNHawFtw5NUnupGnDV+QqpJrSUoe/vkXnWZfDiY9Q1W"

func randEntry(rng *rand.Rand) string {
	b := make([]byte, 153)
	rng.Read(b)
	b[32] = 1
	return b64e(b)
}

const idAlpha = "abcdefghiklmnopqrstuvwxyz23456789"

func randID(rng *rand.Rand) string {
	n := 3 + rng.Intn(8)
	if rng.Intn(10) == 0 {
		n = 64
	}
	lp := make([]byte, n)
	for i := range lp {
		lp[i] = idAlpha[rng.Intn(len(idAlpha))]
		if i > 0 && i < n-1 && rng.Intn(8) == 0 && lp[i-1] != '.' && lp[i-1] != '-' {
			lp[i] = ".-"[rng.Intn(2)]
		}
	}
	for lp[n-1] == '.' || lp[n-1] == '-' {
		lp[n-1] = 'x'
	}
	dom := fmt.Sprintf("d%d.example", rng.Intn(1000))
	if rng.Intn(10) == 0 {
		dom = strings.Repeat("x", 254-n-1-4) + ".one"
	}
	return string(lp) + "@" + dom
}

func create(t *mon.T, rng *rand.Rand, id string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, randEntry(rng), cipher.RandReader)
	t.Must(err, "create UID message")
	return m
}

// leaf is one changeable place in a JSON tree.
type leaf struct {
	path string
	set  func(interface{})
	val  interface{}
}

func leaves(path string, v interface{}, set func(interface{}), out *[]leaf) {
	*out = append(*out, leaf{path, set, v})
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			k := k
			leaves(path+"."+k, e, func(n interface{}) { x[k] = n }, out)
		}
	case []interface{}:
		for i, e := range x {
			i := i
			leaves(fmt.Sprintf("%s[%d]", path, i), e, func(n interface{}) { x[i] = n }, out)
		}
	}
}

// mutate changes the tree at one random place and describes what it did.
func mutate(rng *rand.Rand, v interface{}, root func(interface{})) string {
	var ls []leaf
	leaves("", v, root, &ls)
	// map iteration order is random: make the choice reproducible
	sortLeaves(ls)
	l := ls[rng.Intn(len(ls))]
	l.set(other(rng, l.val))
	return l.path
}

func sortLeaves(ls []leaf) {
	for i := 1; i < len(ls); i++ {
		for j := i; j > 0 && ls[j].path < ls[j-1].path; j-- {
			ls[j], ls[j-1] = ls[j-1], ls[j]
		}
	}
}

func other(rng *rand.Rand, v interface{}) interface{} {
	if rng.Intn(12) == 0 {
		return []interface{}{nil, "", json.Number("0"), json.Number("18446744073709551615"), json.Number("-1"), true,
			[]interface{}{}, map[string]interface{}{}, "\x00", strings.Repeat("A", 1+rng.Intn(70)), "====", json.Number("1.5")}[rng.Intn(12)]
	}
	switch x := v.(type) {
	case string:
		b := []byte(x)
		switch k := rng.Intn(7); {
		case k == 0 || len(b) == 0:
			return x + string(idAlpha[rng.Intn(len(idAlpha))])
		case k == 1:
			return string(b[:len(b)-1])
		case k == 2: // valid base64 of another length
			d := b64d(x)
			return b64e(append(d, byte(rng.Intn(256))))
		case k == 3:
			d := b64d(x)
			if len(d) > 0 {
				return b64e(d[:rng.Intn(len(d))])
			}
			return ""
		case k == 4: // same length, other value
			d := b64d(x)
			if len(d) > 0 {
				d[rng.Intn(len(d))] ^= 1 << uint(rng.Intn(8))
				return b64e(d)
			}
			fallthrough
		default:
			i := rng.Intn(len(b))
			b[i] = idAlpha[rng.Intn(len(idAlpha))]
			return string(b)
		}
	case json.Number:
		if rng.Intn(2) == 0 {
			return json.Number(fmt.Sprint(rng.Uint64()))
		}
		return json.Number(fmt.Sprint(rng.Intn(5)))
	case nil:
		return map[string]interface{}{"PUBKEY": "AA=="}
	case []interface{}:
		switch rng.Intn(3) {
		case 0:
			return append(append([]interface{}{}, x...), x...)
		case 1:
			return append(append([]interface{}{}, x...), nil)
		}
		return x[:0]
	case map[string]interface{}:
		return nil
	}
	return nil
}

func canonKeys(t *mon.T, ke *uid.KeyEntry, what string, priv string) {
	pub := b64d(ke.PUBKEY)
	h := sha512.Sum512(pub)
	t.Checkf(ke.HASH == b64e(h[:]), what+"/hash", "HASH of %s is not the hash of PUBKEY", what)
	t.Checkf(len(pub) == 32, what+"/size", "public key has %d bytes", len(pub))
	p := b64d(priv)
	switch ke.FUNCTION {
	case "ED25519":
		if t.Checkf(len(p) == 64, what+"/private", "private key has %d bytes", len(p)); len(p) == 64 {
			k := ed25519.NewKeyFromSeed(p[:32])
			t.Checkf(bytes.Equal(k[32:], pub), what+"/pair", "private and public key do not belong together")
		}
	case "ECDHE25519":
		if t.Checkf(len(p) == 32, what+"/private", "private key has %d bytes", len(p)); len(p) == 32 {
			sk, _ := ecdh.X25519().NewPrivateKey(p)
			k := sk.PublicKey().Bytes()
			t.Checkf(bytes.Equal(k, pub), what+"/pair", "private and public key do not belong together")
		}
	default:
		t.Violation(what+"/function", ke.FUNCTION)
	}
	t.Checkf(bytes.Equal(ke.PublicKey32()[:], pub), what+"/public", "PublicKey32 differs from PUBKEY")
}

func edVerify(pub string, msg []byte, sig string) bool {
	p, s := b64d(pub), b64d(sig)
	return len(p) == 32 && len(s) == 64 && ed25519.Verify(p, msg, s)
}

var _ = kit.Seed
