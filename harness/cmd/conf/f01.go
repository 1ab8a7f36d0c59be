package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mutecomm/mute/configclient/sortedmap"
	"verif/harness/mon"
)

var f01 = &mon.Prop{
	Level: "exploration",
	Rule: "maps of random texts signed by code of the harness, altered in bits, fields, entries and dates; " +
		"an accepted certificate has to contain a map and date which were signed by the key asked for; one evaluation is one certificate judged",
	MinEvents: 4000,
	Run:       runF01,
}

// signer signs maps with code of its own.
type signer struct {
	pub    ed25519.PublicKey
	priv   ed25519.PrivateKey
	signed map[string]bool // maps and dates which were signed
}

func newSigner(t *mon.T) *signer {
	pub, priv, err := ed25519.GenerateKey(nil)
	t.Must(err, "key")
	return &signer{pub, priv, make(map[string]bool)}
}

// image is what is hashed and signed.
func image(m map[string]string, date uint64) []byte {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b bytes.Buffer
	put := func(s string) {
		binary.Write(&b, binary.BigEndian, uint64(len(s)))
		b.WriteString(s)
	}
	for _, k := range keys {
		put(k)
		put(m[k])
	}
	binary.Write(&b, binary.BigEndian, uint64(b.Len()))
	h := sha512.Sum512(b.Bytes())
	d := make([]byte, 8)
	binary.BigEndian.PutUint64(d, date)
	return append(h[:], d...)
}

func (s *signer) sign(m map[string]string, date uint64) []byte {
	i := image(m, date)
	s.signed[string(i)] = true
	return ed25519.Sign(s.priv, i)
}

// cert is a certificate as it is sent.
func cert(m map[string]string, sig []byte, date uint64) []byte {
	b, err := json.Marshal(struct {
		Config    map[string]string
		Signature []byte
		SignDate  uint64
	}{m, sig, date})
	if err != nil {
		panic(err)
	}
	return b
}

var alphabet = []string{"a", "b", "Z", "0", ".", ",", ";", ":", " ", "\n", "\t", "\"", "\\", "/", "<", "&", "ä", "€", "\U0001F600", "\x00", "\u2028", "\ufffd"}

func randText(rng *rand.Rand, max int) string {
	var s strings.Builder
	for n := rng.Intn(max + 1); n > 0; n-- {
		s.WriteString(alphabet[rng.Intn(len(alphabet))])
	}
	return s.String()
}

func randMap(rng *rand.Rand) map[string]string {
	m := make(map[string]string)
	for n := rng.Intn(7); n > 0; n-- {
		m[randText(rng, 6)] = randText(rng, 20)
	}
	if rng.Intn(3) == 0 {
		m["mixclient.Sender"] = strings.Repeat(randText(rng, 9), rng.Intn(300))
	}
	return m
}

func copyMap(m map[string]string) map[string]string {
	r := make(map[string]string)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func sameMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

const maxAge = 14400

func runF01(t *mon.T) {
	s, other := newSigner(t), newSigner(t)
	now := func() uint64 { return uint64(time.Now().Unix()) }
	// judge checks the verdict of one certificate
	judge := func(kind string, key []byte, c []byte, last uint64, want int) {
		t.Case(map[string]interface{}{"kind": kind, "cert": string(c), "last": last, "key": fmt.Sprintf("%x", key)})
		t.Eval(kind)
		var sm *sortedmap.SignedMap
		var err error
		before := now()
		if !t.NoPanic("panic/"+kind, string(c), func() { sm, err = sortedmap.Certify(last, key, c) }) {
			return
		}
		if err != nil {
			if want > 0 {
				t.Violation("refused/"+kind, fmt.Sprint(err))
			}
			if sm != nil {
				t.Violation("refused-map/"+kind, "a map with an error")
			}
			t.Count("refused")
			return
		}
		t.Count("accepted")
		if want < 0 {
			t.Violation("accepted/"+kind, string(c))
			return
		}
		if !bytes.Equal(key, s.pub) || !s.signed[string(image(sm.Config, sm.SignDate))] {
			t.Violation("forged/"+kind, string(c))
		}
		if sm.SignDate < last && last > 0 {
			t.Violation("rollback/"+kind, fmt.Sprintf("%d before %d", sm.SignDate, last))
		}
		if sm.SignDate+maxAge < before || sm.SignDate > now()+maxAge {
			t.Violation("age/"+kind, fmt.Sprint(sm.SignDate))
		}
	}
	for c := 0; c < t.N(40, 600); c++ {
		rng := t.Rand("f01", c)
		m := randMap(rng)
		if c == 0 {
			m = map[string]string{}
		}
		if c%2 == 1 && len(m) < 2 {
			m["a"], m["b"] = "c", "d"
		}
		date := now() - uint64(rng.Intn(3600))
		sig := s.sign(m, date)
		good := cert(m, sig, date)
		judge("good", s.pub, good, 0, 1)
		judge("good-last", s.pub, good, date, 1)
		judge("good-before", s.pub, good, date-uint64(rng.Intn(1000))-1, 1)
		judge("walk-back", s.pub, good, date+1+uint64(rng.Intn(1000)), -1)
		judge("other-key", other.pub, good, 0, -1)
		for _, n := range []int{0, 1, 31, 33, 64} {
			k := append(append([]byte{}, s.pub...), s.pub...)[:n]
			judge(fmt.Sprintf("key-length/%d", n), k, good, 0, map[bool]int{n < 32: -1}[true])
		}
		// made by the code
		sm := sortedmap.StringMap(m)
		var priv [64]byte
		copy(priv[:], s.priv)
		t.NoPanic("generate-panic", m, func() {
			b, err := sm.GenerateCertificate(&priv)
			if err != nil {
				t.Violation("generate", fmt.Sprint(err))
				return
			}
			got, err := sortedmap.Unmarshal(b)
			if err != nil || !sameMap(got.Config, m) || !ed25519.Verify(s.pub, image(m, got.SignDate), got.Signature) {
				t.Violation("generate/signature", string(b))
			} else {
				s.signed[string(image(m, got.SignDate))] = true
			}
			judge("generated", s.pub, b, 0, 1)
			so := sm.Sort()
			if !sort.IsSorted(so) || !sameMap(so.ToMap(), m) {
				t.Violation("sort", fmt.Sprint(so))
			}
		})
		// dates
		for _, d := range []int64{-maxAge - 2, -maxAge - 1000, -86400 * 365, maxAge + 20, maxAge + 100000, -maxAge + 20, maxAge - 20} {
			dt := uint64(int64(now()) + d)
			want := 1
			if d < -maxAge || d > maxAge {
				want = -1
			}
			judge(fmt.Sprintf("date/%d", d), s.pub, cert(m, s.sign(m, dt), dt), 0, want)
		}
		for _, dt := range []uint64{0, 1, 1 << 63, 1<<64 - 1, 1<<64 - maxAge} {
			judge(fmt.Sprintf("date/%d", dt), s.pub, cert(m, s.sign(m, dt), dt), 0, -1)
		}
		for _, d := range []int64{1, -1, 3600, 1 << 32, 256} {
			judge("other-date", s.pub, cert(m, sig, uint64(int64(date)+d)), 0, -1)
		}
		// signatures
		for i := 0; i < 24; i++ {
			x := append([]byte{}, sig...)
			x[rng.Intn(len(x))] ^= 1 << uint(rng.Intn(8))
			judge("sig-bit", s.pub, cert(m, x, date), 0, -1)
		}
		for _, n := range []int{0, 1, 32, 63} {
			judge(fmt.Sprintf("sig-length/%d", n), s.pub, cert(m, sig[:n], date), 0, -1)
		}
		judge("sig-longer", s.pub, cert(m, append(append([]byte{}, sig...), 0), date), 0, -1)
		judge("sig-zero", s.pub, cert(m, make([]byte, 64), date), 0, -1)
		judge("sig-other", s.pub, cert(m, other.sign(m, date), date), 0, -1)
		judge("sig-image", s.pub, cert(m, ed25519.Sign(s.priv, image(m, date)[:64]), date), 0, -1)
		// entries
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		edit := func(kind string, f func(m map[string]string)) {
			x := copyMap(m)
			f(x)
			want := -1
			if sameMap(x, m) {
				want = 1
			}
			judge(kind, s.pub, cert(x, sig, date), 0, want)
		}
		edit("added", func(m map[string]string) { m["walletrpc.ServiceURL"] = "evil" })
		edit("added-empty", func(m map[string]string) { m["x"+strconv.Itoa(rng.Int())] = "" })
		for _, k := range keys {
			k := k
			edit("removed", func(m map[string]string) { delete(m, k) })
			edit("value", func(m map[string]string) { m[k] += "x" })
			edit("value-cut", func(m map[string]string) {
				if v := m[k]; v != "" {
					r := []rune(v)
					m[k] = string(r[:len(r)-1])
				}
			})
			edit("key", func(m map[string]string) { v := m[k]; delete(m, k); m[k+"x"] = v })
			edit("key-swapped", func(m map[string]string) { v := m[k]; delete(m, k); m[v] = k })
			edit("shift-right", func(m map[string]string) {
				if r := []rune(k); len(r) > 0 {
					v := m[k]
					delete(m, k)
					m[string(r[:len(r)-1])] = string(r[len(r)-1:]) + v
				}
			})
			edit("shift-left", func(m map[string]string) {
				if r := []rune(m[k]); len(r) > 0 {
					delete(m, k)
					m[k+string(r[:1])] = string(r[1:])
				}
			})
			edit("exchanged", func(m map[string]string) {
				o := keys[rng.Intn(len(keys))]
				m[k], m[o] = m[o], m[k]
			})
			edit("merged", func(m map[string]string) {
				o := keys[rng.Intn(len(keys))]
				if o != k {
					v := m[k] + o + m[o]
					delete(m, o)
					m[k] = v
				}
			})
		}
		// bits, and other texts
		for i := 0; i < 40; i++ {
			x := append([]byte{}, good...)
			x[rng.Intn(len(x))] ^= 1 << uint(rng.Intn(8))
			judge("bit", s.pub, x, 0, 0)
		}
		for i := 0; i < 8; i++ {
			n := rng.Intn(len(good))
			judge("cut", s.pub, good[:n], 0, -1)
			judge("deleted", s.pub, append(append([]byte{}, good[:n]...), good[n+1:]...), 0, 0)
		}
		b64 := base64.StdEncoding.EncodeToString(sig)
		js := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
		for i, x := range []string{
			"", "null", "[]", "{}", "0", `"x"`, "{", string(good) + string(good), string(good) + "x",
			fmt.Sprintf(`{"Config":null,"Signature":%q,"SignDate":%d}`, b64, date),
			fmt.Sprintf(`{"Config":[],"Signature":%q,"SignDate":%d}`, b64, date),
			fmt.Sprintf(`{"Config":%s,"Config":{"evil":"x"},"Signature":%q,"SignDate":%d}`, js(m), b64, date),
			fmt.Sprintf(`{"Config":{"evil":"x"},"config":%s,"Signature":%q,"SignDate":%d}`, js(m), b64, date),
			fmt.Sprintf(`{"Config":{"evil":1},"Signature":%q,"SignDate":%d}`, b64, date),
			fmt.Sprintf(`{"Config":%s,"Signature":null,"SignDate":%d}`, js(m), date),
			fmt.Sprintf(`{"Config":%s,"SignDate":%d}`, js(m), date),
			fmt.Sprintf(`{"Config":%s,"Signature":%q}`, js(m), b64),
			fmt.Sprintf(`{"Config":%s,"Signature":%q,"SignDate":-1}`, js(m), b64),
			fmt.Sprintf(`{"Config":%s,"Signature":%q,"SignDate":1e300}`, js(m), b64),
			fmt.Sprintf(`{"Config":%s,"Signature":%q,"SignDate":"%d"}`, js(m), b64, date),
			fmt.Sprintf(`{"Config":%s,"Signature":%q,"SignDate":%d.5}`, js(m), b64, date),
			fmt.Sprintf(`{"Config":%s,"Signature":%q,"SignDate":%d,"SignDate":%d}`, js(m), b64, date, date+1),
		} {
			want := -1
			if i == 9 && len(m) == 0 {
				want = 0
			}
			judge(fmt.Sprintf("text/%d", i), s.pub, []byte(x), 0, want)
		}
	}
	// a signature which holds for a key of zeros
	ident := make([]byte, 64)
	ident[0] = 1
	m := map[string]string{"evil": "x"}
	n := 0
	for d := now() - 200; d < now(); d++ {
		if ed25519.Verify(make([]byte, 32), image(m, d), ident) {
			n++
			judge("no-key", nil, cert(m, ident, d), 0, -1)
			judge("short-key", make([]byte, 5), cert(m, ident, d), 0, -1)
		}
	}
	t.CountN("signatures without key", int64(n))
}
