package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/mutecomm/mute/uid/identity"
	"verif/harness/mon"
)

var u04 = &mon.Prop{
	Level:     "exploration",
	Rule:      "identities from an alphabet of legal, look-alike, upper-case, separator, space and Unicode characters with lengths around all limits, compared with an independent implementation of the mapping rules; one evaluation is one identity; non-trivial cases are those with exactly one @ (the rest is refused at once)",
	MinEvents: 20000,
	Run:       runU04,
}

// want is the specification: the mapped local part, or false.
func want(lp string) (string, bool) {
	lp = strings.ToLower(strings.TrimSpace(lp))
	var out []byte
	for _, r := range lp {
		switch {
		case r == '0':
			r = 'o'
		case r == '1':
			r = 'l'
		case r == 'j':
			r = 'i'
		}
		if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyz0123456789-.", r) {
			return "", false
		}
		out = append(out, byte(r))
	}
	if len(out) < 3 || len(out) > 64 {
		return "", false
	}
	sep := func(b byte) bool { return b == '.' || b == '-' }
	for i, b := range out {
		if sep(b) && (i == 0 || i == len(out)-1 || sep(out[i+1])) {
			return "", false
		}
	}
	return string(out), true
}

var pieces = []string{"a", "b", "z", "m", "i", "j", "l", "o", "0", "1", "2", "9", "A", "J", "O", "Z", ".", "-", "..", ".-", "-.", "--", " ", "_", "+", "@", "\x00", "\t", "ä", "ß", "K", "Ⱥ", "İ", "ſ", "а", "\u00a0", "\xff", "ab", "john", "mute"}

func randLP(rng *rand.Rand) string {
	n := rng.Intn(9)
	if rng.Intn(8) == 0 {
		n = 60 + rng.Intn(8)
	}
	clean := rng.Intn(2) == 0
	var s strings.Builder
	for i := 0; i < n; i++ {
		if clean || rng.Intn(6) > 0 {
			s.WriteString(pieces[rng.Intn(16)])
			if rng.Intn(9) == 0 {
				s.WriteString([]string{".", "-"}[rng.Intn(2)])
			}
		} else {
			s.WriteString(pieces[rng.Intn(len(pieces))])
		}
	}
	return s.String()
}

func randDomain(rng *rand.Rand, used int) string {
	switch rng.Intn(8) {
	case 0:
		n := 254 - used - 1 + rng.Intn(5) - 2
		if n < 1 {
			n = 1
		}
		return strings.Repeat("x", n)
	case 1:
		n := 252 - used - 1 - rng.Intn(4)
		if n < 1 {
			n = 1
		}
		return strings.Repeat("x", n) + []string{"Ⱥ", "K", "İ", "Ⱦ"}[rng.Intn(4)]
	case 2:
		return "MUTE.Berlin"
	case 3:
		return "a" + pieces[rng.Intn(len(pieces))] + ".org"
	}
	return fmt.Sprintf("d%d.example", rng.Intn(50))
}

func runU04(t *mon.T) {
	rng := t.Rand("ids")
	n := t.N(150000, 4000000)
	for c := 0; c < n && t.Violations() < 15; c++ {
		lp := randLP(rng)
		id := lp + "@" + randDomain(rng, len(lp))
		if rng.Intn(50) == 0 {
			id = strings.Replace(id, "@", "", 1)
		}
		judge(t, rng, id)
	}
	for _, id := range []string{"", "@", "@@", "a@b", "abc@", "abc@x", strings.Repeat("a", 64) + "@" + strings.Repeat("x", 189), strings.Repeat("a", 64) + "@" + strings.Repeat("x", 190)} {
		judge(t, rng, id)
	}
}

func judge(t *mon.T, rng *rand.Rand, id string) {
	parts := strings.Split(id, "@")
	key := ""
	if len(parts) == 2 {
		key = id
	}
	t.Eval(key)
	var m, m2, d2 string
	var err, err2 error
	if !t.NoPanic("panic", id, func() {
		m, err = identity.Map(id)
		m2, d2, err2 = identity.MapPlus(id)
	}) {
		return
	}
	exp, ok := "", false
	if len(parts) == 2 && len(id) <= 254 {
		if exp, ok = want(parts[0]); ok {
			exp += "@" + strings.ToLower(parts[1])
			ok = len(exp) <= 254
		}
	}
	if (err == nil) != ok || (err == nil && m != exp) {
		t.Violation("map", fmt.Sprintf("Map(%q) = %q, %v; expected %q %v", id, m, err, exp, ok))
		return
	}
	if (err2 == nil) != (err == nil) || (err == nil && (m2 != m || d2 != strings.Split(m, "@")[1])) {
		t.Violation("mapplus", fmt.Sprintf("MapPlus(%q) = %q, %q, %v; Map gives %q %v", id, m2, d2, err2, m, err))
	}
	if !ok {
		t.Count("refused")
		t.Checkf(identity.IsMapped(id) != nil, "ismapped/refused", "IsMapped(%q)", id)
		return
	}
	t.Count("mapped")
	t.Sample("mapped", map[string]interface{}{"identity": id, "mapped": m})
	// idempotent, and only fixed points count as mapped
	mm, err := identity.Map(m)
	t.Checkf(err == nil && mm == m, "idempotent", "Map(Map(%q)) = %q, %v", id, mm, err)
	t.Checkf(identity.IsMapped(m) == nil, "ismapped", "Map(%q) = %q is not mapped", id, m)
	t.Checkf((identity.IsMapped(id) == nil) == (id == m), "ismapped/exact", "IsMapped(%q) although it maps to %q", id, m)
	// look-alikes and case give the same identity
	alt := []rune(parts[0])
	for i, r := range alt {
		switch r {
		case 'o', 'O', '0':
			alt[i] = []rune("oO0")[rng.Intn(3)]
		case 'l', 'L', '1':
			alt[i] = []rune("lL1")[rng.Intn(3)]
		case 'i', 'I', 'j', 'J':
			alt[i] = []rune("iIjJ")[rng.Intn(4)]
		default:
			if r < 128 && rng.Intn(2) == 0 {
				alt[i] = []rune(strings.ToUpper(string(r)))[0]
			}
		}
	}
	a, err := identity.Map(string(alt) + "@" + parts[1])
	if len(string(alt)+"@"+parts[1]) <= 254 {
		t.Checkf(err == nil && a == m, "lookalike", "%q and %q are look-alikes but map to %q and %q (%v)", id, string(alt)+"@"+parts[1], m, a, err)
		t.Count("lookalike")
	}
}
