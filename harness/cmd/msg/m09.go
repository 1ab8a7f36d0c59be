package main

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"path"
	"reflect"
	"strings"
	"time"
	"unicode"

	"verif/harness/mon"

	"github.com/mutecomm/mute/msg/mime"
)

var m09 = &mon.Prop{
	Level: "exploration",
	Rule: "messages with and without subjects, texts of any content, up to many attachments with all kinds of names and types are encoded, split into chunks of any size, put together again in any order and parsed; encoded messages and chunks are cut and damaged; " +
		"one evaluation is one encoded message, chunk or damaged message which was taken apart",
	MinEvents: 2000,
	Run:       runM09,
}

// piece is text made of parts which are special to some layer.
var special = []string{
	"\r\n", "\n", "\r", "\n\n", "\r\n\r\n", "--", "\r\n--", "=?utf-8?q?a=62c?=", "=?", "?=", "=", "\"", "\\", ";", ":", ",", " ", "\t",
	"ü", "ᚠᛇᚻ", "𝄞", "\x00", "\x1b", "\xff", "%20", "*0*=", "filename=", "..", "/", "boundary=", "Subject: x", "<a@b>", "{", "'",
}

func freeText(rng *rand.Rand, n int) string {
	var b strings.Builder
	for b.Len() < n {
		if rng.Intn(3) == 0 {
			b.WriteString(special[rng.Intn(len(special))])
		} else {
			for k := rng.Intn(12); k >= 0; k-- {
				b.WriteByte("abcdefghijklmnopqrstuvwxyz 0123456789ABC"[rng.Intn(40)])
			}
		}
	}
	return b.String()
}

// line is text without line breaks and other control characters.
func line(rng *rand.Rand, n int) string {
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) || r == unicode.ReplacementChar {
			return -1
		}
		return r
	}, freeText(rng, n))
}

func person(rng *rand.Rand) string {
	return fmt.Sprintf("%c%c%d.x-%c@mute%d.example.org", 'a'+rng.Intn(26), 'a'+rng.Intn(26), rng.Intn(100), 'a'+rng.Intn(26), rng.Intn(10))
}

type attached struct {
	name, ct, want string // want is the content type which must arrive, if known
	inline         bool
	data           []byte
}

// slowReader gives a few bytes at a time.
type slowReader struct {
	r   io.Reader
	rng *rand.Rand
}

func (s slowReader) Read(p []byte) (int, error) {
	if len(p) > 0 {
		p = p[:1+s.rng.Intn(len(p))]
	}
	return s.r.Read(p)
}

// broken fails after its content.
type broken struct{ r io.Reader }

func (b broken) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("broken")
	}
	return n, err
}

func sizeOf(rng *rand.Rand, t *mon.T) int {
	switch rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return 1 + rng.Intn(4)
	case 7:
		return rng.Intn(t.N(60000, 400000))
	}
	return rng.Intn(2000)
}

func newHeader(rng *rand.Rand) mime.Header {
	h := mime.Header{From: person(rng), To: person(rng), MessageID: fmt.Sprintf("%x.%x@mute.example.org", rng.Int63(), rng.Int63())}
	for i := rng.Intn(4); i > 0; i-- {
		h.Cc = append(h.Cc, person(rng))
	}
	if rng.Intn(2) == 0 {
		h.InReplyTo = fmt.Sprintf("%x@mute.example.org", rng.Int63())
	}
	return h
}

func runM09(t *mon.T) {
	rng := t.Rand("mime")
	types := []string{"application/octet-stream", "text/plain; charset=utf-8", "image/png", "application/x-very-strange", "text/plain"}
	for c := 0; c < t.N(700, 6000); c++ {
		h := newHeader(rng)
		subject := line(rng, rng.Intn(80))
		if c%7 == 0 {
			subject = ""
		}
		if c%11 == 3 {
			subject = strings.Repeat(line(rng, 40), 30)
		}
		text := subject
		if c%5 != 0 {
			text += "\n" + freeText(rng, sizeOf(rng, t))
		}
		if c%13 == 5 { // typed on another system
			text = subject + "\r\n" + freeText(rng, 20)
		}
		var in []*mime.Attachment
		var want []attached
		for i := rng.Intn(4) * rng.Intn(3); i > 0; i-- {
			a := attached{name: fileName(rng), inline: rng.Intn(3) == 0}
			a.data = make([]byte, sizeOf(rng, t))
			rng.Read(a.data)
			if rng.Intn(2) == 0 {
				a.ct = types[rng.Intn(len(types))]
				a.want = a.ct
			}
			var r io.Reader = bytes.NewReader(a.data)
			if rng.Intn(3) == 0 {
				r = slowReader{r, rand.New(rand.NewSource(rng.Int63()))}
			}
			dir := []string{"", "", "/home/x/", "../"}[rng.Intn(4)]
			in = append(in, &mime.Attachment{Filename: dir + a.name, Reader: r, ContentType: a.ct, Inline: a.inline})
			want = append(want, a)
		}
		info := map[string]interface{}{"case": c, "header": h, "subject": subject, "textlen": len(text), "attachments": len(want)}
		t.Case(info)
		fails := len(in) > 0 && c%9 == 4
		if fails {
			i := rng.Intn(len(in))
			in[i].Reader = broken{in[i].Reader}
		}
		var out bytes.Buffer
		err := mime.New(&out, h, text, in)
		if fails {
			t.Checkf(err != nil, "new/broken-attachment", "an attachment which cannot be read is encoded without error")
			t.Eval(fmt.Sprint("broken", c))
			t.Count("attachments which fail")
			continue
		}
		if err != nil {
			t.Violation("new/error", err.Error())
			continue
		}
		whole := out.String()
		// as it is
		checkParsed(t, "whole", whole, h, text, want)
		t.Eval(fmt.Sprint("whole", c))
		t.Count("messages")
		t.CountN("attachments", int64(len(want)))
		// in chunks
		size := uint64(1 + rng.Intn(len(whole)+10))
		if uint64(len(whole))/size > 60 {
			size = uint64(len(whole)/60 + 1)
		}
		chunks, err := mime.EncodeChunks(h, whole, size)
		if err != nil {
			t.Violation("chunks/error", err.Error())
			continue
		}
		n := (uint64(len(whole)) + size - 1) / size
		t.Checkf(uint64(len(chunks)) == n, "chunks/number", "%d chunks of at most %d bytes for %d bytes, want %d", len(chunks), size, len(whole), n)
		parts := make([]string, len(chunks))
		for _, i := range rng.Perm(len(chunks)) {
			var (
				hd           *mime.Header
				part         string
				piece, count uint64
			)
			t.NoPanic("chunk", fmt.Sprint(i), func() { hd, part, piece, count, err = mime.DecodeChunk(chunks[i]) })
			if err != nil {
				t.Violation("chunk/error", err.Error())
				break
			}
			t.Checkf(sameHeader(*hd, h), "chunk/header", "%v, want %v", *hd, h)
			t.Checkf(piece == uint64(i+1) && count == n, "chunk/piece", "chunk %d of %d says %d of %d", i+1, n, piece, count)
			t.Checkf(uint64(len(part)) <= size, "chunk/size", "%d bytes in a chunk of at most %d", len(part), size)
			if piece >= 1 && piece <= uint64(len(parts)) {
				parts[piece-1] = part
			}
			t.Eval(fmt.Sprint("chunk", c, i))
			t.Count("chunks")
		}
		again := strings.Join(parts, "")
		if again != whole {
			t.Violation("chunks/content", fmt.Sprintf("the chunks of a message make another one: %d bytes, want %d", len(again), len(whole)))
		}
		// damaged
		for d := 0; d < 6; d++ {
			damageMIME(t, rng, c, d, whole, chunks, h)
		}
	}
	for c := 0; c < t.N(2000, 20000); c++ {
		s := freeText(rng, rng.Intn(60))
		var subject, message string
		t.NoPanic("split", s, func() { subject, message = mime.SplitMessage(s) })
		i := strings.IndexByte(s, '\n')
		wantS, wantM := s, ""
		if i >= 0 {
			wantS, wantM = s[:i], s[i+1:]
		}
		for strings.HasSuffix(wantS, "\r") {
			wantS = wantS[:len(wantS)-1]
		}
		t.Checkf(subject == wantS && message == wantM, "split/wrong", "%q: %q and %q", s, subject, message)
		t.Eval("split" + s)
		t.Count("splits")
	}
}

func fileName(rng *rand.Rand) string {
	names := []string{"message.txt", "a.png", "with space.pdf", "semi;colon.txt", "quo\"te.txt", "back\\slash.txt", "üml.txt", "ᚠᛇᚻ.pdf", "noextension", "a=b.txt", "comma,.txt",
		".hidden", "%41.txt", "'x'.txt", "per%cent", "(parens).html", "UPPER.JPG", "a:b", "x*y", "[z]?.txt", "@.gif", "<tag>.xml", " lead.txt", "trail.txt "}
	if rng.Intn(4) > 0 {
		return names[rng.Intn(len(names))]
	}
	n := strings.Replace(line(rng, 1+rng.Intn(60)), "/", "_", -1)
	if n == "" || n == "." || n == ".." {
		n = "x"
	}
	return n
}

func sameHeader(a, b mime.Header) bool {
	if len(a.Cc) == 0 && len(b.Cc) == 0 {
		a.Cc, b.Cc = nil, nil
	}
	return reflect.DeepEqual(a, b)
}

func checkParsed(t *mon.T, kind, s string, h mime.Header, text string, want []attached) {
	var (
		hd          *mime.Header
		subject, m  string
		attachments []*mime.Attachment
		err         error
	)
	t.NoPanic(kind+"/parse", fmt.Sprint(len(s)), func() { hd, subject, m, attachments, err = mime.Parse(strings.NewReader(s)) })
	if err != nil {
		t.Violation(kind+"/error", fmt.Sprintf("%v; text %.60q", err, text))
		return
	}
	if hd == nil {
		return
	}
	t.Checkf(sameHeader(*hd, h), kind+"/header", "%v, want %v", *hd, h)
	wantS, _ := mime.SplitMessage(text)
	t.Checkf(subject == wantS, kind+"/subject", "%q, want %q", subject, wantS)
	t.Checkf(m == text, kind+"/text", "text differs: %.80q, want %.80q", m, text)
	if !t.Checkf(len(attachments) == len(want), kind+"/attachments", "%d attachments, want %d", len(attachments), len(want)) {
		return
	}
	for i, a := range attachments {
		w := want[i]
		t.Checkf(a.Filename == path.Base(w.name), kind+"/filename", "%q, want %q", a.Filename, w.name)
		t.Checkf(a.ContentType != "" && (w.want == "" || a.ContentType == w.want), kind+"/type", "%q, want %q", a.ContentType, w.want)
		t.Checkf(a.Inline == w.inline, kind+"/inline", "%v, want %v", a.Inline, w.inline)
		b, err := io.ReadAll(a.Reader)
		t.Checkf(err == nil && bytes.Equal(b, w.data), kind+"/data", "%d bytes, %v, want %d", len(b), err, len(w.data))
	}
}

// damage takes a damaged message or chunk apart; a message which is cut is
// never taken for a whole one.
func damageMIME(t *mon.T, rng *rand.Rand, c, d int, whole string, chunks []string, h mime.Header) {
	chunk := len(chunks) > 0 && d%2 == 1
	s := whole
	if chunk {
		s = chunks[rng.Intn(len(chunks))]
	}
	end := strings.LastIndex(s, "--") // of the last boundary
	if end < 0 {
		return
	}
	kind := ""
	cut := false
	switch {
	case d < 2:
		kind = "cut"
		s, cut = s[:rng.Intn(end+1)], true
	case d < 4:
		kind = "bytes"
		b := []byte(s)
		for k := 1 + rng.Intn(3); k > 0; k-- {
			b[rng.Intn(len(b))] = "\x00\n\r-=:;\"a\xff"[rng.Intn(10)]
		}
		s = string(b)
	default:
		kind = "line"
		l := strings.SplitAfter(s, "\n")
		i := rng.Intn(len(l))
		if i > 20 && rng.Intn(2) == 0 {
			i = rng.Intn(20)
		}
		switch rng.Intn(3) {
		case 0:
			l = append(l[:i], l[i+1:]...)
		case 1:
			l[i] = l[rng.Intn(len(l))] + l[i]
		case 2:
			l[i] = []string{"\r\n", "Content-Type: x\r\n", "Content-Disposition: ;;\r\n", "Content-Type: multipart/mixed\r\n", "--\r\n", "Content-Type: chunked; piece=-1; count=99999999999999999999\r\n", "Cc: @\r\n"}[rng.Intn(7)]
		}
		s = strings.Join(l, "")
	}
	name := "damaged/" + kind
	var err error
	if chunk {
		name += "/chunk"
		var hd *mime.Header
		if t.Finishes(name, fmt.Sprintf("%.300q", s), 20*time.Second, func() {
			t.NoPanic(name, base64.StdEncoding.EncodeToString([]byte(s)), func() { hd, _, _, _, err = mime.DecodeChunk(s) })
		}); cut {
			t.Checkf(err != nil && hd == nil, name+"/taken", "a cut chunk was taken: %.300q", s)
		}
	} else {
		if t.Finishes(name, fmt.Sprintf("%.300q", s), 20*time.Second, func() {
			t.NoPanic(name, base64.StdEncoding.EncodeToString([]byte(s)), func() { _, _, _, _, err = mime.Parse(strings.NewReader(s)) })
		}); cut {
			t.Checkf(err != nil, name+"/taken", "a cut message was taken: %.200q … %q", s, s[maxi(0, len(s)-150):])
		}
	}
	if err != nil {
		t.Count(name + "/refused")
	} else {
		t.Count(name + "/taken")
	}
	t.Eval(fmt.Sprint("damage", c, d))
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}
