package main

import (
	"bytes"
	"math/rand"
	"strings"
	"unicode"

	"github.com/mattn/go-runewidth"
)

// char is a character of a text: a rune and those which combine with it.
type char struct {
	runes []rune
	width int
}

// text is the oracle's view of a text.
type text struct {
	lines [][]char
	width int // of the widest line, in cells
}

// parse splits a text into characters.
func parse(b []byte) *text {
	x := &text{}
	for _, row := range bytes.Split(b, []byte{'\n'}) {
		var l []char
		w := 0
		for _, r := range string(row) {
			n := runewidth.RuneWidth(r)
			if n == 0 {
				if len(l) == 0 {
					l = append(l, char{[]rune{' '}, 1})
					w++
				}
				l[len(l)-1].runes = append(l[len(l)-1].runes, r)
				continue
			}
			l = append(l, char{[]rune{r}, n})
			w += n
		}
		x.lines = append(x.lines, l)
		if w > x.width {
			x.width = w
		}
	}
	return x
}

// String is the text as it is written back.
func (x *text) String() string {
	var b strings.Builder
	for i, l := range x.lines {
		if i > 0 {
			b.WriteByte('\n')
		}
		for _, c := range l {
			b.WriteString(string(c.runes))
		}
	}
	return b.String()
}

// shown is what a terminal shows of a character: control characters are not
// part of it, they would command the terminal.
func (c char) shown() string {
	return strings.Map(func(r rune) rune {
		if unicode.IsControl(r) {
			return -1
		}
		return r
	}, string(c.runes))
}

// window returns the columns of row y of a window of the given width at
// column left. The second half of a wide character is empty.
func (x *text) window(y, left, width int) []string {
	out := make([]string, width)
	for i := range out {
		out[i] = " "
	}
	if y < 0 || y >= len(x.lines) {
		return out
	}
	at := -left
	for _, c := range x.lines[y] {
		if at >= 0 && at+c.width <= width {
			out[at] = c.shown()
			if c.width == 2 {
				out[at+1] = ""
			}
		}
		at += c.width
	}
	return out
}

// half tells whether a cell is the second half of a wide character.
func (x *text) half(cx, cy int) bool {
	if cy >= len(x.lines) {
		return false
	}
	at := 0
	for _, c := range x.lines[cy] {
		if c.width == 2 && at+1 == cx {
			return true
		}
		at += c.width
	}
	return false
}

var sequences = []string{
	"\x1b[2J", "\x1b[1;1H", "\x1b]0;title\x07", "\x1b]52;c;aGk=\x07", "\x1bc", "\x1b[31m", "\x1b[?1049l", "\x1bP$q\x1b\\", "\x9b2J", "\u009b2J", "\u009d0;t\u009c", "\x1b[6n", "\x1b[c",
}

func pick(r *rand.Rand, of []rune) rune { return of[r.Intn(len(of))] }

// random makes a text.
func random(r *rand.Rand, lines, width int) []byte {
	var b bytes.Buffer
	n := r.Intn(lines + 1)
	kind := r.Intn(6)
	for i := 0; i <= n; i++ {
		if i > 0 {
			b.WriteByte('\n')
		}
		if r.Intn(6) == 0 {
			continue
		}
		for j := r.Intn(width + 1); j > 0; j-- {
			k := r.Intn(12)
			if kind == 0 {
				k = 0
			}
			switch k {
			default:
				b.WriteByte(byte(' ' + r.Intn(95)))
			case 5:
				b.WriteRune(pick(r, []rune("äöüßéñ€→–“”«»…§±×÷·")))
			case 6, 7:
				b.WriteRune(pick(r, []rune("世界한글テスト，。🔒😀＠Ａ")))
			case 8:
				b.WriteRune(pick(r, []rune{0x301, 0x308, 0x323, 0x20d7, 0xfe0f, 0x200d, 0x200b, 0x5b0, 0x202e, 0xad}))
			case 9:
				if kind == 1 || kind == 2 {
					b.WriteByte(byte(0x80 + r.Intn(128)))
				} else if kind == 3 {
					b.WriteRune(rune(r.Intn(0x110000)))
				}
			case 10:
				switch {
				case kind == 1:
					b.WriteString(sequences[r.Intn(len(sequences))])
				case kind == 4 || kind == 2:
					b.WriteRune(pick(r, []rune{'\t', '\r', 0x1b, 0x07, 0x08, 0x0e, 0x7f, 0x85, 0x9b, 0, 0x0c, 0x0b}))
				}
			}
		}
	}
	if kind == 5 && r.Intn(2) == 0 {
		b.WriteByte('\n')
	}
	return b.Bytes()
}
