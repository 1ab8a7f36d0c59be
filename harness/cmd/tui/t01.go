package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/gdamore/tcell"
	"github.com/mattn/go-runewidth"
	"github.com/mutecomm/mute/tui/editor"
	"github.com/mutecomm/mute/tui/textbuffer"

	"verif/harness/mon"
)

var t01 = &mon.Prop{
	Level:     "exploration",
	Rule:      "texts (ASCII, combining and wide characters, invalid UTF-8, control characters and escape sequences) are put into a text buffer, whose views are compared with an independent reading of the text, and into the editor widget on a simulated screen, whose cells are compared with the window which the keys pressed so far lead to; the pager itself runs on a pseudo terminal, whose output is interpreted by a terminal emulator which knows the commands a pager needs and no others",
	MinEvents: 1000,
	Run: func(t *mon.T) {
		for i := t.N(3000, 60000); i > 0; i-- {
			buffer(t, t.Rand("buffer", i))
		}
		for i := t.N(400, 8000); i > 0; i-- {
			// the width of some characters depends on the language
			runewidth.DefaultCondition.EastAsianWidth = i%5 == 0
			i := i
			if !t.Finishes("widget/hang", i, time.Minute, func() { widget(t, t.Rand("widget", i)) }) {
				return
			}
		}
		runewidth.DefaultCondition.EastAsianWidth = false
		pagers(t)
	},
}

// short is a writer which fails after some bytes.
type short struct {
	left int
	buf  bytes.Buffer
}

var errShort = errors.New("no space left")

func (s *short) Write(p []byte) (int, error) {
	if len(p) > s.left {
		s.buf.Write(p[:s.left])
		n := s.left
		s.left = 0
		return n, errShort
	}
	s.left -= len(p)
	return s.buf.Write(p)
}

// buffer compares the views of a text buffer with the text.
func buffer(t *mon.T, r *rand.Rand) {
	b := random(r, 8, 12)
	keep := string(b)
	x := parse(b)
	what := fmt.Sprintf("%q", b)
	t.Case("buffer")
	defer func() {
		if e := recover(); e != nil {
			t.Violation("buffer/panic", fmt.Sprintf("%s: %v", what, e))
		}
	}()
	tb := textbuffer.New(b)
	t.Eval("buffer")
	bad := func(key, f string, a ...interface{}) {
		t.Violation("buffer/"+key, what+": "+fmt.Sprintf(f, a...))
	}
	if string(b) != keep {
		bad("input", "the text was altered")
	}
	if tb.Lines() != len(x.lines) {
		bad("lines", "%d lines", tb.Lines())
		return
	}
	if tb.MaxLineLenCell() != x.width {
		bad("width", "width %d, want %d", tb.MaxLineLenCell(), x.width)
	}
	for y, l := range x.lines {
		var runes []rune
		cells := 0
		for i, c := range l {
			if got := tb.GetChar(i, y); string(got) != string(c.runes) {
				bad("char", "character %d,%d is %q, want %q", i, y, string(got), string(c.runes))
			}
			got, w := tb.GetCell(cells, y)
			if string(got) != string(c.runes) || w != c.width {
				bad("cell", "cell %d,%d is %q of width %d, want %q, %d", cells, y, string(got), w, string(c.runes), c.width)
			}
			if c.width == 2 {
				got, w := tb.GetCell(cells+1, y)
				if string(got) != string(c.runes) || w != 0 {
					bad("cell", "cell %d,%d is %q of width %d, want the second half of %q", cells+1, y, string(got), w, string(c.runes))
				}
			}
			runes = append(runes, c.runes...)
			cells += c.width
		}
		for i, c := range runes {
			if got := tb.GetRune(i, y); got != c {
				bad("rune", "rune %d,%d is %q, want %q", i, y, got, c)
			}
		}
		if tb.LineLenRune(y) != len(runes) || tb.LineLenChar(y) != len(l) || tb.LineLenCell(y) != cells {
			bad("length", "line %d has lengths %d, %d, %d, want %d, %d, %d", y, tb.LineLenRune(y), tb.LineLenChar(y), tb.LineLenCell(y), len(runes), len(l), cells)
		}
		for d := 0; d < 2; d++ {
			c, w := tb.GetCell(cells+d, y)
			if tb.GetRune(len(runes)+d, y) != utf8.RuneError || tb.GetChar(len(l)+d, y) != nil || c != nil || w != 0 {
				bad("beyond", "something behind the end of line %d", y)
			}
		}
	}
	for y := len(x.lines); y < len(x.lines)+2; y++ {
		c, w := tb.GetCell(0, y)
		if tb.GetRune(0, y) != utf8.RuneError || tb.GetChar(0, y) != nil || c != nil || w != 0 ||
			tb.LineLenRune(y) != 0 || tb.LineLenChar(y) != 0 || tb.LineLenCell(y) != 0 {
			bad("beyond", "something behind the last line")
		}
	}
	want := x.String()
	var out bytes.Buffer
	if err := tb.Write(&out); err != nil || out.String() != want {
		bad("write", "written back as %q (%v), want %q", out.String(), err, want)
	}
	if len(want) > 0 {
		s := &short{left: r.Intn(len(want))}
		if err := tb.Write(s); err == nil || !strings.HasPrefix(want, s.buf.String()) {
			bad("short", "writing failed after %d bytes: %v, %q", s.buf.Len(), err, s.buf.String())
		}
	}
	t.CountN("lines", int64(len(x.lines)))
}

// state is what a user expects of the editor.
type state struct {
	x          *text
	w, h       int // of the window
	left, top  int
	cx, cy     int
	cursor     bool
	hidden     bool
	wasVisible bool
}

func clamp(v, low, high int) int {
	if v > high {
		v = high
	}
	if v < low {
		v = low
	}
	return v
}

// fit keeps the window over the text.
func (s *state) fit() {
	s.left = clamp(s.left, 0, s.x.width-s.w)
	s.top = clamp(s.top, 0, len(s.x.lines)-s.h)
}

// follow moves the window as far as needed to show the cursor.
func (s *state) follow() {
	if s.cursor {
		s.left = clamp(s.left, s.cx-s.w+1, s.cx)
		s.top = clamp(s.top, s.cy-s.h+1, s.cy)
	}
	s.fit()
}

// move is a key which moves by columns and rows.
func (s *state) move(dx, dy int) {
	if !s.cursor {
		s.left += dx
		s.top += dy
		s.fit()
		return
	}
	s.cx = clamp(s.cx+dx, 0, s.x.width-1)
	s.cy = clamp(s.cy+dy, 0, len(s.x.lines)-1)
	s.follow()
}

type key struct {
	name string
	code tcell.Key
	r    rune
	seq  string // as sent by a terminal
	do   func(s *state)
}

const far = 1 << 20

var keys = []key{
	{"up", tcell.KeyUp, 0, "\x1bOA", func(s *state) { s.move(0, -1) }},
	{"down", tcell.KeyDown, 0, "\x1bOB", func(s *state) { s.move(0, 1) }},
	{"right", tcell.KeyRight, 0, "\x1bOC", func(s *state) { s.move(1, 0) }},
	{"left", tcell.KeyLeft, 0, "\x1bOD", func(s *state) { s.move(-1, 0) }},
	{"k", tcell.KeyRune, 'k', "k", func(s *state) { s.move(0, -1) }},
	{"j", tcell.KeyRune, 'j', "j", func(s *state) { s.move(0, 1) }},
	{"l", tcell.KeyRune, 'l', "l", func(s *state) { s.move(1, 0) }},
	{"h", tcell.KeyRune, 'h', "h", func(s *state) { s.move(-1, 0) }},
	{"^P", tcell.KeyCtrlP, 0, "\x10", func(s *state) { s.move(0, -1) }},
	{"^N", tcell.KeyCtrlN, 0, "\x0e", func(s *state) { s.move(0, 1) }},
	{"^F", tcell.KeyCtrlF, 0, "\x06", func(s *state) { s.move(1, 0) }},
	{"^B", tcell.KeyCtrlB, 0, "\x02", func(s *state) { s.move(-1, 0) }},
	{"page up", tcell.KeyPgUp, 0, "\x1b[5~", func(s *state) { s.move(0, -s.h) }},
	{"page down", tcell.KeyPgDn, 0, "\x1b[6~", func(s *state) { s.move(0, s.h) }},
	{"space", tcell.KeyRune, ' ', " ", func(s *state) { s.move(0, s.h) }},
	{"home", tcell.KeyHome, 0, "\x1bOH", func(s *state) { s.move(-far, -far) }},
	{"g", tcell.KeyRune, 'g', "g", func(s *state) { s.move(-far, -far) }},
	{"end", tcell.KeyEnd, 0, "\x1bOF", func(s *state) { s.move(far, far) }},
	{"x", tcell.KeyRune, 'x', "x", func(s *state) {}},
	{"enter", tcell.KeyEnter, 0, "\r", func(s *state) {}},
}

// widget presses keys and looks at the screen after each.
func widget(t *mon.T, r *rand.Rand) {
	sizes := []int{3, 8, 30}
	b := random(r, sizes[r.Intn(3)], sizes[r.Intn(3)])
	s := &state{x: parse(b), w: 1 + r.Intn(20), h: 1 + r.Intn(9)}
	var done []string
	what := func() string {
		return fmt.Sprintf("%q in %dx%d, keys %s", b, s.w, s.h, strings.Join(done, " "))
	}
	t.Case("widget")
	defer func() {
		if e := recover(); e != nil {
			t.Violation("widget/panic", fmt.Sprintf("%s: %v", what(), e))
		}
	}()
	screen := tcell.NewSimulationScreen("UTF-8")
	t.Must(screen.Init(), "screen")
	defer screen.Fini()
	screen.SetSize(s.w, s.h)
	screen.Show()
	e := editor.New()
	if r.Intn(2) == 0 {
		e.SetView(screen)
		e.SetContent(b)
		e.SetView(screen)
	} else {
		e.SetContent(b)
		e.SetStyle(tcell.StyleDefault.Underline(true))
		e.SetView(screen)
	}
	for n := 5 + r.Intn(60); n > 0; n-- {
		switch r.Intn(12) {
		case 0:
			s.w, s.h = 1+r.Intn(20), 1+r.Intn(9)
			screen.SetSize(s.w, s.h)
			screen.Show()
			e.Resize()
			s.fit()
			s.follow()
			done = append(done, fmt.Sprintf("resize(%d,%d)", s.w, s.h))
		case 1:
			s.cursor = r.Intn(4) != 0
			e.EnableCursor(s.cursor)
			if s.cursor {
				e.MakeCursorVisible()
				s.follow()
			}
			done = append(done, fmt.Sprintf("cursor(%v)", s.cursor))
		case 2:
			if r.Intn(4) == 0 {
				s.hidden = !s.hidden
				e.HideCursor(s.hidden)
				done = append(done, fmt.Sprintf("hide(%v)", s.hidden))
			}
		default:
			k := keys[r.Intn(len(keys))]
			for m := 1 + r.Intn(3); m > 0; m-- {
				e.HandleEvent(tcell.NewEventKey(k.code, k.r, 0))
				k.do(s)
				done = append(done, k.name)
			}
		}
		e.Draw()
		screen.Sync()
		t.Eval("widget")
		cells, w, h := screen.GetContents()
		if w != s.w || h != s.h {
			t.Fatalf("screen is %dx%d", w, h)
		}
		for y := 0; y < h; y++ {
			want := s.x.window(y+s.top, s.left, w)
			for x := 0; x < w; x++ {
				c := cells[y*w+x]
				for _, r := range c.Runes {
					if unicode.IsControl(r) {
						t.Violation("widget/control", fmt.Sprintf("%s: the control character %q reaches the terminal at %d,%d", what(), r, x, y))
						return
					}
				}
				if want[x] != "" && string(c.Runes) != want[x] {
					t.Violation("widget/screen", fmt.Sprintf("%s: %q at %d,%d, want %q", what(), string(c.Runes), x, y, want[x]))
					return
				}
				_, _, attr := c.Style.Decompose()
				at := s.cursor && !s.hidden && x+s.left == s.cx && y+s.top == s.cy
				if (attr&tcell.AttrReverse != 0) != at && want[x] != "" && !s.x.half(s.cx, s.cy) {
					t.Violation("widget/cursor", fmt.Sprintf("%s: cursor at %d,%d: %v", what(), x, y, !at))
					return
				}
			}
		}
		if s.cursor {
			if x, y := e.GetCursor(); x != s.cx || y != s.cy {
				t.Violation("widget/position", fmt.Sprintf("%s: the cursor is at %d,%d, want %d,%d", what(), x, y, s.cx, s.cy))
				return
			}
			if s.cx < s.left || s.cx >= s.left+s.w || s.cy < s.top || s.cy >= s.top+s.h {
				t.Fatalf("the oracle lost the cursor: %s", what())
			}
		}
	}
	t.CountN("keys", int64(len(done)))
}
