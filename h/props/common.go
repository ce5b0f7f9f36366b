// Package props holds the properties: for each one the bounded worlds that are
// explored and the oracle that judges every step of every execution.
package props

import (
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode"
	"unicode/utf8"

	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
)

// The keys used by the worlds.
const (
	kEnter  = "\r"
	kA      = "\x01" // beginning of line
	kB      = "\x02" // backward
	kC      = "\x03" // interrupt
	kD      = "\x04" // delete or end of input
	kE      = "\x05" // end of line
	kF      = "\x06" // forward
	kG      = "\x07"
	kH      = "\b" // backspace
	kK      = "\v" // kill to the end
	kL      = "\f" // clear screen
	kRedraw = drv.RedrawKey
	kN      = "\x0E" // next history
	kP      = "\x10" // previous history
	kQ      = "\x11" // quoted insert
	kR      = "\x12" // search
	kS      = "\x13"
	kT      = "\x14" // transpose
	kU      = "\x15" // kill to the start
	kV      = "\x16" // quoted insert
	kW      = "\x17" // kill word
	kY      = "\x19" // yank
	kZ      = "\x1A" // undo
	kUS     = "\x1F" // undo
	kBS     = "\x7F"
	kEsc    = "\x1B"
	kLeft   = "\x1B[D"
	kRight  = "\x1B[C"
	kUp     = "\x1B[A"
	kDown   = "\x1B[B"
	kHome   = "\x1B[H"
	kEnd    = "\x1B[F"
	kDel    = "\x1B[3~"
	kMb     = "\x1Bb"
	kMf     = "\x1Bf"
	kMv     = "\x1Bv"
	kMy     = "\x1By"
	kCL     = "\x1B[1;5D"
	kCR     = "\x1B[1;5C"
	kTab    = "\t"
)

func str(s string) *string { return &s }

func tierN(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

// line is the reference line editor: units of text and a cursor.
type line struct {
	u   []string
	cur int
	// the quotation marks when they are not the default ones
	quotes *string
}

func newLine(text string, cur int) *line {
	l := &line{}
	for _, u := range ref.Current.Units(text) {
		l.u = append(l.u, u.Text)
	}
	l.cur = cur
	if l.cur > len(l.u) {
		l.cur = len(l.u)
	}
	return l
}

func (l *line) text() string { return strings.Join(l.u, "") }

func (l *line) insert(units ...string) {
	n := make([]string, 0, len(l.u)+len(units))
	n = append(n, l.u[:l.cur]...)
	n = append(n, units...)
	n = append(n, l.u[l.cur:]...)
	l.u = n
	l.cur += len(units)
}

func (l *line) insertText(s string) {
	us := ref.Current.Units(s)
	ss := make([]string, len(us))
	for i, u := range us {
		ss[i] = u.Text
	}
	l.insert(ss...)
}

// del removes units from..to and puts the cursor at from.
func (l *line) del(from, to int) string {
	s := strings.Join(l.u[from:to], "")
	n := append([]string{}, l.u[:from]...)
	l.u = append(n, l.u[to:]...)
	l.cur = from
	return s
}

func isSpace(u string) bool {
	r, n := utf8.DecodeRuneInString(u)
	return n == len(u) && unicode.IsSpace(r)
}

// wordTop is the start of the word that ends at the cursor; quotation marks
// keep spaces inside a word. The cursor itself when there is none.
func (l *line) wordTop() int {
	top := -1
	quote := ""
	quotes := "\"'"
	if l.quotes != nil {
		quotes = *l.quotes
	}
	for i, u := range l.u[:l.cur] {
		if quote == "" {
			if r, n := utf8.DecodeRuneInString(u); n == len(u) && strings.ContainsRune(quotes, r) {
				quote = u
			}
		} else if u == quote {
			quote = ""
		}
		if isSpace(u) && quote == "" {
			top = -1
		} else if top < 0 {
			top = i
		}
	}
	if top < 0 {
		return l.cur
	}
	return top
}

// edit applies an editing key. ok is false when the key is not an editing key.
// killed is the text the key puts on the clipboard when clip is set.
func (l *line) edit(key string) (killed string, clip, ok bool) {
	ok = true
	switch key {
	case kA, kHome:
		l.cur = 0
	case kE, kEnd:
		l.cur = len(l.u)
	case kB, kLeft:
		if l.cur > 0 {
			l.cur--
		}
	case kF, kRight:
		if l.cur < len(l.u) {
			l.cur++
		}
	case kMb, kCL:
		for l.cur > 0 && isSpace(l.u[l.cur-1]) {
			l.cur--
		}
		for l.cur > 0 && !isSpace(l.u[l.cur-1]) {
			l.cur--
		}
	case kMf, kCR:
		for l.cur < len(l.u) && !isSpace(l.u[l.cur]) {
			l.cur++
		}
		for l.cur < len(l.u) && isSpace(l.u[l.cur]) {
			l.cur++
		}
	case kH, kBS:
		if l.cur > 0 {
			l.del(l.cur-1, l.cur)
		}
	case kDel, kD:
		if l.cur < len(l.u) {
			l.del(l.cur, l.cur+1)
		}
	case kK:
		return l.del(l.cur, len(l.u)), true, true
	case kU:
		return l.del(0, l.cur), true, true
	case kW:
		end := l.cur
		for l.cur > 0 && isSpace(l.u[l.cur-1]) {
			l.cur--
		}
		return l.del(l.wordTop(), end), true, true
	case kEsc:
		l.u, l.cur = nil, 0
	case kT:
		switch {
		case l.cur == len(l.u) && l.cur >= 2:
			l.u[l.cur-2], l.u[l.cur-1] = l.u[l.cur-1], l.u[l.cur-2]
		case l.cur < len(l.u) && l.cur >= 1:
			l.u[l.cur-1], l.u[l.cur] = l.u[l.cur], l.u[l.cur-1]
			l.cur++
		}
	case kL, kG, kRedraw:
	default:
		ok = false
	}
	if key == kG {
		ok = false
	}
	return
}

// printable tells whether key is a plain character key.
func printable(key string) bool {
	r, n := utf8.DecodeRuneInString(key)
	return n == len(key) && r >= ' ' && r != 0x7F
}

func errName(e error) string {
	switch {
	case e == nil:
		return "nil"
	case errors.Is(e, readline.CtrlC):
		return "CtrlC"
	case errors.Is(e, io.EOF):
		return "EOF"
	}
	return e.Error()
}

// texts yields every string of up to n elements of alphabet.
func texts(alphabet []string, n int, yield func(string)) {
	var rec func(prefix string, left int)
	rec = func(prefix string, left int) {
		yield(prefix)
		if left == 0 {
			return
		}
		for _, a := range alphabet {
			rec(prefix+a, left-1)
		}
	}
	rec("", n)
}

func allTexts(alphabet []string, n int) (out []string) {
	texts(alphabet, n, func(s string) { out = append(out, s) })
	return
}

func fixed(n int) func(string) int { return func(string) int { return n } }

func depth(quick, thorough int) func(string) int {
	return func(t string) int { return tierN(t, quick, thorough) }
}

func keyset(ks ...string) func(*mc.KeyCfg) []string {
	return func(*mc.KeyCfg) []string { return ks }
}

// judged is an oracle made of functions, for oracles without state.
type judged struct {
	start func(r *drv.Run) string
	step  func(r *drv.Run, key string) string
	end   func(r *drv.Run, key string) string
	key   func(r *drv.Run) string
}

func (o *judged) Start(r *drv.Run) string {
	if o.start == nil {
		return ""
	}
	return o.start(r)
}
func (o *judged) Step(r *drv.Run, key string, fresh bool) string {
	if o.step == nil {
		return ""
	}
	return o.step(r, key)
}
func (o *judged) End(r *drv.Run, key string, fresh bool) string {
	if o.end == nil {
		return ""
	}
	return o.end(r, key)
}
func (o *judged) Key(r *drv.Run) string {
	if o.key == nil {
		return mc.StdKey(r)
	}
	return o.key(r)
}

func sprintf(f string, a ...any) string { return fmt.Sprintf(f, a...) }

// runs are how often the keys of a run are pressed.
func runs(tier string) []int {
	if tier == "thorough" {
		return []int{1, 2, 5, 17, 60}
	}
	return []int{1, 6, 40}
}

// manyTimes are how often the keys of a very long session are pressed.
func manyTimes(tier string) []int { return []int{1, 300, 1100} }

// hugeText is a line of 1200 characters, hugeHistory a history of 1200 entries.
var (
	hugeText    = strings.Repeat("ab c", 299) + "あい え"
	hugeHistory = func() (h []string) {
		for i := 0; i < 1200; i++ {
			h = append(h, sprintf("%d a%d", i*7919%1000, i%50))
		}
		return
	}()
)

// longTexts are lines much longer than most terminals are wide.
var longTexts = []string{
	strings.Repeat("abc de ", 30),
	strings.Repeat(`ab "c d' e" `, 12),
	strings.Repeat("あ\tb\x01 ", 20),
	strings.Repeat("👨‍🌾x❤️y ", 16),
}

// longHistory is a history of many entries, some of them equal, empty or long.
var longHistory = func() (h []string) {
	for i := 0; i < 70; i++ {
		switch {
		case i%9 == 4:
			h = append(h, "")
		case i%7 == 3:
			h = append(h, "same ab")
		case i%11 == 5:
			h = append(h, strings.Repeat("long あ ", i))
		case i%2 == 0:
			h = append(h, sprintf("a%d b", i))
		default:
			h = append(h, sprintf("B%d", i))
		}
	}
	return
}()
