package props

import (
	"bytes"
	"context"
	"errors"
	"io"
	"os"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	tty "github.com/mattn/go-tty"
	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/auto"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/tty10"
	"golang.org/x/term"

	"verifh/mc"
)

// keysOf is what a stream that arrives in these chunks must be decoded to:
// every character is a key, an escape takes all that arrived together with it.
// NULs are no keys.
func keysOf(chunks []string) (out []string) {
	for i := 0; i < len(chunks); i++ {
		c := chunks[i]
		for i+1 < len(chunks) && !endsFull(c) {
			i++
			c += chunks[i]
		}
		for len(c) > 0 {
			r, n := utf8.DecodeRuneInString(c)
			switch {
			case r == 0x1B:
				out = append(out, strings.ReplaceAll(c, "\x00", ""))
				n = len(c)
			case r != 0:
				out = append(out, c[:n])
			}
			c = c[n:]
		}
	}
	return
}

func endsFull(s string) bool {
	for i := len(s) - 1; i >= 0 && len(s)-i < 4; i-- {
		if utf8.RuneStart(s[i]) {
			return utf8.FullRuneInString(s[i:])
		}
	}
	return true
}

// chunkCase is a stream and where it is cut. Fault is the operation that
// fails, counted from 1; 0 for none.
type chunkCase struct {
	Text  string
	Cuts  uint // bit i: cut after byte (or rune) i+1
	Fault int
	How   string
	// Size of the chunks, which overrides Cuts.
	Size int
}

func (c chunkCase) cutAfter(i int) bool {
	if c.Size > 0 {
		return i%c.Size == 0
	}
	return c.Cuts>>(i-1)&1 != 0
}

func (c chunkCase) String() string {
	return sprintf("%+q fault %d %s", cut(c), c.Fault, c.How)
}

func cut(c chunkCase) (out []string) {
	s := c.Text
	from := 0
	for i := 1; i < len(s); i++ {
		if c.cutAfter(i) {
			out = append(out, s[from:i])
			from = i
		}
	}
	return append(out, s[from:])
}

var errFault = errors.New("injected fault")

// fakeTty is a terminal that delivers chunks of runes.
type fakeTty struct {
	chunks [][]rune
	raw    int
	ops    int
	fault  int
	note   string
}

func (t *fakeTty) op() error {
	t.ops++
	mc.Ticks++
	if t.ops == t.fault {
		return errFault
	}
	return nil
}

func (t *fakeTty) Raw() (func() error, error) {
	if err := t.op(); err != nil {
		return nil, err
	}
	t.raw++
	if t.raw != 1 {
		t.note = sprintf("raw mode entered %d times", t.raw)
	}
	return func() error { t.raw--; return nil }, nil
}

func (t *fakeTty) ReadRune() (rune, error) {
	if t.raw != 1 {
		t.note = "reading outside of raw mode"
	}
	if err := t.op(); err != nil {
		return 0, err
	}
	for len(t.chunks) > 0 && len(t.chunks[0]) == 0 {
		t.chunks = t.chunks[1:]
	}
	if len(t.chunks) == 0 {
		return 0, io.EOF
	}
	r := t.chunks[0][0]
	t.chunks[0] = t.chunks[0][1:]
	return r, nil
}

func (t *fakeTty) Buffered() bool { return len(t.chunks) > 0 && len(t.chunks[0]) > 0 }

// checkFuncs: the exported decoding functions on a terminal that delivers
// runes, possibly as halves of surrogate pairs.
func checkFuncs(c chunkCase) (outcome, sig, msg string) {
	var units [][]rune
	var texts []string
	rs := []rune(c.Text)
	from := 0
	flush := func(to int) {
		var u []rune
		for _, r := range rs[from:to] {
			if r >= 0x10000 && strings.HasSuffix(c.How, "16") {
				a, b := utf16.EncodeRune(r)
				u = append(u, a, b)
			} else {
				u = append(u, r)
			}
		}
		units = append(units, u)
		texts = append(texts, string(rs[from:to]))
		from = to
	}
	for i := 1; i < len(rs); i++ {
		if c.cutAfter(i) {
			flush(i)
		}
	}
	flush(len(rs))
	t := &fakeTty{chunks: units, fault: c.Fault}
	want := keysOf(texts)
	var got []string
	var err error
	for i := 0; i < 2*len(rs)+4; i++ {
		switch c.How[:3] {
		case "one":
			var k string
			k, err = readline.GetKey(t)
			if err == nil {
				got = append(got, k)
			}
		case "all":
			var ks []string
			ks, err = readline.GetKeys(t)
			if err == nil {
				got = append(got, ks...)
			}
		case "raw":
			t.raw = 1
			var k string
			k, err = readline.GetRawKey(t)
			if err == nil {
				got = append(got, k)
			}
			t.raw--
		}
		if t.raw != 0 {
			return "", "raw mode", sprintf("the terminal stays in raw mode (error %v)", err)
		}
		if t.note != "" {
			return "", "raw mode", t.note
		}
		if err != nil {
			break
		}
	}
	return judgeKeys(got, want, err, c.Fault, c)
}

// judgeKeys: everything when nothing failed, otherwise a beginning.
func judgeKeys(got, want []string, err error, fault int, c any) (outcome, sig, msg string) {
	out := sprintf("%q %v", got, err)
	if errors.Is(err, errFault) || errors.Is(err, tty.ErrFault) || errors.Is(err, term.ErrFault) {
		if fault == 0 {
			return out, "keys", "an error without a fault"
		}
		if len(got) > len(want) || !eqs(got, want[:len(got)]) {
			return out, "keys", sprintf("before the fault the keys %+q were delivered, should be a beginning of %+q (%+v)", got, want, c)
		}
		return out, "", ""
	}
	if !errors.Is(err, io.EOF) {
		return out, "keys", sprintf("the error is %v, the keys %+q, should be %+q (%+v)", err, got, want, c)
	}
	// A key may still be held back when the stream ends right after a NUL.
	s := c.(chunkCase).Text
	if strings.Contains(s, "\x00") && len(got) <= len(want) && eqs(got, want[:len(got)]) && strings.HasSuffix(s, "\x00") {
		return out, "", ""
	}
	if !eqs(got, want) {
		return out, "keys", sprintf("the keys are %+q, should be %+q (%+v)", got, want, c)
	}
	return out, "", ""
}

// chunkReader delivers one chunk per read.
type chunkReader struct {
	chunks []string
	d      **tty.Device
	note   string
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if d := *r.d; d.RawDepth != 1 {
		r.note = sprintf("waiting for input with raw mode entered %d times", d.RawDepth)
	}
	if len(r.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, r.chunks[0])
	if n < len(r.chunks[0]) {
		r.chunks[0] = r.chunks[0][n:]
	} else {
		r.chunks = r.chunks[1:]
	}
	return n, nil
}

// checkDefault: the default terminal behind several inputs. Typed lines must
// come out as lines, however they arrive.
func checkDefault(c chunkCase) (outcome, sig, msg string) {
	var d *tty.Device
	cr := &chunkReader{d: &d, chunks: cut(c)}
	ops := 0
	d = &tty.Device{In: cr, W: 80, H: 25}
	d.Fault = func(op string) error {
		if op == "raw" || op == "read" {
			mc.Ticks++
			ops++
			if ops == c.Fault {
				return tty.ErrFault
			}
		}
		return nil
	}
	tty.Dev = d
	var out bytes.Buffer
	var got []string
	ed := &readline.Editor{Writer: &out}
	ed.Init()
	// every key ends the input and is recorded: opening and closing between
	// any two keys must not lose anything
	for _, k := range keysOf(cut(c)) {
		k := k
		ed.BindKey(keys.Code(k), readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
			got = append(got, k)
			if c.How == "each" {
				return readline.ENTER
			}
			return readline.CONTINUE
		}))
	}
	var err error
	for i := 0; i < 2*len(c.Text)+4 && err == nil; i++ {
		_, err = ed.ReadLine(context.Background())
		if d.RawDepth != 0 || d.RawOn != d.RawOff {
			return "", "raw mode", sprintf("the terminal stays in raw mode (error %v)", err)
		}
		if cr.note != "" {
			return "", "raw mode", cr.note
		}
		if d.Opens != d.Closes || d.DoubleClose+d.UseAfterClose > 0 {
			return "", "raw mode", sprintf("the terminal was opened %d times and closed %d times", d.Opens, d.Closes)
		}
	}
	return judgeKeys(got, keysOf(cut(c)), err, c.Fault, c)
}

// checkTty10: the alternative terminal on a pipe.
func checkTty10(c chunkCase) (outcome, sig, msg string) {
	pr, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdin
	os.Stdin = pr
	chunks := cut(c)
	closed := false
	note := ""
	defer func() {
		os.Stdin = old
		pr.Close()
		if !closed {
			pw.Close()
		}
		term.Reset()
	}()
	term.Reset()
	term.FailMakeRaw = func(n int) bool { return n == c.Fault }
	term.OnMakeRaw = func() {
		mc.Ticks++
		if term.RawDepth != 1 {
			note = sprintf("raw mode entered %d times", term.RawDepth)
		}
		if len(chunks) == 0 {
			if !closed {
				pw.Close()
				closed = true
			}
			return
		}
		io.WriteString(pw, chunks[0])
		chunks = chunks[1:]
	}
	t := &tty10.Tty{}
	var got []string
	for i := 0; i < 2*len(c.Text)+4; i++ {
		var k string
		k, err = t.GetKey()
		if term.RawDepth != 0 || term.BadRestore != 0 {
			return "", "raw mode", sprintf("the terminal stays in raw mode (error %v)", err)
		}
		if note != "" {
			return "", "raw mode", note
		}
		if err != nil {
			break
		}
		got = append(got, k)
	}
	if c.How == "bytes" {
		return judgeBytes(got, err, c)
	}
	want := keysOf(cut(c))
	return judgeKeys(got, want, err, c.Fault, c)
}

// judgeBytes: input that need not be valid. No byte may be lost, except that
// a read with an unfinished character fails when the input ends there, and no
// valid character may be torn.
func judgeBytes(got []string, err error, c chunkCase) (outcome, sig, msg string) {
	out := sprintf("%q %v", got, err)
	if !errors.Is(err, io.EOF) {
		return out, "keys", sprintf("the error is %v, the keys %+q (%+v)", err, got, c)
	}
	all := strings.Join(got, "")
	unfinished := false
	for i := 1; i < 4 && i <= len(c.Text); i++ {
		if tail := c.Text[len(c.Text)-i:]; utf8.RuneStart(tail[0]) {
			unfinished = !utf8.FullRuneInString(tail)
			break
		}
	}
	if all != c.Text && !(unfinished && strings.HasPrefix(c.Text, all)) {
		return out, "keys", sprintf("the keys are %+q (%+v)", got, c)
	}
	begins := map[int]bool{len(all): true}
	pos := 0
	for _, k := range got {
		begins[pos] = true
		if k == "" || k[0] != '\x1B' && utf8.RuneCountInString(k) != 1 {
			return out, "keys", sprintf("the keys are %+q (%+v)", got, c)
		}
		pos += len(k)
	}
	for i, r := range all {
		for j := 1; j < utf8.RuneLen(r) && r != utf8.RuneError; j++ {
			if begins[i+j] {
				return out, "keys", sprintf("a character is torn: the keys are %+q (%+v)", got, c)
			}
		}
	}
	return out, "", ""
}

// checkAny takes the way of reading from How.
func checkAny(c chunkCase) (outcome, sig, msg string) {
	switch {
	case c.How[0] == 'f':
		c.How = c.How[1:]
		return checkFuncs(c)
	case c.How == "tty10":
		return checkTty10(c)
	}
	return checkDefault(c)
}

func checkPilot(ks []string) (outcome, sig, msg string) {
	p := &auto.Pilot{Text: append([]string{}, ks...)}
	for _, k := range append(append([]string{}, ks...), kEnter, kEnter) {
		mc.Ticks++
		if g, err := p.GetKey(); g != k || err != nil {
			return "", "keys", sprintf("the autopilot for %+q gives %+q, should give %+q", ks, g, k)
		}
	}
	return strings.Join(ks, ","), "", ""
}

func init() {
	// streams yields every stream, every way to cut it, and every fault.
	streams := func(alphabet []string, n int, byRune bool, faults int, hows []string, yield func(chunkCase) bool) bool {
		for _, t := range allTexts(alphabet, n) {
			if t == "" {
				continue
			}
			l := len(t)
			if byRune {
				l = utf8.RuneCountInString(t)
			}
			for cuts := uint(0); cuts < 1<<(l-1); cuts++ {
				for f := 0; f <= faults; f++ {
					for _, h := range hows {
						if !yield(chunkCase{Text: t, Cuts: cuts, Fault: f, How: h}) {
							return false
						}
					}
				}
			}
		}
		return true
	}
	bound := func(n, a int, what string) func(string) string {
		return func(tier string) string {
			return sprintf("all streams of up to %d of %d characters, all ways to cut them into chunks, %s", n+tierN(tier, 0, 1), a, what)
		}
	}
	mc.Register(&mc.Prop{
		ID:   "C13",
		Rule: "an execution is one stream of characters cut into chunks in one way, decoded to its end, with at most one failing operation; states are distinct lists of keys with the final error",
		Assumptions: []string{
			"all that arrives together with an escape, from the escape on, is one key",
			"NUL is no key; a key followed by a NUL at the very end of the input may be held back until more arrives",
			"keys that were read together with a failing read may be dropped with it",
		},
		Worlds: []*mc.World{
			runeCases("streams", func(s string) (out []chunkCase) {
				for _, t := range []string{s, "a" + s + s + "b\x1B[A" + s} {
					for _, size := range []int{1, 2, 100} {
						for _, how := range []string{"each", "one", "fone", "fall16", "fraw16", "tty10"} {
							out = append(out, chunkCase{Text: t, Size: size, How: how})
						}
					}
				}
				return
			}, checkAny),
			(&mc.CaseWorld[chunkCase]{
				Name: "functions", Shards: 16, Weight: 8, BoundTxt: bound(6, 6, "each of the first 12 operations failing or none, whole or as surrogate pairs"),
				Cases: func(tier string, yield func(chunkCase) bool) {
					streams([]string{"a", "あ", "😀", "\x1B", "[", "\x00"}, tierN(tier, 6, 7), true, 0, []string{"one", "all", "raw", "one16", "all16", "raw16"}, yield)
					streams([]string{"a", "😀", "\x1B", "\x00"}, tierN(tier, 4, 5), true, 12, []string{"one", "all", "raw", "one16", "all16", "raw16"}, yield)
				},
				Check: checkFuncs,
			}).World(),
			(&mc.CaseWorld[chunkCase]{
				Name: "default terminal", Shards: 16, Weight: 9, BoundTxt: bound(4, 5, "each of the first 8 operations failing or none, one input for all keys or one for each"),
				Cases: func(tier string, yield func(chunkCase) bool) {
					streams([]string{"a", "あ", "😀", "\x1B", "["}, tierN(tier, 4, 5), false, 0, []string{"each", "one"}, yield)
					streams([]string{"a", "b", "あ", "\x1B", "\x00"}, tierN(tier, 3, 4), false, 8, []string{"each", "one"}, yield)
					streams([]string{"a", "b", "\x1B", "\r"}, tierN(tier, 5, 7), false, 0, []string{"each", "one"}, yield)
				},
				Check: checkDefault,
			}).World(),
			(&mc.CaseWorld[chunkCase]{
				Name: "alternative terminal", Shards: 16, Weight: 9, BoundTxt: bound(4, 5, "each of the first 4 mode changes failing or none"),
				Cases: func(tier string, yield func(chunkCase) bool) {
					streams([]string{"a", "あ", "😀", "\x1B", "["}, tierN(tier, 4, 5), false, 0, []string{""}, yield)
					streams([]string{"a", "あ", "\x1B"}, tierN(tier, 3, 4), false, 4, []string{""}, yield)
					streams([]string{"a", "b", "\x1B", "\r"}, tierN(tier, 5, 6), false, 0, []string{""}, yield)
				},
				Check: checkTty10,
			}).World(),
			(&mc.CaseWorld[chunkCase]{
				Name: "bytes", Shards: 16, Weight: 7, BoundTxt: bound(5, 8, "any bytes through the alternative terminal"),
				Cases: func(tier string, yield func(chunkCase) bool) {
					streams([]string{"a", "\x1B", "\xE3", "\x81", "\x82", "\xF0", "\x9F", "\xFF"}, tierN(tier, 5, 6), false, 0, []string{"bytes"}, yield)
				},
				Check: checkTty10,
			}).World(),
			(&mc.CaseWorld[chunkCase]{
				Name: "long streams", Shards: 16, Weight: 5,
				BoundTxt: func(tier string) string {
					return "all streams of up to " + sprintf("%d", tierN(tier, 2, 3)) + " runs of 1, 5, 300 or 1500 of 5 characters, and one escape sequence in chunks of up to 200, in chunks of 1, 2, 3, 7, 64, 1023, 1024, 1025 or all at once, through every way of reading"
				},
				Cases: func(tier string, yield func(chunkCase) bool) {
					var rec func(t string, esc bool, left int) bool
					rec = func(t string, esc bool, left int) bool {
						if t != "" {
							for _, size := range []int{1, 2, 3, 7, 64, 1023, 1024, 1025, 1 << 20} {
								if esc && size > 64 && len(t) > 200 {
									continue
								}
								for _, how := range []string{"each", "one", "fone", "fall", "fraw16", "tty10"} {
									if how == "each" && len(t) > 600 {
										continue
									}
									if !yield(chunkCase{Text: t, Size: size, How: how}) {
										return false
									}
								}
							}
						}
						if left == 0 {
							return true
						}
						for _, s := range []string{"a", "あ", "😀", "\r", "é"} {
							for _, n := range []int{1, 5, 300, 1500} {
								if !rec(t+strings.Repeat(s, n), esc, left-1) {
									return false
								}
							}
						}
						return esc || rec(t+"\x1B[A", true, left-1)
					}
					rec("", false, tierN(tier, 2, 3))
				},
				Check: checkAny,
			}).World(),
			(&mc.CaseWorld[[]string]{
				Name: "autopilot", Shards: 1, Weight: 1,
				BoundTxt: func(string) string { return "all lists of up to 5 of 4 keys" },
				Cases: func(tier string, yield func([]string) bool) {
					var rec func(ks []string) bool
					rec = func(ks []string) bool {
						if !yield(append([]string{}, ks...)) {
							return false
						}
						if len(ks) == 5 {
							return true
						}
						for _, k := range []string{"a", kLeft, "", "あい"} {
							if !rec(append(ks[:len(ks):len(ks)], k)) {
								return false
							}
						}
						return true
					}
					rec(nil)
				},
				Check: checkPilot,
			}).World(),
		},
	})
}
