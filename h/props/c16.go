package props

import (
	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// Row judges the row of a line from outside this package.
type Row struct{ s *screen }

// NewRow works out where a prompt leaves the line on a terminal that shows
// from (nil: nothing).
func NewRow(from *vt.Screen, prompt string, cols, rows int) *Row {
	return &Row{screenAfter(from, "", prompt, cols, rows)}
}

// Check judges what scr shows of the line of b, given the width that the
// editor was told. pred is a prediction that may follow.
func (r *Row) Check(scr *vt.Screen, width int, b *readline.Buffer, pred string) string {
	s := *r.s
	s.width = width
	if pred != "" {
		s.tail = func(row []vt.Cell, x int) string {
			i := 0
			for i < len(pred) && row[x+i].R == rune(pred[i]) {
				i++
			}
			for x += i; x < len(row); x++ {
				if !row[x].Blank() {
					return sprintf("column %d shows %q, which is neither part of the line nor of the prediction", x, row[x].Glyph())
				}
			}
			return ""
		}
	}
	cells := make([]string, len(b.Buffer))
	for i, c := range b.Buffer {
		cells[i] = c.String()
	}
	if _, msg := s.checkLine(scr, unitsOf(cells), b.Cursor, b.ViewStart); msg != "" {
		return msg
	}
	last := 0
	for i, c := range scr.Row() {
		if !c.Blank() {
			last = i
		}
	}
	if last >= width {
		return sprintf("column %d is used on a terminal of width %d; %s", last, width, showScreen(scr))
	}
	return ""
}

// Units are the units of a text.
func Units(s string) []ref.Unit { return ref.Current.Units(s) }

// C16Case is one set of schedules: a script of keys, resizes and what is
// around them.
type C16Case struct {
	Mode  string // how notifications arrive
	Env   int
	Keys  []int // indices of C16Keys
	Ws    []int // the widths notified
	End   string
	Bound int // preemptions
}

// C16Keys are the keys of the scripts; the first of each is read by the main
// loop, the others by the command.
var C16Keys = [][]string{
	{"a"},
	{"\x08"},             // ^H
	{"\x01"},             // ^A
	{"\x0C"},             // ^L
	{"\x16", "x"},        // ^V x
	{"\x12", "o", "\r"},  // ^R o Enter
	{"\x10"},             // ^P
	{"\x0B"},             // ^K
	{"\x1F"},             // ^_
	{"\x12", "zz", "\b"}, // ^R, not found, never left: the end follows
	{"\x14"},             // ^T
}

// C16Check runs a case; package conc sets it.
var C16Check func(c C16Case) (outcome, sig, msg string)

// C23Case is one script of a terminal.
type C23Case struct {
	Kind  string // poll or default
	Ops   string
	Bound int
}

// C23Check runs a case; package conc sets it.
var C23Check func(c C23Case) (outcome, sig, msg string)

func c16Scripts(n int, keys []int, yield func([]int) bool) bool {
	var rec func(s []int) bool
	rec = func(s []int) bool {
		if !yield(append([]int{}, s...)) {
			return false
		}
		if len(s) == n {
			return true
		}
		for _, k := range keys {
			if !rec(append(s, k)) {
				return false
			}
		}
		return true
	}
	return rec(nil)
}

func init() {
	mk := func(name string, shards int, bound func(tier string) string, cases func(tier string, yield func(C16Case) bool)) *mc.World {
		return (&mc.CaseWorld[C16Case]{
			Name: name, Bin: "conc", Shards: shards, BoundTxt: bound,
			Cases: cases,
			Check: func(c C16Case) (string, string, string) { return C16Check(c) },
		}).World()
	}
	all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 10}
	mc.Register(&mc.Prop{
		ID:   "C16",
		Rule: "every schedule (bounded preemptions) of the editor and of goroutines that notify widths, for all key sequences up to a bound; a schedule decides who goes on at every lock and at every call of the environment (terminal, output, prompt, colouring, history, predictor)",
		Assumptions: []string{
			"Between two such points a goroutine runs without interruption; plain memory accesses are not interleaved with one another.",
			"The row never wraps: the emulated terminal is wider than every width notified.",
			"A notification may wait while a command reads further keys (quoted insert, incremental search).",
		},
		Worlds: []*mc.World{
			(&mc.CaseWorld[promptCase]{
				Name: "every width", Shards: 32, Weight: 6,
				BoundTxt: func(tier string) string {
					return sprintf("two changes between keys, all pairs of widths from 4 to %d, all sequences of up to %d of 7 keys between and one after them, 2 prompts, 2 lines, from width 20 and 8", tierN(tier, 40, 60), tierN(tier, 1, 2))
				},
				Cases: func(tier string, yield func(promptCase) bool) {
					ks := []string{"x", "あ", kA, kE, kB, kH, kK}
					for _, p := range []string{"$ ", "あい> "} {
						for _, d := range []string{"ab", "one two three あいう four\x01"} {
							for _, w := range []int{20, 8} {
								for a := 4; a <= tierN(tier, 40, 60); a++ {
									for b := 4; b <= tierN(tier, 40, 60); b++ {
										for n := 0; n <= tierN(tier, 1, 2); n++ {
											if !seqs(ks, n, func(o []string) bool {
												ops := append([]string{mc.Resize(a)}, o...)
												ops = append(ops, mc.Resize(b), "y")
												return yield(promptCase{Kind: "text", Prompts: []string{p}, W: w, Def: d, Ops: ops})
											}) {
												return
											}
										}
									}
								}
							}
						}
					}
				},
				Check: checkPrompt,
			}).World(),
			mk("one notification", 16,
				func(tier string) string {
					if tier == "thorough" {
						return "all scripts of up to 3 of 10 keys, 3 environments, width 20 to 12 or 30, up to 3 preemptions without keys, 2 with 1 or 2, 1 with 3 (environment with fine points: one less)"
					}
					return "all scripts of up to 2 of 10 keys, 3 environments, width 20 to 12 or 30, up to 2 preemptions with up to 1 key, 1 with 2 (environment with fine points: 1)"
				},
				func(tier string, yield func(C16Case) bool) {
					n := 2
					if tier == "thorough" {
						n = 3
					}
					for env := 0; env < 3; env++ {
						for _, w := range []int{12, 30} {
							for _, end := range []string{"\r", "err"} {
								ok := c16Scripts(n, all, func(s []int) bool {
									b := 2
									if len(s) == n {
										b = 1
									}
									if tier == "thorough" && len(s) == 0 {
										b = 3
									}
									if env == 2 && b > 1 {
										b--
									}
									if end != "\r" && len(s) > 1 {
										return true
									}
									return yield(C16Case{"seq", env, s, []int{w}, end, b})
								})
								if !ok {
									return
								}
							}
						}
					}
				}),
			mk("several notifications", 32,
				func(tier string) string {
					if tier == "thorough" {
						return "two and three notifications one after another, and two at the same time: all scripts of up to 2 of 10 keys, 1 preemption (2 without keys)"
					}
					return "two notifications one after another or at the same time: all scripts of up to 1 of 10 keys (none when at the same time in small pieces of output), 1 preemption"
				},
				func(tier string, yield func(C16Case) bool) {
					n, envs := 1, 2
					if tier == "thorough" {
						n = 2
					}
					for env := 0; env < envs; env++ {
						for _, mode := range []string{"seq", "par"} {
							for _, ws := range [][]int{{12, 30}, {30, 12}, {12, 20}, {30, 30}, {12, 30, 9}} {
								if len(ws) > 2 && (mode == "par" || tier != "thorough") {
									continue
								}
								if tier != "thorough" && env == 1 && len(ws) == 2 && ws[0] == 30 {
									continue
								}
								n := n
								if tier != "thorough" && env == 1 && mode == "par" {
									n = 0
								}
								ok := c16Scripts(n, all, func(s []int) bool {
									b := 1
									if tier == "thorough" && len(s) == 0 {
										b = 2
									}
									return yield(C16Case{mode, env, s, ws, "\r", b})
								})
								if !ok {
									return
								}
							}
						}
					}
				}),
			mk("terminal that waits", 8,
				func(tier string) string {
					return "a terminal whose Close waits until a notification in progress has returned: all scripts of up to 2 of 10 keys, ends by Enter, Ctrl-C, Ctrl-D, key error, 2 preemptions"
				},
				func(tier string, yield func(C16Case) bool) {
					for env := 0; env < 2; env++ {
						for _, end := range []string{"\r", "\x03", "\x01\x0B\x04", "err", "^R err", "prompt err"} {
							n := 1
							if tier == "thorough" {
								n = 2
							}
							if !c16Scripts(n, all, func(s []int) bool {
								return yield(C16Case{"hand", env, s, []int{12}, end, 2})
							}) {
								return
							}
						}
					}
				}),
			mk("notification of an earlier input", 8,
				func(tier string) string {
					return "the callback of the first input is called again until the end of a second input of the same editor: all scripts of up to 1 (thorough: 2) of 10 keys for each, 2 preemptions"
				},
				func(tier string, yield func(C16Case) bool) {
					n := 1
					if tier == "thorough" {
						n = 2
					}
					for env := 0; env < 2; env++ {
						for _, w := range []int{12, 30} {
							if !c16Scripts(n, all, func(s []int) bool {
								return yield(C16Case{"twice", env, s, []int{w}, "\r", 2})
							}) {
								return
							}
						}
					}
				}),
			mk("default terminal", 8,
				func(tier string) string {
					return "the library's own terminal on an emulated device: all scripts of up to 1 (thorough: 2) of 10 keys, one or two changes of size, 2 preemptions"
				},
				func(tier string, yield func(C16Case) bool) {
					n := 1
					if tier == "thorough" {
						n = 2
					}
					for env := 0; env < 2; env++ {
						for _, ws := range [][]int{{12}, {30}, {20, 12}, {12, 20}, {12, 30}} {
							if !c16Scripts(n, all, func(s []int) bool {
								return yield(C16Case{"dflt", env, s, ws, "\r", 2})
							}) {
								return
							}
						}
					}
				}),
		},
	})
}
