package props

import (
	"errors"
	"io"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// promptCase is an input with a prompt. The prompt function prints Prompts in
// turn and keeps to the last one.
type promptCase struct {
	Kind    string // text, error, none
	Prompts []string
	W       int
	Def     string
	Ops     []string
}

var cloneScr *vt.Screen

// afterResize are the places where the line may be after a resize: s is where
// it was, above tells that the prompt is on a row of its own.
func afterResize(s *screen, scr *vt.Screen, prompt string, above bool) (places []*screen, aboves []bool) {
	rowsAbove := func(c *vt.Screen, row int) (out []string) {
		for y := c.Scrolled; y < row; y++ {
			out = append(out, vt.RowString(c.RowAbs(y)))
		}
		return
	}
	last := lastLine(prompt)
	same := &screen{width: scr.Cols, row: s.row, above: rowsAbove(scr, s.row)}
	switch {
	case above:
		return []*screen{same}, []bool{true}
	case len(last) < scr.Cols-3:
		same.prompt, same.top = last, len(last)
		return []*screen{same}, []bool{false}
	}
	// too wide now: either the line gets a row of its own or the prompt goes
	if cloneScr == nil {
		cloneScr = vt.New(1, 1, ref.Current.ScreenWidth)
	}
	cloneScr.CopyFrom(scr)
	cloneScr.Write([]byte("\r\x1B[K" + prompt[strings.LastIndexAny(prompt, "\r\n")+1:] + "\n"))
	own := &screen{width: scr.Cols, row: cloneScr.AbsRow(), above: rowsAbove(cloneScr, cloneScr.AbsRow())}
	return []*screen{own, same}, []bool{true, false}
}

func checkPrompt(c promptCase) (outcome, sig, msg string) {
	const height = 12
	calls := 0
	last := "\n> "
	cfg := &drv.Config{Width: c.W, Height: height, Default: c.Def, Cursor: 99}
	if c.Kind != "none" {
		cfg.PromptFunc = func(w io.Writer) (int, error) {
			n := calls
			if n >= len(c.Prompts) {
				n = len(c.Prompts) - 1
			}
			calls++
			last = c.Prompts[n]
			io.WriteString(w, last)
			if c.Kind == "error" {
				return 0, errors.New("no prompt")
			}
			return len(last), nil
		}
	}
	cfg.Setup = func(ed *readline.Editor) {
		ed.BindKey(kRedraw, readline.CmdRepaintOnNewline)
		ed.Writer.(*vt.Screen).Tabs = true
		ed.Writer.(*vt.Screen).Free = true
	}
	before := vt.New(c.W, height, ref.Current.ScreenWidth)
	var s *screen
	above := false
	var obs strings.Builder
	tooWide := func(cols int) bool { return len(lastLine(last)) >= cols-3 }
	check := func(r *drv.Run) string {
		vs, m := s.check(r)
		obs.WriteString(sprintf("%d,%d,%d ", vs, r.Scr.X, r.Scr.AbsRow()))
		return m
	}
	m := ""
	i := 0
	see := func(r *drv.Run) string {
		scr := r.Scr
		if i == 0 {
			s = newScreen(last, c.W, height)
			above = tooWide(c.W)
		} else {
			switch c.Ops[i-1] {
			case kL:
				s = screenAfter(before, "\x1B[1;1H\x1B[2J", last, scr.Cols, height)
				above = tooWide(scr.Cols)
			case kRedraw:
				s = screenAfter(before, "\n", last, scr.Cols, height)
				above = tooWide(scr.Cols)
			}
		}
		if m := check(r); m != "" {
			return m
		}
		// resizes take place at once
		for ; i < len(c.Ops); i++ {
			w, ok := mc.ResizeOf(c.Ops[i])
			if !ok {
				break
			}
			r.W = w
			scr.Resize(w)
			before.CopyFrom(scr)
			r.Resize(w)
			mc.Ticks++
			places, aboves := afterResize(s, before, last, above)
			first := ""
			for j, p := range places {
				s, above = p, aboves[j]
				m := check(r)
				if m == "" {
					first = ""
					break
				}
				if first == "" {
					first = m
				}
			}
			if first != "" {
				return sprintf("after resizing to %d: ", w) + first
			}
		}
		before.CopyFrom(scr)
		return ""
	}
	r := drv.Exec(cfg, func(r *drv.Run) (string, error) {
		mc.Ticks++
		if m = see(r); m != "" || i >= len(c.Ops) {
			return "", drv.ErrStop
		}
		i++
		return c.Ops[i-1], nil
	})
	if m == "" && r.Panic != "" {
		m = "panic: " + r.Panic
	}
	if m != "" {
		return "", "prompt", sprintf("%s prompt %+q, width %d, keys %+q, at %d: %s", c.Kind, c.Prompts, c.W, c.Ops, i, m)
	}
	return obs.String(), "", ""
}

// promptOK leaves out prompts that may rub out half of a wide character.
func promptOK(p string) bool {
	i := strings.Index(p, "あ")
	return i < 0 || !strings.Contains(p[i:], "\b")
}

// quietSeqs are the controls and escape sequences of every form that show
// nothing and leave the cursor where it is.
func quietSeqs() (out []string) {
	for c := 0; c <= 0x7F; c++ {
		if c < ' ' && !strings.ContainsRune("\b\t\n\v\f\r\x18\x1A\x1B", rune(c)) || c == 0x7F {
			out = append(out, string(rune(c)))
		}
	}
	// modes, colours, cursor shapes, reports
	for _, arg := range []string{"", "0", "1;31", "38;5;120", "38:2::1:2:3", "?2004", "?1049;1", ">4;1", "<1", "=2"} {
		for _, mid := range []string{"", " ", "!", "$", "'", "  "} {
			for _, fin := range "hlmpqtvwxyz" {
				if fin == 'm' && mid == "" || mid != "" || strings.ContainsAny(arg, "?><=") {
					out = append(out, "\x1B["+arg+mid+string(fin))
				}
			}
		}
	}
	// titles and other strings
	for _, intro := range "]PX^_" {
		for _, body := range []string{"", "a", "0;a b", "あ", "[31m", "8;;http://x/?y=1", "0;" + strings.Repeat("long ", 30), "a\\b", "\x1B[31m"} {
			out = append(out, "\x1B"+string(intro)+body+"\x1B\\")
			if intro == ']' {
				out = append(out, "\x1B]"+body+"\a")
			}
		}
	}
	// character sets and the like
	for mid := ' '; mid <= '/'; mid++ {
		for _, fin := range "AB0FG@~" {
			out = append(out, "\x1B"+string(mid)+string(fin), "\x1B"+string(mid)+"!"+string(fin))
		}
	}
	for _, fin := range "=>79bno|}~" {
		out = append(out, "\x1B"+string(fin))
	}
	return
}

// seqs yields all sequences of n of the operations.
func seqs(ops []string, n int, yield func([]string) bool) bool {
	var rec func(cur []string, left int) bool
	rec = func(cur []string, left int) bool {
		if left == 0 {
			return yield(append([]string{}, cur...))
		}
		for _, o := range ops {
			if !rec(append(cur[:len(cur):len(cur)], o), left-1) {
				return false
			}
		}
		return true
	}
	return rec(nil, n)
}

func init() {
	tokens := []string{"a", "あ", " ", "bcd", "\x1B[31m", "\x1B[0m", "\x1B]0;t i\a", "\x1B]2;tit\x1B\\", "\b", "\n", "\r\n", "\r", "\t", "\x1B7", "\x1B(B", "\a"}
	texts := func(n int, yield func(string) bool) bool {
		for l := 0; l <= n; l++ {
			if !seqs(tokens, l, func(t []string) bool {
				p := strings.Join(t, "")
				return !promptOK(p) || yield(p)
			}) {
				return false
			}
		}
		return true
	}
	mc.Register(&mc.Prop{
		ID:   "C19",
		Rule: "an execution is one input with a prompt, a width and a sequence of keys, redraws and resizes, the screen being judged after each; states are distinct sequences of screen positions",
		Assumptions: []string{
			"the terminal cuts or extends rows when it is resized and does not reflow them",
			"the input starts at the beginning of a row, and no prompt rubs out half of a wide character or what it wrote in a row above",
			"when a resize makes the prompt too wide, the line may move to the next row or take the prompt's row",
		},
		Worlds: []*mc.World{
			runeCases("prompts", func(s string) []promptCase {
				if !shownRune(s) {
					return nil
				}
				return []promptCase{{"text", []string{"a" + s + s + "b> "}, 24, "one" + s, []string{"x", kA, kRedraw, kL, mc.Resize(30), kE, mc.Resize(20)}}}
			}, checkPrompt),
			(&mc.CaseWorld[promptCase]{
				Name: "prompts", Shards: 32, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all prompts of up to %d of %d parts (text, wide, colours, titles, rub outs, line ends, returns, tabs, other sequences), widths 4, 7, 12, 16, 80, a fixed script of editing, clearing, redrawing, growing and shrinking", tierN(tier, 4, 5), len(tokens))
				},
				Cases: func(tier string, yield func(promptCase) bool) {
					texts(tierN(tier, 4, 5), func(p string) bool {
						for _, w := range []int{4, 7, 12, 16, 80} {
							if !yield(promptCase{"text", []string{p}, w, "one two three", []string{"x", kA, kRedraw, kL, mc.Resize(w + 5), kE, mc.Resize(w), "あ", kRedraw, mc.Resize(5), kB, mc.Resize(40)}}) {
								return false
							}
						}
						return true
					})
				},
				Check: checkPrompt,
			}).World(),
			(&mc.CaseWorld[promptCase]{
				Name: "sequences", Shards: 16, Weight: 4,
				BoundTxt: func(tier string) string {
					return sprintf("%d controls and escape sequences that show nothing, at the beginning, inside and at the end of the prompt and twice, 3 widths, a fixed script", len(quietSeqs()))
				},
				Cases: func(tier string, yield func(promptCase) bool) {
					for _, q := range quietSeqs() {
						for _, p := range []string{q + "ab> ", "a" + q + "b> ", "ab> " + q, "あ" + q + q + "b\t> "} {
							for _, w := range []int{7, 12, 40} {
								if !yield(promptCase{"text", []string{p}, w, "one two three", []string{"x", kA, kRedraw, kL, mc.Resize(w + 5), kE, mc.Resize(w), "あ", kRedraw}}) {
									return
								}
							}
						}
					}
				},
				Check: checkPrompt,
			}).World(),
			(&mc.CaseWorld[promptCase]{
				Name: "long prompts", Shards: 32, Weight: 6,
				BoundTxt: func(tier string) string {
					return sprintf("all prompts of up to %d runs of 1, 7 or 30 of 10 parts, widths 20, 80, 250, a fixed script", tierN(tier, 2, 3))
				},
				Cases: func(tier string, yield func(promptCase) bool) {
					var rec func(p string, left int) bool
					rec = func(p string, left int) bool {
						if promptOK(p) {
							peak := 0
							for i := range p {
								if p[i] == '\b' {
									peak = max(peak, len(lastLine(p[:i])))
								}
							}
							for _, w := range []int{20, 80, 250} {
								if peak >= w-3 {
									continue // rubbing out does not go back over a row's end
								}
								if !yield(promptCase{"text", []string{p}, w, "one two three", []string{"x", kA, kRedraw, kL, mc.Resize(w + 5), kE, mc.Resize(w), "あ", kRedraw, mc.Resize(300), kB, kL, kB}}) {
									return false
								}
							}
						}
						if left == 0 {
							return true
						}
						for _, t := range []string{"a", "あ", "\x1B[31m", "\x1B[1;38;5;120m", "\x1B]0;t i\a", "\b", "\r\n", "\r", "\t", "x y\n"} {
							for _, n := range []int{1, 7, 30} {
								if !rec(p+strings.Repeat(t, n), left-1) {
									return false
								}
							}
						}
						return true
					}
					rec("", tierN(tier, 2, 3))
				},
				Check: checkPrompt,
			}).World(),
			(&mc.CaseWorld[promptCase]{
				Name: "redraws", Shards: 32, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all sequences of 4 of 9 editing keys, redraws and resizes, for 13 prompts (also failing, missing and changing ones) and the widths from 4 to 24 in steps of %d", tierN(tier, 5, 1))
				},
				Cases: func(tier string, yield func(promptCase) bool) {
					ops := []string{"x", kA, kE, kL, kRedraw, mc.Resize(5), mc.Resize(9), mc.Resize(14), mc.Resize(30)}
					for _, p := range []promptCase{
						{Kind: "text", Prompts: []string{"$ "}},
						{Kind: "text", Prompts: []string{""}},
						{Kind: "text", Prompts: []string{"longer prompt> "}},
						{Kind: "text", Prompts: []string{"\x1B[32mfirst line of it\n\x1B[0m$ "}},
						{Kind: "text", Prompts: []string{"あいう> "}},
						{Kind: "text", Prompts: []string{"\x1B]0;title\x1B\\$ "}},
						{Kind: "text", Prompts: []string{"two\nlines\n"}},
						{Kind: "text", Prompts: []string{"please wait...\r\x1B[K$ "}},
						{Kind: "text", Prompts: []string{"1> ", "22222> ", "333333333> ", "4> "}},
						{Kind: "text", Prompts: []string{"wide wide> ", "> ", "wide again> "}},
						{Kind: "error", Prompts: []string{""}},
						{Kind: "error", Prompts: []string{"part"}},
						{Kind: "none"},
					} {
						step := tierN(tier, 5, 1)
						for w := 4; w <= 24; w += step {
							p.W = w
							p.Def = "one two"
							if !seqs(ops, 4, func(o []string) bool {
								p.Ops = o
								return yield(p)
							}) {
								return
							}
						}
					}
				},
				Check: checkPrompt,
			}).World(),
		},
	})
}
