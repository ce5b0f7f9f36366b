package props

import (
	"context"
	"io"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// bufOp is one use of an exported operation of the buffer.
type bufOp struct {
	Op   string
	A, B int
	S    string
}

type bufCase struct {
	W    int
	Text string
	Cur  int
	Ops  []bufOp
	Env  int // one of bufEnvs
}

// bufEnvs are the editors that the operations are used in.
var bufEnvs = []drv.Config{
	{Prompt: str("$ ")},
	{Prompt: str(""), History: []string{"h", "ab cdef"}, Predict: true},
	{Prompt: str("longer> "), Cycling: true, History: []string{"x"}},
	{Prompt: str("two\nrows:"), Predict: true, Predictor: func(b *readline.Buffer) string { return "あ\tq" }},
	{Prompt: str("a prompt as wide as the terminal> ")},
}

const kProgram = "\x1B[[verif-program"

// apply is what the operation does to the line.
func (o bufOp) apply(l *line) {
	switch o.Op {
	case "InsertString":
		c := l.cur
		l.cur = o.A
		l.insertText(o.S)
		l.cur = c
	case "Delete":
		if o.A >= 0 && o.B > 0 && o.A+o.B <= len(l.u) {
			c := l.cur
			l.del(o.A, o.A+o.B)
			l.cur = c
		}
	case "Replace":
		l.del(o.A, l.cur)
		l.insertText(o.S)
	case "Insert":
		l.insertText(o.S)
	case "Cursor":
		l.cur = o.A
	}
}

// bufOps are the operations that are defined for a line.
func bufOps(l *line, texts []string) (out []bufOp) {
	n := len(l.u)
	for _, s := range texts {
		for p := 0; p <= n; p++ {
			out = append(out, bufOp{"InsertString", p, 0, s})
		}
	}
	for p := -1; p <= n+1; p++ {
		for k := -1; p+k <= n+1; k++ {
			out = append(out, bufOp{"Delete", p, k, ""})
		}
	}
	for p := 0; p <= n; p++ {
		out = append(out, bufOp{"Cursor", p, 0, ""})
	}
	if l.cur > n {
		return // the cursor has to be put back first
	}
	for _, s := range texts {
		out = append(out, bufOp{"Insert", 0, 0, s})
		for p := 0; p <= l.cur; p++ {
			out = append(out, bufOp{"Replace", p, 0, s})
		}
	}
	for _, o := range []string{"RepaintAfterPrompt", "DrawFromHead", "RepaintAll", "RepaintLastLine", "GotoHead"} {
		out = append(out, bufOp{o, 0, 0, ""})
	}
	return
}

func (o bufOp) String() string {
	switch o.Op {
	case "InsertString":
		return sprintf("InsertString(%d,%+q)", o.A, o.S)
	case "Delete":
		return sprintf("Delete(%d,%d)", o.A, o.B)
	case "Replace":
		return sprintf("ReplaceAndRepaint(%d,%+q)", o.A, o.S)
	case "Insert":
		return sprintf("InsertAndRepaint(%+q)", o.S)
	case "Cursor":
		return sprintf("Cursor=%d", o.A)
	}
	return o.Op
}

// queries asks the buffer everything about the line.
func queries(b *readline.Buffer, l *line, view int) string {
	n := len(l.u)
	us := unitsOf(l.u)
	cols := ref.Cols(us)
	if got := b.String(); got != l.text() {
		return sprintf("the text is %+q, should be %+q", got, l.text())
	}
	if len(b.Buffer) != n {
		return sprintf("the line has %d characters, should have %d", len(b.Buffer), n)
	}
	if b.Cursor != l.cur {
		return sprintf("the cursor is at %d, should be at %d", b.Cursor, l.cur)
	}
	for i := 0; i <= n; i++ {
		if n > 12 && i > 2 && i != n/2 && i < n-2 {
			continue
		}
		for j := i; j <= n; j++ {
			if n > 12 && j > i+2 && j != n/2 && j < n-2 {
				continue
			}
			if got, want := b.SubString(i, j), strings.Join(l.u[i:j], ""); got != want {
				return sprintf("SubString(%d,%d) is %+q, should be %+q", i, j, got, want)
			}
			if got, want := int(b.GetWidthBetween(i, j)), cols[j]-cols[i]; got != want {
				return sprintf("GetWidthBetween(%d,%d) is %d, should be %d (%+q)", i, j, got, want, l.text())
			}
		}
	}
	if got := int(b.ViewWidth()); got != view {
		return sprintf("ViewWidth is %d, should be %d", got, view)
	}
	if l.cur <= n {
		top := l.wordTop()
		if got := b.CurrentWordTop(); got != top {
			return sprintf("CurrentWordTop is %d, should be %d (%+q)", got, top, l.text())
		}
		w, at := b.CurrentWord()
		if want := strings.Join(l.u[top:l.cur], ""); w != want || at != top {
			return sprintf("CurrentWord is %+q at %d, should be %+q at %d", w, at, want, top)
		}
	}
	return ""
}

func (o bufOp) run(b *readline.Buffer, l *line, from string) string {
	us := unitsOf(l.u)
	cols := ref.Cols(us)
	switch o.Op {
	case "InsertString":
		want := len(ref.Current.Units(o.S))
		if got := b.InsertString(o.A, o.S); got != want {
			return sprintf("it returned %d, should return %d", got, want)
		}
	case "Delete":
		want := 0
		if o.A >= 0 && o.B > 0 && o.A+o.B <= len(l.u) {
			want = cols[o.A+o.B] - cols[o.A]
		}
		if got := int(b.Delete(o.A, o.B)); got != want {
			return sprintf("it returned %d, should return %d", got, want)
		}
	case "Replace":
		b.ReplaceAndRepaint(o.A, o.S)
	case "Insert":
		b.InsertAndRepaint(o.S)
	case "Cursor":
		b.Cursor = o.A
	case "RepaintAfterPrompt":
		b.RepaintAfterPrompt()
	case "DrawFromHead":
		b.ResetViewStart()
		b.DrawFromHead()
	case "RepaintAll":
		io.WriteString(b.Out, from)
		b.RepaintAll()
	case "RepaintLastLine":
		b.RepaintLastLine()
	case "GotoHead":
		b.GotoHead()
		io.WriteString(b.Out, "#")
	}
	return ""
}

func checkBuf(c bufCase) (outcome, sig, msg string) {
	e := bufEnvs[c.Env]
	cfg := &e
	cfg.Width, cfg.Default, cfg.Cursor = c.W, c.Text, c.Cur
	l := newLine(c.Text, c.Cur)
	history := []string{"", l.text()}
	note := func() {
		if t := l.text(); t != history[len(history)-1] {
			history = append(history, t)
		}
	}
	m := ""
	drawn := false
	// the prompt is written again in its place or, as it may have several
	// rows, below
	from := "\r"
	if c.Env > 0 {
		from = "\n"
	}
	scr := newScreen(promptOf(cfg), c.W, 6)
	if cfg.Predict {
		scr.tail = func([]vt.Cell, int) string { return "" } // judged by C07
	}
	// the program returns after each redraw to let the screen be judged
	i := 0
	cfg.Setup = func(ed *readline.Editor) {
		ed.BindKey(kProgram, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
			for i < len(c.Ops) {
				mc.Ticks++
				o := c.Ops[i]
				i++
				if m = o.run(b, l, from); m != "" {
					m = sprintf("%v: %s", o, m)
					return readline.CONTINUE
				}
				o.apply(l)
				note()
				if m = queries(b, l, scr.view()); m != "" {
					m = sprintf("after %v: %s", o, m)
					return readline.CONTINUE
				}
				switch o.Op {
				case "Replace", "Insert", "RepaintAfterPrompt", "DrawFromHead", "RepaintAll", "RepaintLastLine":
					drawn = true
					return readline.CONTINUE
				}
			}
			if l.cur > len(l.u) {
				l.cur = len(l.u)
				b.Cursor = l.cur
			}
			b.RepaintAfterPrompt()
			drawn = true
			i++
			return readline.CONTINUE
		}))
	}
	undos := 0
	var last string
	r := drv.Exec(cfg, func(r *drv.Run) (string, error) {
		mc.Ticks++
		if m != "" {
			return "", drv.ErrStop
		}
		if drawn {
			drawn = false
			if i <= len(c.Ops) && c.Ops[i-1].Op == "RepaintAll" && from == "\n" {
				scr = scr.redrawn(r.Scr, promptOf(cfg), 6)
			}
			if _, m = scr.check(r); m != "" {
				at := "at the end"
				if i <= len(c.Ops) {
					at = "after " + c.Ops[i-1].String()
				}
				m = at + ": " + m
				return "", drv.ErrStop
			}
		}
		if i <= len(c.Ops) {
			return kProgram, nil
		}
		// take it back
		if undos > 0 {
			t := r.Line()
			if r.B.Cursor < 0 || r.B.Cursor > len(r.B.Buffer) {
				m = sprintf("after undo %d the cursor is at %d", undos, r.B.Cursor)
				return "", drv.ErrStop
			}
			if _, m2 := scr.check(r); m2 != "" {
				m = sprintf("after undo %d: %s", undos, m2)
				return "", drv.ErrStop
			}
			if t != last {
				at := -1
				for k := len(history) - 1; k >= 0; k-- {
					if history[k] == t {
						at = k
						break
					}
				}
				if at < 0 {
					m = sprintf("undo %d gave %+q, which was never the text (%+q)", undos, t, history)
					return "", drv.ErrStop
				}
				history = history[:at+1]
			}
			last = t
		} else {
			last = r.Line()
		}
		if undos > len(c.Ops)+4 {
			if last != "" {
				m = sprintf("after %d undos the text is still %+q", undos, last)
			}
			return "", drv.ErrStop
		}
		undos++
		return kUS, nil
	})
	if m == "" && r.Panic != "" {
		m = "panic: " + r.Panic
	}
	if m != "" {
		return "", "operation", sprintf("line %+q cursor %d width %d: %v: %s", c.Text, c.Cur, c.W, c.Ops, m)
	}
	return sprintf("%q %d %v", l.text(), l.cur, history), "", ""
}

// programs yields all programs of up to n operations from a case.
func programs(c bufCase, texts []string, n int, yield func(bufCase) bool) bool {
	var rec func(l *line, ops []bufOp, left int) bool
	rec = func(l *line, ops []bufOp, left int) bool {
		c.Ops = ops
		if !yield(c) {
			return false
		}
		if left == 0 {
			return true
		}
		for _, o := range bufOps(l, texts) {
			nl := &line{u: append([]string{}, l.u...), cur: l.cur}
			o.apply(nl)
			if !rec(nl, append(ops[:len(ops):len(ops)], o), left-1) {
				return false
			}
		}
		return true
	}
	return rec(newLine(c.Text, c.Cur), nil, n)
}

func init() {
	texts := []string{"x", "あ ", "", "\"", "\t^"}
	mc.Register(&mc.Prop{
		ID:   "C22",
		Rule: "an execution is one program of buffer operations run by a custom command, every query being asked after each operation and the screen being judged after each redraw, and then undone step by step; states are distinct results",
		Assumptions: []string{
			"positions are within the line except for deletions, replacements end at the cursor, and the view is reset before the line is drawn from its head",
			"undoing may take back several operations at once, but only to a text that the line had",
		},
		Worlds: []*mc.World{
			runeCases("2 programs of 6 operations", func(s string) []bufCase {
				if !shownRune(s) {
					return nil
				}
				return []bufCase{
					{W: 20, Text: "x" + s + "y", Cur: 2, Ops: []bufOp{{"InsertString", 1, 0, s + "b"}, {"Delete", 1, 1, ""}, {"Cursor", 3, 0, ""}, {"Replace", 2, 0, s}, {"Insert", 0, 0, s + " "}, {"RepaintAll", 0, 0, ""}}},
					{W: 20, Text: s + "a" + s, Cur: 3, Ops: []bufOp{{"Insert", 0, 0, s}, {"Replace", 2, 0, s + "b" + s}, {"Cursor", 0, 0, ""}, {"Insert", 0, 0, s + s}, {"Delete", 0, 3, ""}, {"RepaintAfterPrompt", 0, 0, ""}}},
				}
			}, checkBuf),
			(&mc.CaseWorld[bufCase]{
				Name: "programs", Shards: 64, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all programs of up to %d operations (3 from lines of up to one character) with all positions and 5 texts, from 6 lines with every cursor position, widths 10 and 40", tierN(tier, 2, 3))
				},
				Cases: func(tier string, yield func(bufCase) bool) {
					for _, w := range []int{10, 40} {
						for _, t := range []string{"", "a", "a b", "あ\tc", "ab cd ef", "👩\u200D🦰 c"} {
							for cur := 0; cur <= len(ref.Current.Units(t)); cur++ {
								n := tierN(tier, 2, 3)
								if len(t) <= 1 {
									n = 3
								}
								if !programs(bufCase{W: w, Text: t, Cur: cur}, texts, n, yield) {
									return
								}
							}
						}
					}
				},
				Check: checkBuf,
			}).World(),
			(&mc.CaseWorld[bufCase]{
				Name: "settings", Shards: 32, Weight: 7,
				BoundTxt: func(tier string) string {
					return sprintf("all programs of up to %d operations with all positions and 2 texts, from 3 lines with every cursor position, in %d editors with other prompts (also of two rows and too wide), histories and predictions, widths 12 and 40", tierN(tier, 2, 3), len(bufEnvs)-1)
				},
				Cases: func(tier string, yield func(bufCase) bool) {
					for e := 1; e < len(bufEnvs); e++ {
						for _, w := range []int{12, 40} {
							for _, t := range []string{"", "ab c", "あ\tc"} {
								for cur := 0; cur <= len(ref.Current.Units(t)); cur++ {
									n := tierN(tier, 2, 3)
									if !programs(bufCase{W: w, Text: t, Cur: cur, Env: e}, []string{"x", "あ \t"}, n, yield) {
										return
									}
								}
							}
						}
					}
				},
				Check: checkBuf,
			}).World(),
			(&mc.CaseWorld[bufCase]{
				Name: "repeated", Shards: 64, Weight: 5,
				BoundTxt: func(tier string) string {
					return sprintf("all programs of up to 2 operations, the first done %d times, from 3 lines with 3 cursor positions, widths 10 and 40, and 2 lines of 30 and 90 characters with operations at 7 positions; in lines of more than 12 characters queries are asked for 6 beginnings", tierN(tier, 20, 60))
				},
				Cases: func(tier string, yield func(bufCase) bool) {
					for _, w := range []int{10, 40} {
						for _, t := range []string{"", "ab", "あ\tc", strings.Repeat("a b", 10), strings.Repeat("あ^ ", 30)} {
							for _, cur := range []int{0, 1, 99} {
								l := newLine(t, cur)
								cur := l.cur
								long := len(l.u) > 10
								few := func(ops []bufOp, n int) (out []bufOp) {
									for _, o := range ops {
										at := func(p int) bool {
											return p <= 1 || p == 3 || p == n/2 || p == n-3 || p == n-1 || p == n || p > n
										}
										if n <= 6 || at(o.A) && at(o.B) {
											out = append(out, o)
										}
									}
									return
								}
								for _, o := range few(bufOps(l, texts), len(l.u)) {
									nl := &line{u: append([]string{}, l.u...), cur: l.cur}
									var ops []bufOp
									times := tierN(tier, 20, 60)
									if long {
										times = 2
									}
									for i := 0; i < times; i++ {
										if o.A > len(nl.u) && o.Op != "Delete" || nl.cur > len(nl.u) && o.Op != "Delete" || o.Op == "Replace" && o.A > nl.cur {
											break
										}
										ops = append(ops, o)
										o.apply(nl)
									}
									if !yield(bufCase{W: w, Text: t, Cur: cur, Ops: ops}) {
										return
									}
									for _, o2 := range few(bufOps(nl, texts[:3]), len(nl.u)) {
										if !yield(bufCase{W: w, Text: t, Cur: cur, Ops: append(ops[:len(ops):len(ops)], o2)}) {
											return
										}
									}
								}
							}
						}
					}
				},
				Check: checkBuf,
			}).World(),
		},
	})
}
