package props

import (
	"context"
	"errors"
	"io"
	"os"
	"strings"

	"github.com/atotto/clipboard"
	gotty "github.com/mattn/go-tty"
	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/tty10"
	"golang.org/x/term"

	"verifh/drv"
	"verifh/mc"
)

const (
	kPanic = "\x1B[[verif-panic"
	kRes0  = "\x1B[[verif-res" // + ENTER, ABORT, INTR
)

// envCall is one question the library asks its environment.
type envCall struct {
	op   string // open, size, key, close, prompt, linefeed, out, clipread, clipwrite
	step int    // keys delivered before
}

// faultPlan makes the nth call of an operation fail in a way.
type faultPlan struct {
	Op  string
	N   int
	How string // once, ever, short, panic
}

type obsStep struct {
	line string
	cur  int
}

// faultRun is one execution with its environment.
type faultRun struct {
	plan  faultPlan
	calls []envCall
	seen  map[string]int
	hit   bool
	hitAt int // keys delivered when the fault struck
	keys  int // keys delivered
	obs   []obsStep
	r     *drv.Run
	late  string // a use of the terminal outside of open..close
	state int    // 0 before, 1 open, 2 closed
	lf    []readline.Result
	tail  strings.Builder // output since the last key
	scr   string          // what the screen check said after the fault
	waits int             // key reads after the fault
	end   readline.Result
}

func (f *faultRun) fault(op string) error {
	n := f.seen[op]
	f.seen[op]++
	f.calls = append(f.calls, envCall{op, f.keys})
	switch op {
	case "open":
		if f.state != 0 {
			f.late = "the terminal is opened again"
		}
	case "size", "key", "close":
		if f.state != 1 {
			f.late = "the terminal is not open but is used: " + op
		}
	}
	if op == f.plan.Op && (n == f.plan.N || n > f.plan.N && f.plan.How == "ever") {
		if !f.hit {
			f.hit = true
			f.hitAt = f.keys
		}
		if f.plan.How == "panic" {
			panic(errFault)
		}
		return errFault
	}
	return nil
}

type faultTty struct {
	f     *faultRun
	inner readline.ITty
}

func (t faultTty) Open(on func(int)) error {
	err := t.f.fault("open")
	if err == nil {
		t.f.state = 1
		err = t.inner.Open(on)
	}
	return err
}
func (t faultTty) Size() (int, int, error) {
	if err := t.f.fault("size"); err != nil {
		return 0, 0, err
	}
	return t.inner.Size()
}
func (t faultTty) GetKey() (string, error) {
	if t.f.hit {
		t.f.waits++
	}
	if err := t.f.fault("key"); err != nil {
		return "", err
	}
	k, err := t.inner.GetKey()
	if err == nil {
		t.f.tail.Reset()
	}
	return k, err
}
func (t faultTty) Close() error {
	err := t.f.fault("close")
	t.f.state = 2
	t.inner.Close()
	return err
}

type faultWriter struct {
	f *faultRun
	w io.Writer
}

func (w *faultWriter) Write(p []byte) (int, error) {
	if err := w.f.fault("out"); err != nil {
		if w.f.plan.How == "short" {
			return len(p) / 2, nil
		}
		return 0, err
	}
	w.f.tail.Write(p)
	return w.w.Write(p)
}

type faultEnvCfg struct {
	name    string
	lfw     bool
	outSize int
	width   int
	def     string
	predict bool
}

var faultCfgs = []faultEnvCfg{
	{"plain", false, 4096, 80, "x y", false},
	{"narrow, small output buffer, own line feed", true, 16, 14, "one two", false},
	{"prediction and colours", false, 4096, 30, "h ", true},
}

// runFault runs the keys in an environment with at most one fault.
func runFault(c faultEnvCfg, ks []string, plan faultPlan) *faultRun {
	f := &faultRun{plan: plan, seen: map[string]int{}}
	cfg := &drv.Config{Width: c.width, Default: c.def, Cursor: 99, History: []string{"h one", "two"}, Clip: "C D",
		OutSize: c.outSize, Predict: c.predict,
		PromptFunc: func(w io.Writer) (int, error) {
			n, _ := io.WriteString(w, "$ ")
			return n, f.fault("prompt")
		},
		Setup: func(ed *readline.Editor) {
			ed.Tty = faultTty{f, ed.Tty}
			if c.predict {
				ed.Coloring = &coloring.VimBatch{}
			}
			w := &faultWriter{f, ed.Writer}
			ed.Writer = w
			ed.Out.Reset(w)
			if c.lfw {
				ed.LineFeedWriter = func(rc readline.Result, w io.Writer) (int, error) {
					f.lf = append(f.lf, rc)
					io.WriteString(w, "<\n")
					return 2, f.fault("linefeed")
				}
			}
			ed.BindKey(kPanic, readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
				panic("command")
			}))
			for _, rc := range []readline.Result{readline.ENTER, readline.ABORT, readline.INTR} {
				ed.BindKey(keys.Code(resKey(rc)), readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
					return rc
				}))
			}
		}}
	first := true
	f.r = drv.Exec(cfg, func(r *drv.Run) (string, error) {
		mc.Ticks++
		if first {
			first = false
			clipboard.Fault = func(op string) error { return f.fault("clip" + op) }
		}
		f.obs = append(f.obs, obsStep{r.Line(), r.B.Cursor})
		if f.hit && f.scr == "" && !c.predict && (plan.Op == "key" || plan.Op == "prompt" || strings.HasPrefix(plan.Op, "clip")) && f.hitAt == f.keys {
			if _, m := newScreen("$ ", c.width, r.Cfg.Height).check(r); m != "" {
				f.scr = m
			}
		}
		if f.keys >= len(ks) {
			return "", drv.ErrStop
		}
		f.keys++
		return ks[f.keys-1], nil
	})
	clipboard.Fault = nil
	return f
}

func resKey(rc readline.Result) string { return kRes0 + string(rune('0'+int(rc))) }

// finished judges how an execution ended. broken says that the output failed.
func (f *faultRun) finished(c faultEnvCfg, broken bool) string {
	r := f.r
	if f.late != "" {
		return f.late
	}
	opened := f.seen["open"] == 1 && !(f.hit && f.plan.Op == "open")
	if f.seen["open"] != 1 {
		return sprintf("the terminal was opened %d times", f.seen["open"])
	}
	if want := b2i(opened); f.seen["close"] != want {
		return sprintf("the terminal was closed %d times, should be closed %d times", f.seen["close"], want)
	}
	if broken {
		return ""
	}
	if r.Ed.Out.Buffered() != 0 {
		return sprintf("%d bytes were not sent", r.Ed.Out.Buffered())
	}
	if !r.Scr.Visible {
		return "the cursor is hidden at the end"
	}
	if r.Scr.Incomplete() {
		return "the output ends within an escape sequence"
	}
	return ""
}

// normal judges an input that was ended by a key.
func (f *faultRun) normal(c faultEnvCfg, broken bool) string {
	r := f.r
	rc := readline.ENTER
	switch r.Err {
	case nil:
		if len(f.obs) > 0 && r.Text != f.obs[len(f.obs)-1].line {
			return sprintf("returned %+q, the line was %+q", r.Text, f.obs[len(f.obs)-1].line)
		}
	case readline.CtrlC:
		rc = readline.INTR
	case io.EOF:
		rc = readline.ABORT
	default:
		return ""
	}
	if c.lfw && (len(f.lf) != 1 || f.lf[0] != rc) {
		return sprintf("the line feed function was called with %v, should be with %v", f.lf, rc)
	}
	if broken {
		return ""
	}
	if n := strings.Count(f.tail.String(), "\n"); n != 1 {
		return sprintf("%d line feeds at the end: %+q", n, f.tail.String())
	}
	if r.Scr.X != 0 || r.Scr.Pending {
		return "the cursor is not at the beginning of a row at the end; " + showScreen(r.Scr)
	}
	for i := 0; i < r.Scr.Cols; i++ {
		if !r.Scr.Row()[i].Blank() {
			return "something is shown after the line feed; " + showScreen(r.Scr)
		}
	}
	return ""
}

// normalUnless is normal for an input that no command made panic.
func (f *faultRun) normalUnless(c faultEnvCfg) string {
	if f.r.Panic != "" {
		return ""
	}
	return f.normal(c, false)
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sameObs(a, b []obsStep) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return -1
}

type faultCase struct {
	Cfg  int
	Keys []string
}

func checkFaults(fc faultCase) (outcome, sig, msg string) {
	c := faultCfgs[fc.Cfg]
	fail := func(p faultPlan, f *faultRun, m string) (string, string, string) {
		at := "no fault"
		if p.Op != "" {
			at = sprintf("call %d of %s fails (%s)", p.N, p.Op, p.How)
		}
		return "", "fault " + p.Op, sprintf("%s; keys %+q; %s: %s", c.name, fc.Keys, at, m)
	}
	base := runFault(c, fc.Keys, faultPlan{})
	panics := base.r.Panic != ""
	none := faultPlan{}
	if panics && !strings.HasPrefix(base.r.Panic, "command") {
		return fail(none, base, "panic: "+base.r.Panic)
	}
	if m := base.finished(c, false); m != "" {
		return fail(none, base, m)
	}
	if !panics {
		if m := base.normal(c, false); m != "" {
			return fail(none, base, m)
		}
		if m := wantEnd(base, fc.Keys); m != "" {
			return fail(none, base, m)
		}
	} else if m := runFault(c, fc.Keys, none).usable(); m != "" {
		return fail(none, base, "after a panic: "+m)
	}
	for op, n := range base.seen {
		hows := []string{"once", "ever"}
		switch op {
		case "open", "size", "close":
			hows = []string{"once"}
		case "out":
			hows = []string{"once", "short"}
		case "key", "prompt":
			hows = []string{"once", "ever", "panic"}
		}
		for i := 0; i < n; i++ {
			for _, how := range hows {
				p := faultPlan{op, i, how}
				f := runFault(c, fc.Keys, p)
				if m := judgeFault(c, fc, p, base, f); m != "" {
					return fail(p, f, m)
				}
			}
		}
	}
	return sprintf("%v %q %v %v", base.obs, base.r.Text, base.r.Err, panics), "", ""
}

// wantEnd tells which error the input must end with.
func wantEnd(f *faultRun, ks []string) string {
	if f.keys == 0 || f.r.Err == drv.ErrStop {
		return ""
	}
	last := ks[f.keys-1]
	var want error
	switch last {
	case kEnter, resKey(readline.ENTER):
	case kC, resKey(readline.INTR):
		want = readline.CtrlC
	case kD, resKey(readline.ABORT):
		want = io.EOF
	default:
		return sprintf("the key %+q ended the input", last)
	}
	if f.r.Err != want {
		return sprintf("the key %+q ended the input with %v", last, f.r.Err)
	}
	return ""
}

// usable makes one more input with the same editor.
func (f *faultRun) usable() string {
	f.plan = faultPlan{}
	f.state = 0
	f.seen = map[string]int{}
	f.r.Ed.BindKey(kPanic, nil)
	ks := []string{kE, kU, "q", kEnter}
	i := 0
	f.r.Again(func(r *drv.Run) (string, error) {
		mc.Ticks++
		i++
		if i > len(ks) {
			return "", drv.ErrStop
		}
		return ks[i-1], nil
	})
	if f.r.Panic != "" || f.r.Err != nil || f.r.Text != "q" {
		return sprintf("the next input gave %+q, error %v, panic %q", f.r.Text, f.r.Err, f.r.Panic)
	}
	return ""
}

func judgeFault(c faultEnvCfg, fc faultCase, p faultPlan, base, f *faultRun) string {
	if !f.hit {
		return "" // an earlier difference removed the call
	}
	broken := p.Op == "out"
	r := f.r
	if m := f.finished(c, broken); m != "" {
		return m
	}
	if p.How == "panic" {
		if r.Panic == "" {
			return "the panic disappeared"
		}
		if m := f.usable(); m != "" {
			return m
		}
		return ""
	}
	if r.Panic != "" && !strings.HasPrefix(r.Panic, "command") {
		return "panic: " + r.Panic
	}
	switch p.Op {
	case "open", "size":
		if !errors.Is(r.Err, errFault) {
			return sprintf("the error is %v", r.Err)
		}
		return ""
	case "key":
		if p.How == "ever" {
			if !errors.Is(r.Err, errFault) {
				return sprintf("the error is %v", r.Err)
			}
			if f.waits > 2 {
				return sprintf("the failing terminal was asked %d times more", f.waits)
			}
			return ""
		}
		if errors.Is(r.Err, errFault) {
			return ""
		}
		// a key was lost within a command; the line must be as before
		if f.scr != "" {
			return f.scr
		}
		n := f.hitAt
		if n < len(f.obs) && n < len(base.obs) && f.obs[n].line != base.obs[n].line && n > 0 && f.obs[n].line != base.obs[n-1].line {
			return sprintf("the line became %+q", f.obs[n].line)
		}
		return f.normalUnless(c)
	case "clipread":
		if f.scr != "" {
			return f.scr
		}
		// the key does nothing: the same as without it
		at := f.hitAt - 1
		if f.hitAt < len(f.obs) && f.obs[f.hitAt] != f.obs[at] {
			return sprintf("the line became %+q from %+q", f.obs[f.hitAt].line, f.obs[at].line)
		}
		if p.How == "once" {
			without := runFault(c, append(append([]string{}, fc.Keys[:at]...), fc.Keys[at+1:]...), faultPlan{})
			if without.r.Text != r.Text || without.r.Err != r.Err {
				return sprintf("the result is %+q %v, without the key it is %+q %v", r.Text, r.Err, without.r.Text, without.r.Err)
			}
		}
		return f.normalUnless(c)
	case "clipwrite":
		if f.scr != "" {
			return f.scr
		}
		n := len(f.obs)
		for i := f.hitAt; i < len(fc.Keys); i++ {
			if k := fc.Keys[i]; (k == kY || k == kMy) && i+1 < n {
				n = i + 1
				break
			}
		}
		if i := sameObs(f.obs[:n], base.obs); i >= 0 {
			return sprintf("after %d keys the line is %+q cursor %d, should be %+q cursor %d", i, f.obs[i].line, f.obs[i].cur, base.obs[i].line, base.obs[i].cur)
		}
		return f.normalUnless(c)
	}
	// prompt, out, linefeed, close: nothing changes
	if f.scr != "" {
		return f.scr
	}
	if i := sameObs(f.obs, base.obs); i >= 0 || len(f.obs) != len(base.obs) {
		if i < 0 {
			return "the editing stopped"
		}
		return sprintf("after %d keys the line is %+q cursor %d, should be %+q cursor %d", i, f.obs[i].line, f.obs[i].cur, base.obs[i].line, base.obs[i].cur)
	}
	if r.Text != base.r.Text || r.Err != base.r.Err {
		return sprintf("the result is %+q %v, should be %+q %v", r.Text, r.Err, base.r.Text, base.r.Err)
	}
	if r.Panic == "" {
		return f.normal(c, broken)
	}
	return ""
}

// ttyFaultCase is an input on one of the library's own terminals.
type ttyFaultCase struct {
	Tty  string // default, polling
	Keys []string
}

func checkTtyFaults(c ttyFaultCase) (outcome, sig, msg string) {
	text := strings.Join(c.Keys, "")
	type result struct {
		text  string
		err   error
		ops   map[string]int
		note  string
		panic string
	}
	run := func(op string, n int) (res result) {
		res.ops = map[string]int{}
		fault := func(o string) error {
			i := res.ops[o]
			res.ops[o]++
			if o == op && i == n {
				return errFault
			}
			return nil
		}
		scr := drv.Screen(80, 6)
		ed := &readline.Editor{Writer: scr, Default: "d", Cursor: 1, PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, "$ ") }}
		if c.Tty == "default" {
			dev := &gotty.Device{In: strings.NewReader(text), W: 80, H: 25, Fault: fault}
			gotty.Dev = dev
			defer func() {
				gotty.Dev = nil
				switch {
				case dev.Opens != dev.Closes:
					res.note = sprintf("the terminal was opened %d times and closed %d times", dev.Opens, dev.Closes)
				case dev.DoubleClose != 0 || dev.UseAfterClose != 0:
					res.note = "the terminal was used after it was closed"
				case dev.RawDepth != 0:
					res.note = "the terminal was left in raw mode"
				}
			}()
		} else {
			term.Reset()
			pr, pw, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			old := os.Stdin
			os.Stdin = pr
			defer func() { os.Stdin = old; pr.Close(); term.Reset() }()
			io.WriteString(pw, text)
			pw.Close()
			term.FailMakeRaw = func(int) bool { return fault("raw") != nil }
			term.SizeFunc = func() (int, int, error) { return 80, 25, fault("size") }
			ed.Tty = &tty10.Tty{}
			defer func() {
				if term.RawDepth != 0 || term.BadRestore != 0 {
					res.note = "the terminal was left in raw mode"
				}
			}()
		}
		drv.Executions++
		mc.Ticks++
		defer func() {
			if e := recover(); e != nil {
				res.panic = sprintf("%v", e)
			}
			if !scr.Visible {
				res.note = "the cursor is hidden at the end"
			}
			if ed.Out.Buffered() != 0 {
				res.note = "output was not sent"
			}
		}()
		res.text, res.err = ed.ReadLine(context.Background())
		return
	}
	base := run("", 0)
	if base.panic != "" || base.note != "" {
		return "", "terminal", sprintf("%s terminal, keys %+q: %s%s", c.Tty, c.Keys, base.panic, base.note)
	}
	out := sprintf("%q %v", base.text, base.err)
	for op, n := range base.ops {
		for i := 0; i < n; i++ {
			res := run(op, i)
			out += sprintf(" %s%d:%q,%v", op, i, res.text, res.err)
			m := res.note
			if res.panic != "" {
				m = "panic: " + res.panic
			}
			if m == "" && res.err == nil {
				m = sprintf("the input ended with %+q and no error", res.text)
			}
			if m == "" && (op == "open" || op == "size") && !errors.Is(res.err, errFault) {
				m = sprintf("the error is %v", res.err)
			}
			if m == "" && op != "open" && op != "size" && !errors.Is(res.err, errFault) && !errors.Is(res.err, term.ErrFault) && !errors.Is(res.err, io.EOF) && !errors.Is(res.err, readline.CtrlC) {
				m = sprintf("the error is %v", res.err)
			}
			if m != "" {
				return "", "terminal", sprintf("%s terminal, keys %+q, call %d of %s fails: %s", c.Tty, c.Keys, i, op, m)
			}
		}
	}
	return out, "", ""
}

func init() {
	keysOfC15 := []string{"a", kB, kH, kW, kU, kK, kY, kMy, kV, kR, kUp, kZ, kL, kD, kC, kEnter, kPanic, resKey(readline.ENTER), resKey(readline.ABORT), resKey(readline.INTR)}
	mc.Register(&mc.Prop{
		ID:   "C15",
		Rule: "an execution is one input with at most one failing environment call (or a call that keeps failing); for every key sequence each call the library makes is failed in turn; states are distinct outcomes",
		Assumptions: []string{
			"a key that cannot be read within a command (search, quoted insert) may either end the input with the error or be given up, provided the terminal works again",
			"no line feed is demanded when the terminal itself fails",
		},
		Worlds: []*mc.World{
			(&mc.CaseWorld[faultCase]{
				Name: "faults", Shards: 32, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all sequences of up to %d of %d keys followed by Enter, 2 environments (a third one with sequences shorter by one), every environment call failing once, for ever, partly or with a panic", tierN(tier, 3, 4), len(keysOfC15))
				},
				Cases: func(tier string, yield func(faultCase) bool) {
					var rec func(cur []string, left int) bool
					rec = func(cur []string, left int) bool {
						for c := range faultCfgs {
							if faultCfgs[c].predict && left == 0 {
								continue
							}
							if !yield(faultCase{c, append(cur[:len(cur):len(cur)], kEnter, kEnter)}) {
								return false
							}
						}
						if left == 0 {
							return true
						}
						for _, k := range keysOfC15 {
							if !rec(append(cur[:len(cur):len(cur)], k), left-1) {
								return false
							}
						}
						return true
					}
					rec(nil, tierN(tier, 3, 4))
				},
				Check: checkFaults,
			}).World(),
			(&mc.CaseWorld[ttyFaultCase]{
				Name: "own terminals", Shards: 8, Weight: 4,
				BoundTxt: func(tier string) string {
					return sprintf("all sequences of up to %d of 9 keys on the default and the polling terminal, every operation of the terminal failing once", tierN(tier, 2, 3))
				},
				Cases: func(tier string, yield func(ttyFaultCase) bool) {
					ks := []string{"a", kH, kV, kR, kUp, "あ", kC, kEnter, kEsc}
					var rec func(cur []string, left int) bool
					rec = func(cur []string, left int) bool {
						for _, t := range []string{"default", "polling"} {
							if !yield(ttyFaultCase{t, cur}) || !yield(ttyFaultCase{t, append(cur[:len(cur):len(cur)], kEnter)}) {
								return false
							}
						}
						if left == 0 {
							return true
						}
						for _, k := range ks {
							if !rec(append(cur[:len(cur):len(cur)], k), left-1) {
								return false
							}
						}
						return true
					}
					rec(nil, tierN(tier, 2, 3))
				},
				Check: checkTtyFaults,
			}).World(),
		},
	})
}
