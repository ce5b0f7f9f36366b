package props

import (
	"context"
	"strings"

	"github.com/atotto/clipboard"
	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/simplehistory"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// twoCase is two inputs, one after the other or one inside the other.
type twoCase struct {
	Env    int
	How    string // again, inside
	First  []string
	End    string // the key that ends the first input, "" = the terminal fails
	At     int    // inside: after how many keys of the first input
	Second []string
}

type twoEnv struct {
	name    string
	cfg     drv.Config
	add     bool // the application appends each line to the history
	replace bool // the application sets another initial text for the second input
}

func twoEnvs() []twoEnv {
	return []twoEnv{
		{"plain", drv.Config{Width: 20, Height: 6, Prompt: str("$ "), History: []string{"h1", "ab"}, Clip: "C"}, false, false},
		{"initial text, prediction, history kept, narrow", drv.Config{Width: 11, Height: 6, Prompt: str("> "), Default: "one two", Cursor: 3, History: []string{"one two three", "ab c"}, Predict: true, Cycling: true, Clip: "cl ip"}, true, false},
		{"coloured, other initial text", drv.Config{Width: 12, Height: 6, Prompt: str("\x1B[32m%\x1B[0m "), Default: "あ\"x", Cursor: 99, History: []string{"q"}, Coloring: func() readline.Coloring { return &coloring.VimBatch{} }}, false, true},
	}
}

// twoLook is everything a user sees of an input.
type twoLook struct {
	steps []string
	text  string
	err   error
	panic string
}

func lookNow(r *drv.Run) string {
	scr := r.Scr
	var b strings.Builder
	b.WriteString(sprintf("%q %d [%d,%d %v %v]", r.Line(), r.B.Cursor, scr.X, scr.Y, scr.Visible, scr.A))
	for y := 0; y < scr.Rows; y++ {
		b.WriteString(sprintf(" %q", strings.TrimRight(vt.RowString(scr.RowAbs(scr.Scrolled+y)), " ")))
	}
	for _, c := range scr.Row() {
		if c.R != 0 {
			b.WriteString(sprintf("%d,%d ", c.A.Fg, c.A.Bg))
		}
	}
	b.WriteString(clipboard.Text)
	return b.String()
}

func (l *twoLook) feed(ks []string, end string, at func(i int)) func(r *drv.Run) (string, error) {
	i := 0
	var md modes
	return func(r *drv.Run) (string, error) {
		mc.Ticks++
		for ; i < len(ks); i++ {
			w, ok := mc.ResizeOf(ks[i])
			if !ok {
				break
			}
			if !md.quoted && !md.search { // the notification would wait
				r.SetWidth(w)
			}
		}
		l.steps = append(l.steps, lookNow(r))
		if at != nil {
			at(i)
		}
		i++
		if i <= len(ks) {
			md.use(ks[i-1])
			return ks[i-1], nil
		}
		if i == len(ks)+1 && end != "" {
			return end, nil
		}
		return "", drv.ErrStop
	}
}

func (l *twoLook) done(r *drv.Run) {
	l.text, l.err = r.Text, r.Err
	l.panic = r.Panic
	if i := strings.IndexByte(l.panic, '\n'); i >= 0 {
		l.panic = l.panic[:i]
	}
	l.steps = append(l.steps, sprintf("%d,%d", r.Scr.X, r.Scr.Y))
}

func (l *twoLook) differs(w *twoLook) string {
	for i := 0; i < len(l.steps) && i < len(w.steps); i++ {
		if l.steps[i] != w.steps[i] {
			return sprintf("after %d keys it is %s, should be %s", i, l.steps[i], w.steps[i])
		}
	}
	if l.text != w.text || l.err != w.err || l.panic != w.panic || len(l.steps) != len(w.steps) {
		return sprintf("it ends with %+q %v %s, should end with %+q %v %s", l.text, l.err, l.panic, w.text, w.err, w.panic)
	}
	return ""
}

// twoMemo keeps what fresh editors do.
var twoMemo = map[string]*twoLook{}

func twoSetup(cfg *drv.Config) {
	cfg.Setup = func(ed *readline.Editor) {
		ed.BindKey(kPanic, readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
			panic("command")
		}))
	}
}

// freshLook runs the keys on a new editor.
func freshLook(cfg drv.Config, ks []string) *twoLook {
	key := sprintf("%d|%q|%q|%d|%q|%v|%v|%q|%q", cfg.Width, *cfg.Prompt, cfg.Default, cfg.Cursor, cfg.History, cfg.Predict, cfg.Cycling, cfg.Clip, ks)
	if l := twoMemo[key]; l != nil {
		return l
	}
	l := &twoLook{}
	twoSetup(&cfg)
	l.done(drv.Exec(&cfg, l.feed(ks, kEnter, nil)))
	if len(twoMemo) > 50000 {
		twoMemo = map[string]*twoLook{}
	}
	twoMemo[key] = l
	return l
}

func checkTwo(c twoCase) (outcome, sig, msg string) {
	env := twoEnvs()[c.Env]
	fail := func(m string) (string, string, string) {
		return "", c.How, sprintf("%s: first %+q ended by %+q, second %+q (%s at %d): %s", env.name, c.First, c.End, c.Second, c.How, c.At, m)
	}
	if c.How == "inside" {
		return checkInside(c, env, fail)
	}
	cfg := env.cfg
	twoSetup(&cfg)
	first := &twoLook{}
	// the reference may be computed before or after, never in between: the
	// emulator is shared, so it is blanked before every input
	r := drv.Exec(&cfg, first.feed(c.First, c.End, nil))
	first.done(r)
	want := env.cfg
	want.Width = r.W
	want.Clip = clipboard.Text
	want.Cursor = r.Ed.Cursor
	hist := append([]string{}, cfg.History...)
	if env.add && r.Err == nil && r.Panic == "" {
		h := simplehistory.New()
		for _, s := range hist {
			h.Add(s)
		}
		h.Add(r.Text)
		hist = append(hist, r.Text)
		r.Ed.History = h
	}
	want.History = hist
	if env.replace {
		r.Ed.Default, want.Default = "zw \"z", "zw \"z"
		r.Ed.Cursor, want.Cursor = 2, 2
	}
	r.Scr.Reset(r.W, 6)
	second := &twoLook{}
	r.Again(second.feed(c.Second, kEnter, nil))
	second.done(r)
	if m := second.differs(freshLook(want, c.Second)); m != "" {
		return fail(m)
	}
	return strings.Join(second.steps, "|"), "", ""
}

// checkInside runs a whole input on another editor while the first waits.
func checkInside(c twoCase, env twoEnv, fail func(string) (string, string, string)) (outcome, sig, msg string) {
	cfg := env.cfg
	twoSetup(&cfg)
	alone := &twoLook{}
	alone.done(drv.Exec(&cfg, alone.feed(c.First, kEnter, nil)))
	other := twoEnvs()[(c.Env+1)%len(twoEnvs())]
	first, second := &twoLook{}, &twoLook{}
	clip, ran := "", false
	cfg1 := env.cfg
	twoSetup(&cfg1)
	first.done(drv.Exec(&cfg1, first.feed(c.First, kEnter, func(i int) {
		if i != c.At || ran {
			return
		}
		ran = true
		clip = clipboard.Text
		ocfg := other.cfg
		ocfg.Clip = clip
		twoSetup(&ocfg)
		second.done(drv.ExecOn(&ocfg, vt.New(ocfg.Width, ocfg.Height, ref.Current.ScreenWidth), second.feed(c.Second, kEnter, nil)))
		clipboard.Text = clip
	})))
	if d := first.differs(alone); d != "" {
		return fail("the outer input: " + d)
	}
	if ran {
		want := other.cfg
		want.Clip = clip
		if d := second.differs(freshLook(want, c.Second)); d != "" {
			return fail("the inner input: " + d)
		}
	}
	return strings.Join(first.steps, "|"), "", ""
}

func init() {
	firstKeys := []string{"a", "あ", "long word ", "\u200D", kV, kR, kUp, kZ, kW, kY, kRight, kB, kL, kPanic, mc.Resize(9)}
	secondKeys := []string{"b", "あ", kZ, kUp, kDown, kH, kY, kR, kRight, kW, kE, kT}
	seqs := func(ks []string, n int, yield func([]string) bool) bool {
		var rec func(cur []string) bool
		rec = func(cur []string) bool {
			if !yield(cur[:len(cur):len(cur)]) {
				return false
			}
			if len(cur) == n {
				return true
			}
			for _, k := range ks {
				if !rec(append(cur[:len(cur):len(cur)], k)) {
					return false
				}
			}
			return true
		}
		return rec(nil)
	}
	mc.Register(&mc.Prop{
		ID:   "C21",
		Rule: "an execution is a pair of inputs; the second is compared step by step (text, cursor, screen, colours, clipboard, result) with the same keys on a new editor; states are distinct appearances of an input",
		Assumptions: []string{
			"the cursor field of the editor is the application's: the second input starts where it stands",
		},
		Worlds: []*mc.World{
			(&mc.CaseWorld[twoCase]{
				Name: "one after the other", Shards: 32, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all pairs of up to %d of %d keys and up to %d of %d keys, 3 environments, the first input ended by Enter, Ctrl-C, Ctrl-D or a failing terminal", 2, len(firstKeys), tierN(tier, 2, 3), len(secondKeys))
				},
				Cases: func(tier string, yield func(twoCase) bool) {
					for env := range twoEnvs() {
						for _, end := range []string{kEnter, kC, kD, ""} {
							if !seqs(firstKeys, 2, func(f []string) bool {
								return seqs(secondKeys, tierN(tier, 2, 3), func(s []string) bool {
									return yield(twoCase{Env: env, How: "again", First: f, End: end, Second: s})
								})
							}) {
								return
							}
						}
					}
				},
				Check: checkTwo,
			}).World(),
			(&mc.CaseWorld[twoCase]{
				Name: "long first input", Shards: 32, Weight: 7,
				BoundTxt: func(tier string) string {
					return sprintf("all first inputs of up to %d keys, 3 environments and 4 ends, with 7 fixed second inputs", tierN(tier, 3, 4))
				},
				Cases: func(tier string, yield func(twoCase) bool) {
					for env := range twoEnvs() {
						for _, end := range []string{kEnter, kC, kD, ""} {
							if !seqs(firstKeys, tierN(tier, 3, 4), func(f []string) bool {
								for _, s := range [][]string{{kZ, "b", kZ}, {kUp, kUp, kDown, kZ}, {kR, "o", kEnter}, {kRight, kE, kY}, {"\u200D", "b"}, {kV, kC, kH}, {kL, kW, kZ, kZ}} {
									if !yield(twoCase{Env: env, How: "again", First: f, End: end, Second: s}) {
										return false
									}
								}
								return true
							}) {
								return
							}
						}
					}
				},
				Check: checkTwo,
			}).World(),
			(&mc.CaseWorld[twoCase]{
				Name: "runs", Shards: 32, Weight: 7,
				BoundTxt: func(tier string) string {
					return sprintf("all first inputs of up to 2 runs of %d of %d keys, 3 environments and 4 ends, with 7 fixed second inputs", tierN(tier, 25, 80), len(firstKeys))
				},
				Cases: func(tier string, yield func(twoCase) bool) {
					for env := range twoEnvs() {
						for _, end := range []string{kEnter, kC, kD, ""} {
							if !seqs(firstKeys, 2, func(f []string) bool {
								var ks []string
								for _, k := range f {
									for n := 0; n < tierN(tier, 25, 80); n++ {
										ks = append(ks, k)
									}
								}
								for _, s := range [][]string{{kZ, "b", kZ}, {kUp, kUp, kDown, kZ}, {kR, "o", kEnter}, {kRight, kE, kY}, {"\u200D", "b"}, {kV, kC, kH}, {kL, kW, kZ, kZ}} {
									if !yield(twoCase{Env: env, How: "again", First: ks, End: end, Second: s}) {
										return false
									}
								}
								return true
							}) {
								return
							}
						}
					}
				},
				Check: checkTwo,
			}).World(),
			(&mc.CaseWorld[twoCase]{
				Name: "one inside the other", Shards: 32, Weight: 6,
				BoundTxt: func(tier string) string {
					return sprintf("all first inputs of up to 3 keys, interrupted at every key by an input of another editor of up to %d keys, 3 environments", tierN(tier, 1, 2))
				},
				Cases: func(tier string, yield func(twoCase) bool) {
					for env := range twoEnvs() {
						if !seqs(firstKeys, 3, func(f []string) bool {
							for at := 0; at <= len(f); at++ {
								if !seqs(secondKeys, tierN(tier, 1, 2), func(s []string) bool {
									return yield(twoCase{Env: env, How: "inside", First: f, At: at, Second: s})
								}) {
									return false
								}
							}
							return true
						}) {
							return
						}
					}
				},
				Check: checkTwo,
			}).World(),
		},
	})
}
