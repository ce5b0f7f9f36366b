package props

import (
	"bufio"
	"context"
	"io"
	"os"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/drv"
	"verifh/mc"
	"verifh/vt"
)

// fieldsCase is an input on an editor some of whose fields are not set.
type fieldsCase struct {
	Out   string // how the output is configured, see outKinds
	Unset string // the fields that are left unset, of "HPLRC"
	Note  bool   // the application prints something before the input
	Keys  []string
}

const kCtx = "\x1B[[verif-context"

// outKinds: own (an own buffered writer as Out), writer (only Writer), buffered
// (Writer is a buffered writer), init (as writer, with Init called before),
// both (a Writer that is not to be used besides Out), stdout (neither).
var outKinds = []string{"writer", "buffered", "small", "medium", "init", "both", "stdout"}

type ctxKey struct{}

type plainColors struct{}

func (plainColors) Init() readline.ColorSequence     { return readline.DefaultForeGroundColor }
func (plainColors) Next(rune) readline.ColorSequence { return readline.DefaultForeGroundColor }

var stdoutFile *os.File

// otherCtx tells that a command was given another context than ReadLine.
var otherCtx bool

// runFields makes the input and tells what could be seen at each key.
func runFields(c fieldsCase) (seen []string, end string) {
	unset := func(f string) bool { return strings.Contains(c.Unset, f) }
	hist := drv.Hist{"abc def", "xyz", "ab\tc"}
	ctx := context.WithValue(context.Background(), ctxKey{}, "mine")
	cfg := &drv.Config{Width: 14, Height: 8, Predict: true, Ctx: ctx, Clip: "pq"}
	var log strings.Builder
	var flush func(scr *vt.Screen)
	note := func(w io.Writer) {
		if c.Note {
			io.WriteString(w, "note\n")
		}
	}
	cfg.Setup = func(ed *readline.Editor) {
		scr := ed.Writer.(*vt.Screen)
		if !unset("H") {
			ed.History = drv.Hist{}
			if !strings.Contains(c.Unset, "h") {
				ed.History = hist
			}
		}
		if !unset("P") {
			ed.PromptWriter = func(w io.Writer) (int, error) { return io.WriteString(w, "\n> ") }
		}
		if !unset("L") {
			ed.LineFeedWriter = func(_ readline.Result, w io.Writer) (int, error) { return io.WriteString(w, "\n") }
		}
		if !unset("R") {
			ed.Predictor = func(b *readline.Buffer) string {
				t := b.String()
				for i := b.History.Len() - 1; i >= 0; i-- {
					if h := b.History.At(i); strings.HasPrefix(h, t) {
						return h[len(t):]
					}
				}
				return ""
			}
		}
		if !unset("C") {
			ed.Coloring = plainColors{}
		}
		switch c.Out {
		case "own":
			note(ed.Out)
		case "writer":
			ed.Out = nil
			note(scr)
		case "buffered", "small", "medium":
			w := bufio.NewWriterSize(scr, map[string]int{"buffered": 4096, "small": 16, "medium": 1000}[c.Out])
			ed.Out, ed.Writer = nil, w
			note(w)
		case "init":
			ed.Out = nil
			ed.Init()
			note(ed.Out)
		case "both":
			ed.Writer = &log
			note(ed.Out)
		case "stdout":
			if stdoutFile == nil {
				f, err := os.CreateTemp("", "vh-stdout")
				if err != nil {
					panic(err)
				}
				os.Remove(f.Name())
				stdoutFile = f
			}
			stdoutFile.Truncate(0)
			stdoutFile.Seek(0, io.SeekStart)
			at := int64(0)
			flush = func(scr *vt.Screen) {
				b, _ := io.ReadAll(io.NewSectionReader(stdoutFile, at, 1<<20))
				at += int64(len(b))
				scr.Write(b)
			}
			ed.Out, ed.Writer = nil, nil
			note(stdoutFile)
		}
		ed.BindKey(kCtx, readline.AnonymousCommand(func(ctx context.Context, b *readline.Buffer) readline.Result {
			v, _ := ctx.Value(ctxKey{}).(string)
			if v != "mine" {
				otherCtx = true
			}
			b.InsertAndRepaint(v)
			return readline.CONTINUE
		}))
	}
	look := func(r *drv.Run) string {
		if flush != nil {
			flush(r.Scr)
		}
		var b strings.Builder
		for y := 0; y < r.Scr.Rows; y++ {
			for _, cell := range r.Scr.RowAbs(y + r.Scr.Scrolled) {
				if !cell.Blank() {
					b.WriteString(cell.Glyph())
					if cell.A != vt.DefAttr {
						b.WriteString(sprintf("{%d %d %v %v}", cell.A.Fg, cell.A.Bg, cell.A.Bold, cell.A.Italic))
					}
				} else {
					b.WriteByte(' ')
				}
			}
			b.WriteByte('/')
		}
		b.WriteString(sprintf("%d,%d,%v,%d %q", r.Scr.X, r.Scr.Y, r.Scr.Visible && !r.Scr.Incomplete(), r.Scr.Scrolled, r.Scr.Anomalies))
		return b.String()
	}
	if c.Out == "stdout" {
		defer func(f *os.File) { os.Stdout = f }(os.Stdout)
	}
	i := 0
	otherCtx = false
	if c.Out == "stdout" {
		setup := cfg.Setup
		cfg.Setup = func(ed *readline.Editor) {
			setup(ed)
			os.Stdout = stdoutFile
		}
	}
	r := drv.Exec(cfg, func(r *drv.Run) (string, error) {
		mc.Ticks++
		seen = append(seen, sprintf("%+q@%d ", r.Line(), r.B.Cursor)+look(r))
		if i >= len(c.Keys) {
			return kEnter, nil
		}
		i++
		return c.Keys[i-1], nil
	})
	end = sprintf("%+q %s %s ", r.Text, errName(r.Err), r.Panic) + look(r)
	if log.Len() > 0 {
		end += sprintf(" %d bytes of output past Out", log.Len())
	}
	return
}

var fieldsRef = map[string][]string{}

func checkFields(c fieldsCase) (outcome, sig, msg string) {
	// what the editor does with everything set
	full := fieldsCase{Out: "own", Note: c.Note, Keys: c.Keys}
	if strings.Contains(c.Unset, "H") {
		full.Unset = "h"
	}
	id := sprintf("%v %s %q", full.Note, full.Unset, full.Keys)
	want := fieldsRef[id]
	if want == nil {
		s, e := runFields(full)
		want = append(s, e)
		if len(fieldsRef) > 5000 {
			fieldsRef = map[string][]string{}
		}
		fieldsRef[id] = want
	}
	s, e := runFields(c)
	got := append(s, e)
	if otherCtx {
		return "", "context", sprintf("keys %+q: a command was not given the context of ReadLine", c.Keys)
	}
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "nothing"
			if i < len(got) {
				g = got[i]
			}
			return "", "fields", sprintf("output %s, unset %q, note %v, keys %+q: at step %d\n%s\nbut with everything set\n%s", c.Out, c.Unset, c.Note, c.Keys, i, g, want[i])
		}
	}
	if len(got) != len(want) {
		return "", "fields", sprintf("output %s, unset %q, note %v, keys %+q: the input went on after its end", c.Out, c.Unset, c.Note, c.Keys)
	}
	return want[len(want)-1], "", ""
}

func init() {
	keys := []string{"a", "x", kP, kR, kTab, kB, kF, kH, kY, kL, kCtx, kC, kD, kZ}
	subsets := func() (out []string) {
		for m := 0; m < 32; m++ {
			s := ""
			for i, f := range []string{"H", "P", "L", "R", "C"} {
				if m&(1<<i) != 0 {
					s += f
				}
			}
			out = append(out, s)
		}
		return
	}()
	mc.Register(&mc.Prop{
		ID:   "C24",
		Rule: "an execution is one ReadLine on an editor with some fields unset and one way to give the output; screen, line and cursor at every key and the result are compared with those of an editor with everything set; states are distinct final observations",
		Assumptions: []string{
			"the defaults are: no history, a prompt of a line feed and \"> \", a line feed at the end, prediction by the newest entry, the plain colour, standard output",
		},
		Worlds: []*mc.World{
			(&mc.CaseWorld[fieldsCase]{
				Name: "fields", Shards: 16, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all sequences of up to %d of %d keys, all subsets of 5 fields unset, %d ways to give the output (own buffers of 16, 1000 and 4096 bytes included), with and without earlier output", tierN(tier, 2, 3), len(keys), len(outKinds))
				},
				Cases: func(tier string, yield func(fieldsCase) bool) {
					var rec func(k []string, left int) bool
					rec = func(k []string, left int) bool {
						for _, o := range outKinds {
							for _, u := range subsets {
								for _, n := range []bool{false, true} {
									if !yield(fieldsCase{o, u, n, k}) {
										return false
									}
								}
							}
						}
						if left == 0 {
							return true
						}
						for _, x := range keys {
							if !rec(append(k[:len(k):len(k)], x), left-1) {
								return false
							}
						}
						return true
					}
					rec(nil, tierN(tier, 2, 3))
				},
				Check: checkFields,
			}).World(),
		},
	})
}
