// Package drv drives the real editor: it supplies the terminal (keys in,
// emulated screen out), the history, the clipboard and every other answer the
// library asks its environment for, and gives oracles a look at the editor
// each time it waits for a key.
package drv

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime/debug"
	"sync/atomic"
	"time"

	"github.com/atotto/clipboard"
	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/ref"
	"verifh/vt"
)

// ProbeKey is the first key of every run: bound to a command that only hands
// the *Buffer to the harness.
const ProbeKey = "\x1B[[verif-probe"

// RedrawKey is bound to the command that draws the line again on a new row.
const RedrawKey = "\x1B[[verif-redraw"

// ErrStop makes ReadLine return at once.
var ErrStop = errors.New("verif: end of script")

// ErrRunaway ends a run that asks for far more keys than its script has.
var ErrRunaway = errors.New("verif: runaway")

// Config is one environment.
type Config struct {
	Width, Height int
	Prompt        *string // nil: the library's default prompt
	PromptFunc    func(io.Writer) (int, error)
	Default       string
	Cursor        int
	History       []string
	Cycling       bool
	Predict       bool
	PredictColor  [2]string // instead of the default colours
	Predictor     func(*readline.Buffer) string
	Coloring      func() readline.Coloring
	Quotes        *string // nil: the library's default
	Clip          string
	ClipFailRead  bool
	ClipFailWrite bool
	Setup         func(*readline.Editor)
	OutSize       int
	Redraw        bool // bind RedrawKey
	NoProbe       bool
	KeepRaw       bool
	Ctx           context.Context
}

// Hist is a history with a fixed content.
type Hist []string

// Len implements readline.IHistory.
func (h Hist) Len() int { return len(h) }

// At implements readline.IHistory.
func (h Hist) At(n int) string { return h[n] }

// Run is one call of ReadLine.
type Run struct {
	Cfg    *Config
	Ed     *readline.Editor
	B      *readline.Buffer
	Scr    *vt.Screen
	Resize func(int)

	Ended bool
	Text  string
	Err   error
	Panic string

	Gets, Opens, Closes int

	W int // the current terminal width

	feed func(*Run) (string, error)
	own  bool
}

// Tty is the readline.ITty of a run.
type tty struct{ r *Run }

func (t tty) Open(f func(int)) error { t.r.Opens++; t.r.Resize = f; return nil }
func (t tty) Close() error           { t.r.Closes++; return nil }
func (t tty) Size() (int, int, error) {
	return t.r.W, t.r.Cfg.Height, nil
}
func (t tty) GetKey() (string, error) {
	r := t.r
	r.Gets++
	if r.B == nil && !r.Cfg.NoProbe {
		return ProbeKey, nil
	}
	if r.Gets > 100000 {
		return "", ErrRunaway
	}
	return r.feed(r)
}

var scratch *vt.Screen

// Started is the time (unix nano) when the current execution began, 0 when
// idle. The watchdog of the worker reads it.
var Started atomic.Int64

// Executions counts calls of ReadLine made by this process.
var Executions int64

// Screen returns the process-wide emulator, blanked.
func Screen(cols, rows int) *vt.Screen {
	if scratch == nil {
		scratch = vt.New(cols, rows, ref.Current.ScreenWidth)
	}
	scratch.Reset(cols, rows)
	return scratch
}

var outPool = map[int]*bufio.Writer{}

// NewEditor builds the editor of a configuration.
func NewEditor(cfg *Config, r *Run) *readline.Editor {
	ed := &readline.Editor{
		Tty:            tty{r},
		Writer:         r.Scr,
		Default:        cfg.Default,
		Cursor:         cfg.Cursor,
		HistoryCycling: cfg.Cycling,
	}
	size := cfg.OutSize
	if size == 0 {
		size = 4096
	}
	out := outPool[size]
	if r.own {
		out = bufio.NewWriterSize(r.Scr, size)
	} else if out == nil {
		out = bufio.NewWriterSize(r.Scr, size)
		outPool[size] = out
	}
	out.Reset(r.Scr)
	ed.Out = out
	if cfg.PromptFunc != nil {
		ed.PromptWriter = cfg.PromptFunc
	} else if cfg.Prompt != nil {
		p := *cfg.Prompt
		ed.PromptWriter = func(w io.Writer) (int, error) { return io.WriteString(w, p) }
	}
	if cfg.History != nil {
		ed.History = Hist(cfg.History)
	}
	if cfg.Predict {
		ed.PredictColor = readline.PredictColorBlueItalic
		if cfg.PredictColor[0] != "" {
			ed.PredictColor = cfg.PredictColor
		}
	}
	ed.Predictor = cfg.Predictor
	if cfg.Coloring != nil {
		ed.Coloring = cfg.Coloring()
	}
	if !cfg.NoProbe {
		ed.BindKey(ProbeKey, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
			r.B = b
			return readline.CONTINUE
		}))
	}
	if cfg.Redraw {
		ed.BindKey(RedrawKey, readline.CmdRepaintOnNewline)
	}
	if cfg.Setup != nil {
		cfg.Setup(ed)
	}
	return ed
}

// Exec runs one ReadLine from a fresh editor.
func Exec(cfg *Config, feed func(*Run) (string, error)) *Run {
	if cfg.Height == 0 {
		cfg.Height = 6
	}
	r := &Run{Cfg: cfg, feed: feed, W: cfg.Width}
	r.Scr = Screen(cfg.Width, cfg.Height)
	r.Scr.KeepRaw = cfg.KeepRaw
	clipboard.Reset(cfg.Clip, cfg.ClipFailRead, cfg.ClipFailWrite)
	r.Ed = NewEditor(cfg, r)
	if cfg.Quotes != nil {
		defer func(s string) { readline.Delimiters = s }(readline.Delimiters)
		readline.Delimiters = *cfg.Quotes
	}
	r.Call()
	return r
}

// ExecOn is Exec on a screen of its own; it may run within another one.
func ExecOn(cfg *Config, scr *vt.Screen, feed func(*Run) (string, error)) *Run {
	r := &Run{Cfg: cfg, feed: feed, W: cfg.Width, Scr: scr, own: true}
	clipboard.Reset(cfg.Clip, cfg.ClipFailRead, cfg.ClipFailWrite)
	r.Ed = NewEditor(cfg, r)
	r.Call()
	return r
}

// SetWidth resizes the terminal and notifies the editor, as the terminal's
// own thread does between two keys.
func (r *Run) SetWidth(w int) {
	r.W = w
	r.Scr.Resize(w)
	if r.Resize != nil {
		r.Resize(w)
	}
}

// Again calls ReadLine once more on the same editor and screen.
func (r *Run) Again(feed func(*Run) (string, error)) {
	r.feed = feed
	r.B = nil
	r.Ended, r.Text, r.Err, r.Panic = false, "", nil, ""
	r.Call()
}

// Call runs ReadLine and records how it ended.
func (r *Run) Call() {
	Executions++
	Started.Store(time.Now().UnixNano())
	defer Started.Store(0)
	defer func() {
		if e := recover(); e != nil {
			r.Panic = fmt.Sprintf("%v", e)
			r.Panic += "\n" + trimStack(debug.Stack())
		}
	}()
	ctx := r.Cfg.Ctx
	if ctx == nil {
		ctx = context.Background()
	}
	r.Text, r.Err = r.Ed.ReadLine(ctx)
	r.Ended = true
}

func trimStack(b []byte) string {
	const max = 3000
	if len(b) > max {
		b = b[:max]
	}
	return string(b)
}

// Cells returns the text of each editing unit of the line.
func (r *Run) Cells() []string {
	out := make([]string, len(r.B.Buffer))
	for i, c := range r.B.Buffer {
		out[i] = c.String()
	}
	return out
}

// Line returns the text being edited.
func (r *Run) Line() string { return r.B.String() }

// Cursor returns the cursor position in units.
func (r *Run) Cursor() int { return r.B.Cursor }
