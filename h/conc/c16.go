package conc

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/atotto/clipboard"
	ttystub "github.com/mattn/go-tty"
	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/props"
	"verifh/ref"
	"verifh/vt"
)

const (
	prompt  = "$ "
	first   = 20 // the width at the beginning
	phys    = 60 // the emulated terminal never wraps
	rows    = 8
	text    = "hello world"
	pred    = "PQ"
	probe   = "\x1D"
	waiting = "getkey"
)

var errKey = errors.New("no more keys")
var errPrompt = errors.New("E")

type notif struct {
	w, start, end int // end 0: in progress
	input         int // during which input it started
}

// env16 is the environment of one execution.
type env16 struct {
	s    *sched
	c    props.C16Case
	scr  *vt.Screen
	row  *props.Row
	ed   *readline.Editor
	b    *readline.Buffer
	on   func(int) // the callback given by the latest Open
	off  bool      // the input has ended
	last string    // the latest key
	keys []string  // what is still to be typed
	top  []bool    // whether the main loop reads it

	termW, sizeW int
	input        int
	notifs       []*notif
	clock        int
	owner        *gor
	depth        int
	bytes        int
	results      []string
	checks       int
}

func (e *env16) width(ok func(w int) bool) bool {
	n := 0
	for i, a := range e.notifs {
		if a.end == 0 || a.input != e.input {
			continue
		}
		last := true
		for j, b := range e.notifs {
			if i != j && b.input == e.input && b.end != 0 && b.start > a.end {
				last = false
			}
		}
		if last {
			n++
			if ok(a.w) {
				return true
			}
		}
	}
	return n == 0 && ok(e.sizeW)
}

func (e *env16) inProgress() bool {
	for _, n := range e.notifs {
		if n.end == 0 {
			return true
		}
	}
	return false
}

// judge compares the screen with the line.
func (e *env16) judge(when string) {
	if e.b == nil || e.c.End == "prompt err" {
		return
	}
	e.checks++
	p := ""
	if e.c.Env != 0 && e.b.Cursor == len(e.b.Buffer) {
		p = pred
	}
	msg := ""
	if !e.width(func(w int) bool {
		m := e.row.Check(e.scr, w, e.b, p)
		if msg == "" {
			msg = fmt.Sprintf("(width %d) %s", w, m)
		}
		return m == ""
	}) {
		e.s.Fail("screen", "%s: line %q: %s", when, e.b.String(), msg)
	}
}

// call is a point inside a call of the environment that must not overlap
// with another one.
func (e *env16) call(label string) {
	e.s.mu.Lock()
	g := e.s.self()
	e.s.mu.Unlock()
	if e.depth > 0 && e.owner != g {
		e.s.Fail("overlap", "%s is in %s while %s still uses the environment", g.name, label, e.owner.name)
	}
	e.owner = g
	e.depth++
	e.s.Point(label, nil)
	e.depth--
}

func (e *env16) Write(p []byte) (int, error) {
	if e.off {
		e.s.Fail("late", "%q is written after the input has ended", p)
	}
	if g := e.who(); g != nil && e.c.Mode == "twice" && e.input > 1 && strings.HasPrefix(g.name, "size") {
		e.s.Fail("late", "%q is written by a notification of the first input", p)
	}
	e.call("write")
	e.bytes += len(p)
	return e.scr.Write(p)
}

func (e *env16) who() *gor {
	e.s.mu.Lock()
	defer e.s.mu.Unlock()
	return e.s.self()
}

func (e *env16) Len() int        { e.call("history"); return 2 }
func (e *env16) At(n int) string { e.call("history"); return []string{"foo bar", "second one"}[n] }

func (e *env16) Init() readline.ColorSequence {
	e.call("colour")
	return readline.DefaultForeGroundColor
}

func (e *env16) Next(r rune) readline.ColorSequence {
	if e.c.Env == 2 {
		e.call("next")
	}
	if r == 'o' {
		return readline.Red
	}
	return readline.DefaultForeGroundColor
}

type tty16 struct{ e *env16 }

func (t tty16) Open(f func(int)) error {
	if t.e.c.Mode != "twice" || t.e.on == nil {
		t.e.on = f
	}
	t.e.s.Point("open", nil)
	return nil
}

func (t tty16) Size() (int, int, error) {
	t.e.s.Point("size", nil)
	t.e.sizeW = t.e.termW
	return t.e.termW, rows, nil
}

func (t tty16) Close() error {
	if t.e.c.Mode == "hand" {
		t.e.s.Yield("close", func() bool { return !t.e.inProgress() })
	}
	t.e.s.Point("close", nil)
	return nil
}

func (t tty16) GetKey() (string, error) { return t.e.next() }

// next gives the next key.
func (e *env16) next() (string, error) {
	if len(e.keys) == 0 {
		return "", errKey
	}
	if e.last == "\x0C" {
		e.row = props.NewRow(nil, prompt, phys, rows)
	}
	label := "subkey"
	if e.top[0] {
		label = waiting
		if e.b != nil && !e.inProgress() {
			e.judge("waiting for a key")
		}
	}
	if !e.s.Yield(label, nil) {
		return "", errKey
	}
	k := e.keys[0]
	e.last = k
	e.keys, e.top = e.keys[1:], e.top[1:]
	if k == "err" {
		return "", errKey
	}
	return k, nil
}

// Read is the device of the default terminal.
func (e *env16) Read(p []byte) (int, error) {
	k, err := e.next()
	if err != nil {
		return 0, err
	}
	return copy(p, k), nil
}

func (e *env16) script() {
	e.keys, e.top = []string{probe}, []bool{true}
	add := func(top bool, k string) { e.keys, e.top = append(e.keys, k), append(e.top, top) }
	for _, n := range e.c.Keys {
		for i, k := range props.C16Keys[n] {
			add(i == 0, k)
		}
	}
	switch e.c.End {
	case "err", "prompt err":
		add(true, "err")
	case "^R err":
		add(true, "\x12")
		add(false, "err")
		add(true, "err")
	default:
		for _, k := range e.c.End {
			add(true, string(k))
		}
	}
}

func (e *env16) notify(name string, ws []int) {
	for _, w := range ws {
		e.s.Yield("size", func() bool { return e.on != nil })
		if e.c.Mode == "hand" && e.off {
			return
		}
		e.clock++
		n := &notif{w: w, start: e.clock, input: e.input}
		if e.c.Mode == "twice" {
			n.input = 1 // the callback of the first input is used for ever
		}
		e.notifs = append(e.notifs, n)
		e.termW = w
		e.s.Point("notify", nil)
		e.on(w)
		e.clock++
		n.end = e.clock
		if e.s.at("editor", waiting) && !e.off && !e.inProgress() {
			e.judge(fmt.Sprintf("after the notification of width %d", w))
		}
	}
}

func (e *env16) editor() {
	ed := &readline.Editor{
		Writer:  e,
		Tty:     tty16{e},
		Default: text,
		Cursor:  len(text),
		History: e,
		PromptWriter: func(w io.Writer) (int, error) {
			e.call("prompt")
			if e.c.End == "prompt err" {
				return 0, errPrompt
			}
			return io.WriteString(w, prompt)
		},
	}
	size := 4096
	if e.c.Env == 1 {
		size = 16
	}
	ed.Out = bufio.NewWriterSize(e, size)
	if e.c.Env != 0 {
		ed.Coloring = e
		ed.PredictColor = readline.PredictColorBlueItalic
		ed.Predictor = func(*readline.Buffer) string { e.call("predict"); return pred }
	}
	if e.c.Mode == "dflt" {
		ed.Tty = nil
		ttystub.Dev = &ttystub.Device{In: e, W: first, H: rows}
	}
	ed.BindKey(probe, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		e.b = b
		return readline.CONTINUE
	}))
	e.ed = ed
	n := 1
	if e.c.Mode == "twice" {
		n = 2
	}
	for e.input = 1; ; e.input++ {
		e.script()
		e.b = nil
		e.row = props.NewRow(e.scr, prompt, phys, rows)
		e.off = false
		t, err := ed.ReadLine(context.Background())
		e.off = true
		if row := strings.TrimRight(vt.RowString(e.scr.Row()), " "); (err == nil || err == io.EOF || err == readline.CtrlC) && (e.scr.X != 0 || row != "") {
			e.s.Fail("late", "ReadLine returned with %q on the row after the line, the cursor in column %d", row, e.scr.X)
		}
		e.results = append(e.results, fmt.Sprintf("%q %v", t, err))
		if e.input == n {
			break
		}
	}
}

// settled is called when everybody waits.
func (e *env16) settled() {
	if e.s.at("editor", waiting) && !e.off {
		blocked := false
		for _, p := range e.s.parked {
			if p.g.name == "editor" {
				continue
			}
			if p.enabled == nil || p.enabled() {
				blocked = false // may be what the other one waits for
				break
			}
			blocked = blocked || strings.HasSuffix(p.label, "lock")
		}
		if blocked {
			e.s.Fail("blocked", "a notification is blocked although the editor only waits for a key")
		}
		if e.c.Mode == "dflt" && e.b != nil && !e.libBusy() {
			for _, n := range e.notifs {
				if n.end == 0 {
					e.clock++
					n.end = e.clock
				}
			}
			e.judge("waiting for a key, no change of size in progress")
		}
	}
}

// libBusy tells whether a goroutine of the library has something to do.
func (e *env16) libBusy() bool {
	for _, p := range e.s.parked {
		if !p.g.own {
			return true
		}
	}
	return false
}

// device changes the size of the default terminal's device.
func (e *env16) device() {
	for _, w := range e.c.Ws {
		e.s.Yield("size", func() bool { return e.b != nil || e.off })
		d := ttystub.Dev
		d.W = w
		if d.Ws == nil {
			continue
		}
		e.clock++
		n := &notif{w: w, start: e.clock, input: e.input}
		select {
		case d.Ws <- ttystub.WINSIZE{W: w, H: rows}:
			e.notifs = append(e.notifs, n)
		default:
		}
	}
}

func (e *env16) body(s *sched) {
	e.s = s
	e.scr = vt.New(phys, rows, ref.Current.ScreenWidth)
	e.termW, e.sizeW = first, first
	clipboard.Reset("", false, false)
	s.settled = e.settled
	s.fine = e.c.Env == 2
	s.Go("editor", e.editor)
	switch e.c.Mode {
	case "par":
		for i, w := range e.c.Ws {
			name := fmt.Sprintf("size%d", i)
			w := w
			s.Go(name, func() { e.notify(name, []int{w}) })
		}
	case "dflt":
		s.Go("device", e.device)
		s.cleanup = func() {
			if d := ttystub.Dev; d != nil && d.Ws != nil {
				close(d.Ws)
				d.Ws = nil
			}
		}
	case "none":
	default:
		s.Go("size", func() { e.notify("size", e.c.Ws) })
	}
}

var quiet = map[string]string{}

func init() {
	props.C16Check = func(c props.C16Case) (string, string, string) {
		var e *env16
		body := func(s *sched) {
			e = &env16{c: c}
			e.body(s)
		}
		outcome := func(*sched) string {
			return fmt.Sprintf("%s|%d|%s|%d", e.results, e.scr.AbsRow(), vt.RowString(e.scr.RowAbs(0)), e.bytes)
		}
		// what the same keys give without any notification
		id := fmt.Sprint(c.Env, c.Keys, c.End, c.Mode == "twice")
		want, ok := quiet[id]
		if !ok {
			old := c
			if c.Mode != "twice" {
				c.Mode = "none"
			}
			c.Ws = nil
			s := exec(nil, body, nil)
			if s.sig != "" {
				return "", s.sig, "without notifications: " + s.msg
			}
			want = fmt.Sprint(e.results)
			quiet[id] = want
			c = old
		}
		return explore(c.Bound, body, func(s *sched) {
			if got := fmt.Sprint(e.results); got != want {
				s.Fail("text", "ReadLine returned %s; without resizing %s", got, want)
			}
		}, outcome)
	}
}
