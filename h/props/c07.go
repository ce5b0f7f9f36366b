package props

import (
	"context"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"github.com/nyaosorg/go-readline-ny/keys"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// predictor is a predictor together with its reference.
type predictor struct {
	name string
	impl func(*readline.Buffer) string // nil: the library's own
	ref  func(line string, hist []string) string
}

func fromHistory(line string, hist []string) string {
	for i := len(hist) - 1; i >= 0; i-- {
		if strings.HasPrefix(hist[i], line) {
			return hist[i][len(line):]
		}
	}
	return ""
}

func own(name string, f func(string) string) *predictor {
	return &predictor{name: name,
		impl: func(b *readline.Buffer) string { return f(b.String()) },
		ref:  func(line string, _ []string) string { return f(line) }}
}

// predictOracle judges what is shown after the line and what Right makes of it.
type predictOracle struct {
	modes
	p    *predictor
	hist []string
	scr  *screen
	l    line // as observed when the editor waited last
	must bool
	vs   int
	run  *drv.Run
	last []vt.Cell
	in   vt.Attr // how predictions are painted
	seq  string  // the sequence for it, "" for the default one
}

// paint is the rendition in force after a sequence.
func paint(a vt.Attr, seq string) vt.Attr {
	s := vt.New(8, 1, ref.Current.ScreenWidth)
	s.A = a
	s.Write([]byte(seq))
	return s.A
}

func newPredictOracle(c *mc.KeyCfg) mc.Oracle {
	o := &predictOracle{p: c.Data.(*predictor), hist: c.Cfg.History, scr: newScreen(promptOf(c.Cfg), c.Cfg.Width, 6)}
	o.scr.tail = o.tail
	o.in, o.seq = italic, c.Cfg.PredictColor[0]
	return o
}

var italic = vt.Attr{Fg: 34, Bg: 49, Italic: true}

// fromLine are the rows from the line on; a row that was left for a new one
// keeps what it shows.
func (o *predictOracle) fromLine(scr *vt.Screen) []vt.Cell {
	return scr.G[max(o.scr.row-scr.Scrolled, 0)*scr.Cols:]
}

func (o *predictOracle) painted(cells []vt.Cell) (n int) {
	for _, c := range cells {
		if c.A == o.in && !c.Blank() {
			n++
		}
	}
	return
}

// tail judges the row from column x on, where the line ends.
func (o *predictOracle) tail(row []vt.Cell, x int) string {
	var us []ref.Unit
	if n := len(o.l.u); n > 0 && o.l.cur == n {
		us = ref.Current.Units(o.p.ref(o.l.text(), o.hist))
	}
	cols := ref.Cols(us)
	fits := 0
	for fits < len(us) && x+cols[fits+1] < o.scr.top+o.scr.view() {
		fits++
	}
	for n := fits; n >= 0; n-- {
		if n < fits && o.must {
			break
		}
		want := make([]vt.Cell, len(row)-x)
		for i := 0; i < n; i++ {
			copy(want[cols[i]:], look(us[i], cols[i+1]-cols[i]))
		}
		ok := true
		for i, c := range want {
			if !same(c, row[x+i]) || (!c.Blank() && row[x+i].A != o.in) {
				ok = false
				break
			}
		}
		if ok {
			if o.painted(o.fromLine(o.run.Scr)) != o.painted(row[x:]) {
				return "something else is shown in the prediction colours"
			}
			return ""
		}
	}
	return sprintf("after the line %+q is shown, should be %s%+q (as far as it fits, in the prediction colours)", vt.RowString(row[x:]), map[bool]string{false: "nothing or "}[o.must], ref.Join(us))
}

func (o *predictOracle) observe(r *drv.Run) {
	o.l = line{u: r.Cells(), cur: r.B.Cursor}
	o.last = append(o.last[:0], r.Scr.Row()...)
}

func (o *predictOracle) Start(r *drv.Run) string {
	o.run = r
	o.observe(r)
	if o.seq != "" {
		o.in = paint(r.Scr.A, o.seq)
	}
	_, m := o.scr.check(r)
	return m
}

func (o *predictOracle) Step(r *drv.Run, key string, fresh bool) string {
	use := o.use(key)
	if use == useCommand && key == kRedraw {
		o.scr = o.scr.redrawn(r.Scr, promptOf(r.Cfg), 6)
	}
	if use == useCommand && key == kL {
		o.scr = newScreen(promptOf(r.Cfg), o.scr.width, 6)
		o.scr.row += r.Scr.Scrolled
		o.scr.tail = o.tail
	}
	was := line{u: append([]string{}, o.l.u...), cur: o.l.cur}
	atEnd := was.cur == len(was.u)
	o.run = r
	o.observe(r)
	if !fresh {
		return ""
	}
	if r.Scr.A == o.in {
		return "the prediction colours are left in force"
	}
	before := was.text()
	if o.search {
		if o.painted(o.fromLine(r.Scr)) > 0 {
			return "the prediction is shown during the search; " + showScreen(r.Scr)
		}
		return ""
	}
	judge := true
	switch {
	case use != useCommand:
		judge = false
	case o.quoted:
	case (key == kF || key == kRight) && atEnd && len(was.u) > 0:
		was.insertText(o.p.ref(before, o.hist))
	case printable(key):
		was.insertText(key)
	default:
		_, _, judge = was.edit(key)
	}
	if judge && (was.text() != o.l.text() || was.cur != o.l.cur) {
		return sprintf("%+q became %+q@%d, should be %+q@%d", before, o.l.text(), o.l.cur, was.text(), was.cur)
	}
	o.must = use == useCommand && printable(key) || ((key == kH || key == kBS) && o.l.text() != before)
	_, m := o.scr.check(r)
	if m != "" {
		return sprintf("%s (line %+q, cursor %d)", m, o.l.text(), o.l.cur)
	}
	return ""
}

func (o *predictOracle) End(r *drv.Run, key string, fresh bool) string {
	if o.painted(o.fromLine(r.Scr)) > 0 {
		return "the prediction is still shown after the end; " + showScreen(r.Scr)
	}
	if key != kEnter {
		return ""
	}
	if r.Text != o.l.text() {
		return sprintf("ReadLine returned %+q, the line was %+q", r.Text, o.l.text())
	}
	end := 0
	for i, c := range o.last {
		if c.A != o.in && !c.Blank() {
			end = i + 1
		}
	}
	row := r.Scr.RowAbs(o.scr.row)
	for i, c := range o.last[:end] {
		if row != nil && !same(c, row[i]) {
			return sprintf("the line shown at the end is %+q, it was %+q", vt.RowString(row), vt.RowString(o.last))
		}
	}
	return ""
}

func (o *predictOracle) Key(r *drv.Run) string { return mc.StdKey(r) }

func init() {
	byHist := &predictor{name: "history", ref: fromHistory}
	preds := []*predictor{
		own("const", func(string) string { return "あ\tx" }),
		own("double", strings.ToUpper),
		own("ctrl", func(s string) string { return "\x01\x1b[2J\x7f" + s }),
		own("none", func(string) string { return "" }),
		own("emoji", func(s string) string { return "👨‍🌾❤️x" }),
	}
	mk := func(w int, p *predictor, h []string, d string, cur int) mc.KeyCfg {
		return mc.KeyCfg{Name: sprintf("w%d %s %+q %+q@%d", w, p.name, h, d, cur), Data: p,
			Cfg: &drv.Config{Width: w, Prompt: str("$ "), History: h, Default: d, Cursor: cur, Predict: true, Predictor: p.impl, Clip: "a", Redraw: true}}
	}
	mc.Register(&mc.Prop{
		ID:   "C07",
		Rule: "an execution is one ReadLine with prediction on, driven by one key sequence; text, cursor and the row with its colours are judged after every key; states are distinct (line, cursor, screen) per job",
		Assumptions: []string{
			"only characters in the prediction colours count as prediction, and nothing else has them",
			"the prediction need not be drawn again by keys that only move, kill or recall",
		},
		Worlds: []*mc.World{
			runesWorld(newPredictOracle, func(s string) []script {
				if !plainRune(s) {
					return nil
				}
				return []script{{mk(40, byHist, []string{"a" + s + s + "b", s + "c"}, "", 0), []string{"a", s, kB, kE, kRight, kH, kH, kRight, kU, s, kRight}}}
			}),
			(&mc.KeyWorld{
				Name: "histories", Shards: 16, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					es := []string{"a", "ab", "abc", "ba", "b a", ""}
					cs = append(cs, mk(60, byHist, nil, "", 0))
					for _, e := range es {
						cs = append(cs, mk(60, byHist, []string{e}, "", 0))
						for _, f := range es {
							cs = append(cs, mk(60, byHist, []string{e, f}, "", 0))
						}
					}
					return cs
				},
				Keys:  keyset("a", "b", kF, kRight, kB, kE, kH, kK),
				Depth: depth(5, 6), New: newPredictOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "all", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{mk(60, byHist, []string{"abcab", "aXあ b", "b", "ab"}, "", 0), mk(60, byHist, []string{"abcab", "aXあ b", "b", "ab"}, "a", 1)}
				},
				Keys:  keyset("a", "b", kF, kRight, kB, kA, kE, kH, kBS, kDel, kK, kU, kW, kEsc, kT, kY, kP, kN, kZ, kL, kRedraw, kMb, kMf),
				Depth: depth(4, 5), New: newPredictOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "ends", Shards: 16, Weight: 6,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, d := range []string{"", "a", "abcab"} {
						for _, w := range []int{60, 11} {
							for _, color := range []bool{false, true} {
								c := mk(w, byHist, []string{"abcab", "aXあ b", "b", "ab"}, d, 9)
								c.Cfg.Setup = func(e *readline.Editor) {
									for i, k := range []string{"\x18", "\x1C", "\x1D", "\x1E"} {
										rc := []readline.Result{readline.ENTER, readline.ABORT, readline.INTR, readline.Result(99)}[i]
										e.BindKey(keys.Code(k), readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result { return rc }))
									}
									if color {
										e.Coloring = &coloring.VimBatch{}
									}
								}
								c.Name += sprintf(" coloured %v", color)
								cs = append(cs, c)
							}
						}
					}
					return cs
				},
				Keys:  keyset("a", kRight, kB, kK, kC, kD, kR, kEnter, kG, kV, "\x18", "\x1C", "\x1D", "\x1E"),
				Depth: depth(4, 5), New: newPredictOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "colours", Shards: 16, Weight: 6,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for i, p := range [][2]string{{"\x1B[31m", "\x1B[39m"}, {"\x1B[1;7;45m", "\x1B[0m"}, {"\x1B[4m", "\x1B[24m"}, {"\x1B[90m", "\x1B[m"}, {"\x1B[38;5;240m", "\x1B[39;49m"}, {"\x1B[3m\x1B[36m", "\x1B[23m\x1B[39m"}} {
						for _, w := range []int{40, 13} {
							c := mk(w, byHist, []string{"abcab", "aXあ b", "b", "ab"}, "a", 1)
							c.Cfg.PredictColor = p
							c.Name += sprintf(" colours %d", i)
							cs = append(cs, c)
						}
					}
					return cs
				},
				Keys:  keyset("a", "b", "あ", kRight, kB, kE, kH, kK, kU, kP, kL, kZ),
				Depth: depth(4, 5), New: newPredictOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "predictors", Shards: 16, Weight: 8, Profiles: []string{"plain", "wt"},
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for w := 6; w <= 24; w += 3 {
						for _, p := range preds {
							cs = append(cs, mk(w, p, nil, "", 0), mk(w, p, nil, "abcあdef", 3))
						}
					}
					return cs
				},
				Keys:  keyset("a", "あ", kRight, kLeft, kE, kA, kH, kDel, kK, kZ, kT),
				Depth: depth(3, 5), New: newPredictOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for i, t := range []string{"", "a", "long ", "same"} {
						c := mk(70-13*i, byHist, longHistory, t, 99)
						c.Name = sprintf("long %d", i)
						cs = append(cs, c)
					}
					c := mk(30, preds[0], nil, longTexts[0], 500)
					c.Name = "line"
					return append(cs, c)
				},
				Keys:  keyset("a", "l", " ", "あ", kF, kRight, kB, kE, kH, kK, kP, kZ),
				Depth: depth(3, 3), New: newPredictOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "sessions", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, h := range []string{"first", "10 first"} { // the oldest entry is the only answer
						c := mk(70, byHist, append([]string{h + " of all"}, hugeHistory...), h[:len(h)-1], 99)
						c.Name = h
						cs = append(cs, c)
					}
					for i, p := range preds {
						c := mk(50, p, nil, hugeText, 1200-i)
						c.Name = sprintf("huge %d", i)
						cs = append(cs, c)
					}
					return cs
				},
				Keys:  keyset("t", "1", " ", kF, kB, kE, kH, kK, kZ),
				Depth: depth(3, 3), New: newPredictOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 8, Weight: 8, Dedupe: true,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for w := 9; w <= 13; w += 2 {
						cs = append(cs, mk(w, byHist, []string{"aabb", "ba", "abab"}, "", 0))
					}
					return cs
				},
				Keys:  keyset("a", "b", kF, kB, kE, kH, kK, kEsc),
				Depth: depth(9, 12), New: newPredictOracle,
				Prune: func(c *mc.KeyCfg, r *drv.Run) bool { return len(r.B.Buffer) > 6 },
			}).World(),
		},
	})
}
