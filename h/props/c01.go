package props

import (
	"verifh/drv"
	"verifh/mc"
)

// editOracle runs the reference line editor next to the real one.
type editOracle struct {
	l *line
}

func newEditOracle(c *mc.KeyCfg) *editOracle {
	o := &editOracle{l: newLine(c.Cfg.Default, c.Cfg.Cursor)}
	o.l.quotes = c.Cfg.Quotes
	return o
}

func (o *editOracle) compare(r *drv.Run) string {
	if got, want := r.Line(), o.l.text(); got != want {
		return sprintf("the line is %+q, should be %+q", got, want)
	}
	if r.B.Cursor != o.l.cur {
		return sprintf("the cursor is %d, should be %d (line %+q)", r.B.Cursor, o.l.cur, r.Line())
	}
	return ""
}

func (o *editOracle) Start(r *drv.Run) string { return o.compare(r) }

func (o *editOracle) apply(key string) {
	if _, _, ok := o.l.edit(key); !ok {
		o.l.insertText(key)
	}
}

func (o *editOracle) Step(r *drv.Run, key string, fresh bool) string {
	empty := len(o.l.u) == 0
	switch key {
	case kEnter:
		return "Enter did not end the input"
	case kC:
		return "Ctrl-C did not end the input"
	case kD:
		if empty {
			return "Ctrl-D on the empty line did not end the input"
		}
	}
	o.apply(key)
	if !fresh {
		return ""
	}
	return o.compare(r)
}

func (o *editOracle) End(r *drv.Run, key string, fresh bool) string {
	want, err := o.l.text(), "nil"
	switch {
	case key == kEnter:
	case key == kC:
		want, err = r.Text, "CtrlC"
	case key == kD && len(o.l.u) == 0:
		want, err = "", "EOF"
	default:
		return sprintf("the input ended (text %+q, error %v)", r.Text, r.Err)
	}
	if r.Text != want || errName(r.Err) != err {
		return sprintf("ReadLine returned %+q, %v; should be %+q, %s", r.Text, errName(r.Err), want, err)
	}
	return ""
}

func (o *editOracle) Key(r *drv.Run) string { return mc.StdKey(r) }

var editKeys = []string{kA, kB, kE, kF, kMb, kMf, kH, kDel, kD, kK, kU, kW, kEsc, kT}

func init() {
	newO := func(c *mc.KeyCfg) mc.Oracle { return newEditOracle(c) }
	mc.Register(&mc.Prop{
		ID:   "C01",
		Rule: "an execution is one ReadLine driven by one key sequence from one starting point; its last key and the Enter after it are judged, all its prefixes are separate executions; states are distinct (line, cursor, scroll, screen)",
		Assumptions: []string{
			"the key strings that the terminal sends are the documented ones",
			"bounded: sequences, alphabets, starting texts and widths as stated per world",
		},
		Worlds: []*mc.World{
			runesWorld(newO, editScripts(80, nil)),
			(&mc.KeyWorld{
				Name: "wide-all", Shards: 16, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{{Name: "empty", Cfg: &drv.Config{Width: 80, Prompt: str("$ "), Redraw: true}}}
				},
				Keys:  keyset(append([]string{"a", " ", `"`, "あ", kLeft, kRight, kHome, kEnd, kCL, kCR, kBS, kL, kRedraw, kC, kEnter}, editKeys...)...),
				Depth: depth(4, 5), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "wide-core", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{{Name: "words", Cfg: &drv.Config{Width: 80, Prompt: str("$ "), Default: `ab "c d" e`, Cursor: 6, History: longHistory}}}
				},
				Keys:  keyset(append([]string{"x", " "}, editKeys...)...),
				Depth: depth(4, 5), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "texts", Shards: 16, Weight: 7,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, t := range allTexts([]string{"a", " ", `"`, "'", "あ", "\t", "\x02", "　"}, tierN(tier, 3, 4)) {
						n := len(newLine(t, 0).u)
						for cur := 0; cur <= n+2; cur++ {
							cs = append(cs, mc.KeyCfg{Name: sprintf("%+q@%d", t, cur), Cfg: &drv.Config{Width: 80, Prompt: str("$ "), Default: t, Cursor: cur}})
						}
					}
					return cs
				},
				Keys:  keyset(append([]string{"x"}, editKeys...)...),
				Depth: depth(2, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "quotes", Shards: 16, Weight: 7,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, q := range []string{"", "'", "`|", "あ\""} {
						for _, t := range allTexts([]string{"a", " ", `"`, "'", "`", "|", "あ"}, tierN(tier, 4, 5)) {
							cs = append(cs, mc.KeyCfg{Name: sprintf("%q %+q", q, t), Cfg: &drv.Config{Width: 80, Prompt: str("$ "), Default: t, Cursor: 99, Quotes: str(q)}})
						}
					}
					return cs
				},
				Keys:  keyset(kW, kB),
				Depth: depth(2, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					cs := []mc.KeyCfg{{Name: "empty", Cfg: &drv.Config{Width: 20, Prompt: str("$ ")}}}
					for i, t := range longTexts {
						n := len(newLine(t, 0).u)
						cs = append(cs, mc.KeyCfg{Name: sprintf("long %d", i), Cfg: &drv.Config{Width: 20 + 30*i, Prompt: str("$ "), Default: t, Cursor: n - n*i/5}})
					}
					return cs
				},
				Keys:  keyset(append([]string{"x", " ", "あ"}, editKeys...)...),
				Depth: depth(2, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "sessions", Shards: 32, Weight: 9, Counts: manyTimes,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, cur := range []int{0, 128, 255, 256, 257, 512, 1000, 1023, 1024, 1025, 1199, 1200} {
						cs = append(cs, mc.KeyCfg{Name: sprintf("huge@%d", cur), Cfg: &drv.Config{Width: 30 + cur, Prompt: str("$ "), Default: hugeText, Cursor: cur}})
					}
					return cs
				},
				Keys:  keyset("x", kB, kMb, kH, kDel, kK, kU, kW, kT, kE),
				Depth: depth(1, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "narrow", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for w := 6; w <= tierN(tier, 14, 20); w += tierN(tier, 2, 1) {
						for _, t := range []string{"abc def ghij", "あbあ あcd", "a b\tc \x02​"} {
							n := len(newLine(t, 0).u)
							for _, cur := range []int{0, n / 2, n} {
								cs = append(cs, mc.KeyCfg{Name: sprintf("w%d %+q@%d", w, t, cur), Cfg: &drv.Config{Width: w, Prompt: str("$ "), Default: t, Cursor: cur}})
							}
						}
					}
					return cs
				},
				Keys:  keyset(append([]string{"x", "あ"}, editKeys...)...),
				Depth: depth(3, 4), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 8, Weight: 8, Dedupe: true,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for w := 7; w <= 14; w++ {
						cs = append(cs, mc.KeyCfg{Name: sprintf("w%d", w), Cfg: &drv.Config{Width: w, Prompt: str("$ ")}})
					}
					return cs
				},
				Keys:  keyset(append([]string{"a", " ", "あ"}, editKeys...)...),
				Depth: depth(7, 9), New: newO,
				Prune: func(c *mc.KeyCfg, r *drv.Run) bool { return len(r.B.Buffer) > 6 },
			}).World(),
		},
	})
}
