package props

import (
	"strings"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
)

// screenOracle checks the screen after every key against the line that the
// editor itself reports: it judges drawing only.
type screenOracle struct {
	s     *screen
	wraps int
	m     modes
}

func promptOf(c *drv.Config) string {
	if c.Prompt == nil {
		return "\n> "
	}
	return *c.Prompt
}

func newScreenOracle(c *mc.KeyCfg) *screenOracle {
	return &screenOracle{s: newScreen(promptOf(c.Cfg), c.Cfg.Width, 6)}
}

func (o *screenOracle) judge(r *drv.Run) string {
	if _, m := o.s.check(r); m != "" {
		return sprintf("%s (line %+q, cursor %d)", m, r.Line(), r.B.Cursor)
	}
	if r.Scr.Wraps != o.wraps {
		return "the line wrapped; " + showScreen(r.Scr)
	}
	return ""
}

func (o *screenOracle) Start(r *drv.Run) string {
	o.wraps = r.Scr.Wraps
	return o.judge(r)
}

func (o *screenOracle) cleared(r *drv.Run) {
	o.s = newScreen(promptOf(r.Cfg), o.s.width, 6)
	o.s.row += r.Scr.Scrolled
}

func (o *screenOracle) Step(r *drv.Run, key string, fresh bool) string {
	use := o.m.use(key)
	if use == useCommand && key == kL {
		o.cleared(r)
	}
	if use == useCommand && key == kRedraw {
		o.s = o.s.redrawn(r.Scr, promptOf(r.Cfg), 6)
	}
	if !fresh {
		return ""
	}
	return o.judge(r)
}

func (o *screenOracle) End(r *drv.Run, key string, fresh bool) string {
	// the line stays shown, the cursor is at the start of the next row
	if r.Scr.Incomplete() || len(r.Scr.Anomalies) > 0 {
		return sprintf("the terminal got %q", r.Scr.Anomalies)
	}
	if !r.Scr.Visible {
		return "the cursor is hidden"
	}
	if r.Scr.AbsRow() != o.s.row+1 || r.Scr.X != 0 {
		return "the output does not end at the start of the next row; " + showScreen(r.Scr)
	}
	return ""
}

func (o *screenOracle) Key(r *drv.Run) string { return mc.StdKey(r) }

var mixTexts = []string{
	"abcdefghijklm",
	"あbいcうdえfお",
	"a\tbc\tdef\tg",
	"\x01b\x02cd\x1Bef",
	"a​b́cd",
	"a👨‍🌾b❤️cd👍🏽e",
}

func init() {
	newO := func(c *mc.KeyCfg) mc.Oracle { return newScreenOracle(c) }
	cfgs := func(lo, hi, step int, ts []string, curs func(n int) []int) []mc.KeyCfg {
		var cs []mc.KeyCfg
		for w := lo; w <= hi; w += step {
			for _, t := range ts {
				n := len(newLine(t, 0).u)
				for _, cur := range curs(n) {
					cs = append(cs, mc.KeyCfg{Name: sprintf("w%d %+q@%d", w, t, cur), Cfg: &drv.Config{
						Width: w, Prompt: str("$ "), Default: t, Cursor: cur, Clip: "Y\tz", History: []string{"pqrst uvwxyz", "\x03い5"}, Redraw: true,
					}})
				}
			}
		}
		return cs
	}
	every := func(n int) (out []int) {
		for i := 0; i <= n; i++ {
			out = append(out, i)
		}
		return
	}
	widthCfgs := map[string][]mc.KeyCfg{}
	ends := func(n int) []int { return []int{0, n / 2, n} }
	drawKeys := append([]string{"X", "漢", kTab, kL, kRedraw, kZ, kP, kN, kY, kV}, editKeys...)
	mc.Register(&mc.Prop{
		ID:   "C03",
		Rule: "an execution is one ReadLine driven by one key sequence; after the last key the whole emulated screen is compared with the line and cursor that the editor reports; states are distinct (line, cursor, scroll, screen) per job",
		Assumptions: []string{
			"the terminal behaves like the emulator (deferred wrap, ESC7/8 save one position, widths as the library's table for that terminal kind)",
			"the view is at least as wide as the widest character plus one column",
		},
		Worlds: []*mc.World{
			runesWorld(newO, editScripts(17, nil)),
			(&mc.KeyWorld{
				Name: "scroll", Shards: 24, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs(14, tierN(tier, 20, 24), tierN(tier, 3, 1), mixTexts, ends)
				},
				Keys: keyset(drawKeys...), Depth: depth(3, 3), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "cursors", Shards: 16, Weight: 7,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs(11, 30, 1, mixTexts[:5], every)
				},
				Keys: keyset(drawKeys...), Depth: depth(1, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					cs := cfgs(20, 60, 40, []string{""}, every)
					for i, t := range longTexts {
						for _, c := range cfgs(17+31*i, 17+31*i, 1, []string{t}, ends) {
							c.Name = sprintf("long %d@%d", i, c.Cfg.Cursor)
							cs = append(cs, c)
						}
					}
					return cs
				},
				Keys: keyset(drawKeys...), Depth: depth(2, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "tabs", Shards: 24, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs(11, tierN(tier, 18, 24), 1, []string{"abc\tdef", "abcd\tefghij\t", "\tabcdefg", "ab\t\tc漢\te"}, every)
				},
				Keys: keyset("X", "漢", kTab, kH, kDel, kZ, kW, kT, kB, kF, kE, kK, kU, kY), Depth: depth(2, 3), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "enormous", Shards: 8, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, at := range []int{1 << 8, 1 << 12, 1 << 15, 1 << 16} {
						for n := at - 4; n <= at+4; n++ {
							c := cfgs(24, 24, 1, []string{strings.Repeat("a", n) + "\tb\tc"}, func(n int) []int { return []int{n} })[0]
							c.Name = sprintf("%d columns", n)
							cs = append(cs, c)
						}
					}
					return cs
				},
				Keys: keyset("X", kH, kB, kA), Depth: depth(1, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "widths", Shards: 48, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					if cs := widthCfgs[tier]; cs != nil {
						return cs
					}
					var cs []mc.KeyCfg
					for w := 9; w <= 1030; w++ {
						if w > tierN(tier, 140, 300) && w%256 > 2 && w%256 < 254 && w%100 > 1 && w%100 < 99 {
							continue
						}
						for _, unit := range []string{"abcdefghij", "あいうえお", "aあbい", "a\tbc\x01", "abcd\tefg\thi"} {
							all := ref.Current.Units(strings.Repeat(unit, w))
							// lines that nearly or just fit, or are just too long
							n, sum := 0, 0
							for sum < w-2-4 {
								sum += all[n].W
								n++
							}
							for d := -1; d <= 4; d++ {
								t := ""
								for _, u := range all[:n+d] {
									t += u.Text
								}
								cs = append(cs, cfgs(w, w, 1, []string{t}, ends)...)
							}
						}
					}
					for i := range cs {
						cs[i].Name = sprintf("case %d: width %d, %d bytes, cursor %d", i, cs[i].Cfg.Width, len(cs[i].Cfg.Default), cs[i].Cfg.Cursor)
					}
					widthCfgs[tier] = cs
					return cs
				},
				Keys: keyset(drawKeys...), Depth: depth(1, 1), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "tiny", Shards: 16, Weight: 7,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs(9, 10, 1, []string{"", "abcdef", "あいう", "aあbい"}, ends)
				},
				Keys: keyset(append([]string{"X", "漢", kL, kRedraw, kZ, kP, kN}, editKeys...)...), Depth: depth(4, 4), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 8, Weight: 8, Dedupe: true,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs(10, 17, 1, []string{""}, func(int) []int { return []int{0} })
				},
				Keys: keyset(append([]string{"X", "漢", kTab, "z"}, editKeys...)...), Depth: depth(6, 9), New: newO,
				Prune: func(c *mc.KeyCfg, r *drv.Run) bool { return len(r.B.Buffer) > 6 },
			}).World(),
		},
	})
}
