package props

import (
	"verifh/drv"
	"verifh/mc"
)

// alive only asks that the editor goes on and that the cursor is in the text.
func alive(c *mc.KeyCfg) mc.Oracle {
	in := func(r *drv.Run) string {
		if r.B.Cursor < 0 || r.B.Cursor > len(r.B.Buffer) {
			return sprintf("the cursor %d is outside the line of %d characters", r.B.Cursor, len(r.B.Buffer))
		}
		return ""
	}
	return &judged{
		start: in,
		step: func(r *drv.Run, key string) string {
			return in(r)
		},
		end: func(r *drv.Run, key string) string {
			if e := errName(r.Err); e != "nil" && e != "CtrlC" && e != "EOF" {
				return "ReadLine failed: " + e
			}
			return ""
		},
	}
}

// everyKey are the default key bindings, by one key each, plus characters of
// every class.
var everyKey = []string{
	kMb, kMf, kMv, kMy, kH, kA, kB, kC, kD, kE, kF, kK, kL, kN, kP, kR, kT, kU, kZ, kV, kW, kY, kDel, kEsc, kS, kG,
	"a", " ", `"`, "あ", "👨", "‍", "️", "🏽", "́", "\t", "\x00", "\x1E", "\x1B[5~", "\x1BX", "\x80", "\U000E0104", kEnter,
}

func init() {
	prompts := []string{"", "$ ", "あいう> ", "\n> "}
	mixes := []string{"", "ab cd", "あ\tい\x01👨‍🌾​z", "\U000E0104\t\U000E0104"}
	hist := []string{"one two", "あ\t\x02👨‍🌾\U000E0104", "", "xyz"}
	mk := func(w int, p, d string, cur int, opt func(*drv.Config)) mc.KeyCfg {
		c := &drv.Config{Width: w, Prompt: str(p), Default: d, Cursor: cur, History: hist, Clip: "c\tlip あ\r\n"}
		if opt != nil {
			opt(c)
		}
		return mc.KeyCfg{Name: sprintf("w%d %+q %+q@%d cyc%v pred%v", w, p, d, cur, c.Cycling, c.Predict), Cfg: c}
	}
	fancy := func(c *drv.Config) { c.Cycling, c.Predict = true, true }
	mc.Register(&mc.Prop{
		ID:   "C02",
		Rule: "an execution is one ReadLine driven by one key sequence (resizes included as events); it must come back for every key and end with Enter without panic; states are distinct (line, cursor, scroll, screen) per job",
		Assumptions: []string{
			"an execution that takes longer than 60 s (normally microseconds) counts as not ending",
			"the initial cursor is not negative",
		},
		Worlds: []*mc.World{
			runesWorld(alive, editScripts(9, func(c *drv.Config) { c.Predict = true })),
			(&mc.KeyWorld{
				Name: "widths", Shards: 16, Weight: 9, Profiles: []string{"wt", "plain"},
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for w := 0; w <= 16; w++ {
						for _, p := range prompts {
							for _, d := range mixes {
								n := len(newLine(d, 0).u)
								cs = append(cs, mk(w, p, d, n, nil), mk(w, p, d, n+1+w%2, nil))
								if n > 0 {
									cs = append(cs, mk(w, p, d, n/2, fancy), mk(w, p, d, 0, nil))
								}
							}
						}
					}
					return cs
				},
				Keys: keyset(everyKey...), Depth: depth(2, 2), New: alive,
			}).World(),
			(&mc.KeyWorld{
				Name: "all3", Shards: 32, Weight: 8, Profiles: []string{"wt"},
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, w := range []int{1, 4, 5, 6, 8, 11, 80} {
						cs = append(cs, mk(w, "$ ", "あ\t\"x", 2, fancy))
					}
					if tier == "thorough" {
						for w := 1; w < 16; w++ {
							cs = append(cs, mk(w, "$ ", "\U000E0104a\tb", 4, nil))
						}
					}
					return cs
				},
				Keys: keyset(everyKey...), Depth: depth(3, 3), New: alive,
			}).World(),
			(&mc.KeyWorld{
				Name: "all4", Shards: 64, Weight: 8, Thorough: true,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{mk(5, "$ ", "a\tb", 3, fancy), mk(9, "$ ", "", 0, nil), mk(80, "$ ", "", 0, fancy)}
				},
				Keys: keyset(everyKey...), Depth: depth(4, 4), New: alive,
			}).World(),
			(&mc.KeyWorld{
				Name: "resize", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, w := range []int{2, 6, 9, 20} {
						for _, p := range prompts[1:] {
							cs = append(cs, mk(w, p, "あb\tcdefg", 4, fancy))
						}
					}
					return cs
				},
				Keys:  keyset(append([]string{mc.Resize(1), mc.Resize(5), mc.Resize(9), mc.Resize(30), mc.Resize(0), "a", "あ", kTab, kZ, kP, kN, kL, kY}, editKeys...)...),
				Depth: depth(3, 4), New: alive,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					cs := []mc.KeyCfg{mk(9, "$ ", "", 0, fancy), mk(300, "", "", 0, nil)}
					for i, t := range longTexts {
						i := i
						c := mk(11+13*i, "$ ", t, 60, func(c *drv.Config) { c.History, c.Cycling, c.Predict = longHistory, i%2 == 0, i < 2 })
						c.Name = sprintf("long %d", i)
						cs = append(cs, c)
					}
					return cs
				},
				Keys: keyset(everyKey...), Depth: depth(2, 2), New: alive,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 8, Weight: 9, Dedupe: true, Records: 1,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for w := 1; w <= tierN(tier, 8, 16); w++ {
						cs = append(cs, mk(w, "$ ", "", 0, nil))
					}
					return cs
				},
				Keys:  keyset("a", "あ", "\t", "\U000E0104", kA, kE, kF, kB, kMb, kMf, kH, kDel, kK, kU, kW, kT, kZ, kP, kN, kL, kEsc, kY),
				Depth: depth(5, 6), New: alive,
				Prune: func(c *mc.KeyCfg, r *drv.Run) bool { return len(r.B.Buffer) > 8 },
			}).World(),
		},
	})
}
