package props

import (
	"strings"

	"github.com/atotto/clipboard"

	"verifh/drv"
	"verifh/mc"
)

// clipOracle follows clipboard and line. It starts each step from what was
// observed at the last one.
type clipOracle struct {
	modes
	l    line
	clip string
	cfg  *drv.Config
}

func newClipOracle(c *mc.KeyCfg) mc.Oracle { return &clipOracle{cfg: c.Cfg} }

func (o *clipOracle) observe(r *drv.Run) {
	o.l = line{u: r.Cells(), cur: r.B.Cursor}
	o.clip = clipboard.Text
}

func (o *clipOracle) Start(r *drv.Run) string {
	o.observe(r)
	if o.clip != o.cfg.Clip {
		return sprintf("the clipboard is %+q before any key", o.clip)
	}
	return ""
}

// quotedPaste is what paste with quotes inserts.
func quotedPaste(s string) string {
	if !strings.Contains(s, " ") || strings.HasPrefix(s, `"`) {
		return s
	}
	parts := strings.Split(strings.ReplaceAll(s, `"`, `""`), "\r\n")
	for i := range parts {
		parts[i] = `"` + parts[i] + `"`
	}
	return strings.Join(parts, "\r\n")
}

func (o *clipOracle) Step(r *drv.Run, key string, fresh bool) string {
	use := o.use(key)
	was := line{u: append([]string{}, o.l.u...), cur: o.l.cur}
	clip := o.clip
	o.observe(r)
	if !fresh {
		return ""
	}
	before := sprintf("%+q@%d clipboard %+q", was.text(), was.cur, clip)
	judge := false
	if use == useCommand {
		switch key {
		case kK, kU, kW:
			killed, _, _ := was.edit(key)
			if !o.cfg.ClipFailWrite {
				clip = killed
			}
			judge = true
		case kY, kMv:
			if !o.cfg.ClipFailRead {
				was.insertText(strings.TrimRight(clip, "\r\n\x00"))
			}
			judge = true
		case kMy:
			if !o.cfg.ClipFailRead {
				was.insertText(quotedPaste(clip))
			}
			judge = true
		}
	}
	if o.clip != clip {
		return sprintf("%s: the clipboard is now %+q, should be %+q", before, o.clip, clip)
	}
	if judge && (o.l.text() != was.text() || o.l.cur != was.cur) {
		return sprintf("%s: the line is now %+q@%d, should be %+q@%d", before, o.l.text(), o.l.cur, was.text(), was.cur)
	}
	return ""
}

func (o *clipOracle) End(r *drv.Run, key string, fresh bool) string {
	if c := clipboard.Text; c != o.clip {
		return sprintf("the clipboard changed to %+q at the end", c)
	}
	return ""
}

func (o *clipOracle) Key(r *drv.Run) string { return mc.StdKey(r) + o.clip }

func init() {
	mk := func(d string, cur int, clip string, f func(*drv.Config)) mc.KeyCfg {
		c := &drv.Config{Width: 80, Prompt: str("$ "), Default: d, Cursor: cur, Clip: clip, History: []string{"h i"}}
		n := ""
		if f != nil {
			f(c)
			n = sprintf(" fail r%v w%v width %d", c.ClipFailRead, c.ClipFailWrite, c.Width)
		}
		return mc.KeyCfg{Name: sprintf("%+q@%d clip %+q%s", d, cur, clip, n), Cfg: c}
	}
	mc.Register(&mc.Prop{
		ID:          "C17",
		Rule:        "an execution is one ReadLine driven by one key sequence; line, cursor and clipboard are judged after every key; states are distinct (line, cursor, screen, clipboard) per job",
		Assumptions: []string{"the clipboard is the harness's; it keeps text exactly or fails", "text with several lines is quoted line by line"},
		Worlds: []*mc.World{
			runesWorld(newClipOracle, func(s string) []script {
				if !plainRune(s) {
					return nil
				}
				mk2 := mk
				mk := func(clip string) mc.KeyCfg { return mk("x"+s+" "+s+"y", 3, clip, nil) }
				return []script{{mk(s + " " + s), []string{kY, kMy, kU, kY, kE, kW, kY, kA, kK, kY, kMy}}, {mk("a" + s), []string{kMy, kY, kA, kMv}},
					{mk2(s+"c"+s, 3, s, nil), []string{kW, kY, kU, kY, kA, kK, kY, kMy}}}
			}),
			(&mc.KeyWorld{
				Name: "all", Shards: 16, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{mk(`ab "c d" e`, 6, "", nil), mk("", 0, "x y", nil), mk("あ\t👨‍🌾 b", 3, `q"r s`, nil)}
				},
				Keys:  keyset("a", " ", kA, kE, kB, kF, kMb, kMf, kH, kD, kK, kU, kW, kY, kMv, kMy, kT, kEsc, kZ, kP, kN, kV),
				Depth: depth(4, 5), New: newClipOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "texts", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, t := range allTexts([]string{"a", " ", `"`, "\r\n", "\n", "\x00", "あ", "\x01"}, tierN(tier, 3, 4)) {
						cs = append(cs, mk("xy", 1, t, nil))
					}
					return cs
				},
				Keys:  keyset(kY, kMv, kMy, kU, kW, kK),
				Depth: depth(3, 3), New: newClipOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "lines", Shards: 16, Weight: 8, Profiles: []string{"plain", "wt"},
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, t := range allTexts([]string{"a", " ", `"`, "\t", "あ", "👨‍🌾", "\x01"}, tierN(tier, 3, 4)) {
						for cur := 0; cur <= len(newLine(t, 0).u); cur++ {
							cs = append(cs, mk(t, cur, "zz", nil))
						}
					}
					return cs
				},
				Keys:  keyset(kK, kU, kW, kY),
				Depth: depth(2, 3), New: newClipOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for i, t := range longTexts {
						c := mk(t, 40, longTexts[3-i]+"\r\n", nil)
						c.Name = sprintf("long %d", i)
						cs = append(cs, c, mk("", 0, t[:9-i%2*9]+"z \x00\n\n", nil))
					}
					return cs
				},
				Keys:  keyset("a", " ", `"`, kA, kE, kB, kF, kK, kU, kW, kY, kMv, kMy, kZ),
				Depth: depth(2, 2), New: newClipOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "sessions", Shards: 16, Weight: 9, Counts: manyTimes,
				Configs: func(tier string) []mc.KeyCfg {
					a, b := mk(hugeText, 1024, "x y", nil), mk("ab", 1, strings.Repeat(hugeText, 4), nil)
					a.Name, b.Name = "huge line", "huge clipboard"
					return []mc.KeyCfg{a, b}
				},
				Keys:  keyset("a", kB, kK, kU, kW, kE),
				Depth: depth(2, 2), New: newClipOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "huge paste", Shards: 8, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					a, b := mk(hugeText, 1024, hugeText, nil), mk("ab", 1, strings.Repeat(hugeText, 4), nil)
					a.Name, b.Name = "huge line", "huge clipboard"
					return []mc.KeyCfg{a, b}
				},
				Keys:  keyset("a", kA, kE, kK, kU, kW, kY, kMy, kZ),
				Depth: depth(3, 4), New: newClipOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "faults", Shards: 8, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for i := 1; i < 4; i++ {
						i := i
						for _, w := range []int{80, 9} {
							cs = append(cs, mk("ab cd ef", 5, "x y", func(c *drv.Config) { c.ClipFailRead, c.ClipFailWrite, c.Width = i&1 != 0, i&2 != 0, w }))
						}
					}
					return cs
				},
				Keys:  keyset("a", kA, kE, kK, kU, kW, kY, kMy, kZ),
				Depth: depth(4, 5), New: newClipOracle,
			}).World(),
		},
	})
}
