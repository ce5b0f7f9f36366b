package props

import (
	"strings"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
)

// typeOracle follows the line character by character while composed
// characters are typed key by key.
type typeOracle struct {
	modes
	l    line   // the line as it should be, pending part included
	held string // part of the line that the editor holds back until the next key

	// what was typed since the cursor last moved, and the characters around it
	typing      bool
	typed       string
	left, right []string
}

func newTypeOracle(c *mc.KeyCfg) mc.Oracle {
	return &typeOracle{l: *newLine(c.Cfg.Default, c.Cfg.Cursor)}
}

func (o *typeOracle) Start(r *drv.Run) string { return o.compare(r) }

func (o *typeOracle) compare(r *drv.Run) string {
	if r.Line() == o.l.text() {
		o.held = ""
		b := o.before()
		o.l.u = r.Cells() // the division is judged elsewhere
		if r.B.Cursor < 0 || r.B.Cursor > len(o.l.u) {
			return sprintf("the cursor is %d", r.B.Cursor)
		}
		if a := strings.Join(o.l.u[:r.B.Cursor], ""); a != b {
			return sprintf("the cursor is after %+q of %+q, should be after %+q", a, r.Line(), b)
		}
		o.l.cur = r.B.Cursor
		return ""
	}
	// A joiner just typed may be held back together with its base.
	if o.held != "" && r.Line() == o.without(o.held) {
		return ""
	}
	return sprintf("the line is %+q, should be %+q", r.Line(), o.l.text())
}

func (o *typeOracle) before() string { return strings.Join(o.l.u[:o.l.cur], "") }

// without is the line without what is held back before the cursor.
func (o *typeOracle) without(held string) string {
	return strings.TrimSuffix(o.before(), held) + strings.Join(o.l.u[o.l.cur:], "")
}

func (o *typeOracle) Step(r *drv.Run, key string, fresh bool) string {
	use := o.use(key)
	typed := use == useLiteral || printable(key)
	wasHeld := o.held != ""
	o.held = ""
	switch {
	case typed:
		if ref.Current.IsZWJ([]rune(key)[0]) && o.l.cur > 0 {
			o.held = o.l.u[o.l.cur-1] + key
		}
		k := key
		if use == useLiteral && len(key) == 2 && key[0] == 0x1B {
			k = key[1:] // AltGr
		}
		if use == useLiteral {
			o.typing = false // literal characters stand for themselves
		} else if !o.typing && !wasHeld {
			o.typing, o.typed = true, ""
			o.left = append([]string{}, o.l.u[:o.l.cur]...)
			o.right = append([]string{}, o.l.u[o.l.cur:]...)
		}
		o.typed += k
		o.l.insert(k)
	case o.quoted:
		o.typing = false
	default:
		o.typing = false
		if _, _, ok := o.l.edit(key); !ok {
			o.l.insertText(key)
		}
	}
	if m := o.compare(r); m != "" {
		return m
	}
	if o.typing && o.held == "" {
		n := max(0, len(o.left)-1)
		want := append([]string{}, o.left[:n]...)
		want = append(want, unitTexts(ref.Current.Units(strings.Join(o.left[n:], "")+o.typed))...)
		if want = append(want, o.right...); !eqs(want, r.Cells()) {
			return sprintf("typed key by key it divides into %+q, pasted into %+q", r.Cells(), want)
		}
	}
	return ""
}

func (o *typeOracle) End(r *drv.Run, key string, fresh bool) string {
	if key == kEnter && r.Text != o.l.text() {
		return sprintf("ReadLine returned %+q, should be %+q", r.Text, o.l.text())
	}
	return ""
}

func (o *typeOracle) Key(r *drv.Run) string {
	return sprintf("%q %d %q %v", r.Cells(), r.B.Cursor, o.held, o.quoted)
}

func init() {
	cfg := func(d string, cur int) mc.KeyCfg {
		return mc.KeyCfg{Name: sprintf("%+q@%d", d, cur), Cfg: &drv.Config{Width: 150, Prompt: str("$ "), Default: d, Cursor: cur}}
	}
	one := func(tier string) []mc.KeyCfg { return []mc.KeyCfg{cfg("", 0)} }
	mc.Register(&mc.Prop{
		ID:   "C20",
		Rule: "an execution is one ReadLine driven by one key sequence under one terminal kind; the text is judged after every key; states are distinct (characters of the line, cursor, held back part)",
		Assumptions: []string{
			"a joiner just typed may be held back, with its base, until the next key or the end of the input",
			"a two-byte key of escape and a character stands for the character (AltGr)",
		},
		Worlds: []*mc.World{
			runesWorld(newTypeOracle, func(s string) []script {
				if s < " " || s == "\x7F" {
					return nil
				}
				mk := func() mc.KeyCfg { return mc.KeyCfg{Cfg: &drv.Config{Width: 80, Prompt: str("$ ")}} }
				return []script{
					{mk(), []string{"a", s, s, "b"}},
					{mk(), []string{"\U0001F468", s, "\u200D", s, "\uFE0F", s}},
					{mk(), []string{s, "\u200D", "b", s, "\U0001F3FF", kB, s, kE, kH}},
				}
			}),
			(&mc.KeyWorld{
				Name: "typing", Shards: 8, Weight: 9, Profiles: allProfiles, Configs: one,
				Keys:  keyset("a", "あ", "‍", "‌", "️", "⃣", "\U0001f468", "\U0001f3ff", "\U0001f1ef", "\U0001f3f3", "́"),
				Depth: depth(4, 5), New: newTypeOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "editing", Shards: 8, Weight: 9, Profiles: allProfiles,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{cfg("", 0), cfg("a\U0001f468b", 2), cfg("\t\x01x", 1)}
				},
				Keys:  keyset("a", "‍", "️", "\U0001f468", "\U0001f3ff", kB, kF, kA, kE, kH, kDel, kK, kW, kT, kL, kMb),
				Depth: depth(4, 5), New: newTypeOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 8, Weight: 9, Profiles: allProfiles, Counts: func(string) []int { return []int{1, 2, 20} },
				Configs: one,
				Keys:    keyset("a", "‍", "️", "\U0001f468", "\U0001f3ff", "\U0001f1ef", kB, kH, kA),
				Depth:   depth(3, 3), New: newTypeOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "quoted", Shards: 8, Weight: 9, Profiles: allProfiles,
				Configs: func(tier string) []mc.KeyCfg { return []mc.KeyCfg{cfg("", 0), cfg("a\U0001f468b", 2)} },
				Keys:    keyset(kV, kQ, "\x00", kEnter, kC, kD, kH, kBS, kEsc, kTab, kUp, kMb, "‍", "️", "a", kR),
				Depth:   depth(4, 5), New: func(c *mc.KeyCfg) mc.Oracle { return &quotedOracle{typeOracle: *newTypeOracle(c).(*typeOracle)} },
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 8, Weight: 9, Profiles: []string{"wt", "contour"}, Configs: one, Dedupe: true,
				Keys:  keyset("‍", "️", "\U0001f468", "\U0001f3ff", kB, kH, kDel),
				Depth: depth(6, 8), New: newTypeOracle,
			}).World(),
		},
	})
}

// quotedOracle: outside of quoted insert only plain characters are judged.
type quotedOracle struct {
	typeOracle
	off bool
}

func (o *quotedOracle) Step(r *drv.Run, key string, fresh bool) string {
	if !o.quoted && (key == kUp || key == kTab || key == kR || key == "\x00" || o.search) {
		o.use(key)
		o.off = true // other commands, not judged here
	}
	if o.off {
		o.use(key)
		return ""
	}
	return o.typeOracle.Step(r, key, fresh)
}

func (o *quotedOracle) End(r *drv.Run, key string, fresh bool) string {
	if o.off {
		return ""
	}
	return o.typeOracle.End(r, key, fresh)
}
