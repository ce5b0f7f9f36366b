package props

import (
	"strings"
	"unicode"
	"unicode/utf8"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// searchOracle is the reference search.
type searchOracle struct {
	modes
	hist  []string
	scr   *screen
	line  string
	cur   int
	typed []rune
	found string
	pos   int
}

func newSearchOracle(c *mc.KeyCfg) mc.Oracle {
	return &searchOracle{hist: c.Cfg.History, scr: newScreen(promptOf(c.Cfg), c.Cfg.Width, 6)}
}

func (o *searchOracle) matches(i int) bool {
	return strings.Contains(strings.ToUpper(o.hist[i]), strings.ToUpper(string(o.typed)))
}

func (o *searchOracle) newest() {
	o.found = ""
	for i := len(o.hist) - 1; i >= 0; i-- {
		if o.matches(i) {
			o.found, o.pos = o.hist[i], i
			return
		}
	}
}

func (o *searchOracle) searchKey(key string) {
	n := len(o.hist)
	switch key {
	case kH, kBS:
		if len(o.typed) > 0 {
			o.typed = o.typed[:len(o.typed)-1]
		}
		o.newest()
	case kR: // older, and from the oldest on to the newest
		for d := 1; d < n; d++ {
			i := ((o.pos-d)%n + n) % n
			if o.matches(i) && o.hist[i] != o.found {
				o.found, o.pos = o.hist[i], i
				return
			}
		}
	case kS:
		for i := o.pos + 1; i < n; i++ {
			if o.matches(i) && o.hist[i] != o.found {
				o.found, o.pos = o.hist[i], i
				return
			}
		}
	default:
		c, _ := utf8.DecodeRuneInString(key)
		if !unicode.IsControl(c) {
			o.typed = append(o.typed, c)
			o.newest()
		}
	}
}

func (o *searchOracle) Start(r *drv.Run) string {
	o.line, o.cur = r.Line(), r.B.Cursor
	return ""
}

func (o *searchOracle) shown(r *drv.Run) string {
	us := ref.Current.Units(sprintf("(i-search)[%s]:%s", string(o.typed), o.found))
	cols := ref.Cols(us)
	view := o.scr.view()
	e := 0
	for e < len(us) && cols[e+1] < view {
		e++
	}
	s := r.Scr
	if s.Incomplete() || len(s.Anomalies) > 0 {
		return sprintf("the terminal got %q", s.Anomalies)
	}
	if !s.Visible {
		return "the cursor is hidden"
	}
	if s.AbsRow() != o.scr.row {
		return "the search is in another row; " + showScreen(s)
	}
	row := s.Row()
	want := make([]vt.Cell, len(row))
	copy(want, o.scr.prompt)
	for i := 0; i < e; i++ {
		copy(want[o.scr.top+cols[i]:], look(us[i], cols[i+1]-cols[i]))
	}
	for i := range want {
		if !same(want[i], row[i]) {
			return sprintf("the search shows %+q, should be %+q", vt.RowString(row), vt.RowString(want))
		}
	}
	return ""
}

func (o *searchOracle) Step(r *drv.Run, key string, fresh bool) string {
	was := o.search
	use := o.use(key)
	now, ncur := r.Line(), r.B.Cursor
	line, cur := o.line, o.cur
	o.line, o.cur = now, ncur
	switch use {
	case useSearch:
		o.searchKey(key)
	case useAccept:
		if now != o.found {
			return sprintf("accepting gives %+q, should be the shown %+q", now, o.found)
		}
		if ncur != len(r.B.Buffer) {
			return sprintf("the cursor is %d, not at the end of %+q", ncur, now)
		}
	case useCancel:
		if now != line || ncur != cur {
			return sprintf("cancelling changed %+q@%d to %+q@%d", line, cur, now, ncur)
		}
	default:
		if o.search && !was {
			o.typed, o.found, o.pos = nil, "", len(o.hist)-1
		}
	}
	if o.search {
		if now != line || ncur != cur {
			return sprintf("searching changed %+q@%d to %+q@%d", line, cur, now, ncur)
		}
		return o.shown(r)
	}
	if use == useAccept || use == useCancel {
		if _, m := o.scr.check(r); m != "" {
			return sprintf("%s (line %+q, cursor %d)", m, now, ncur)
		}
	}
	return ""
}

func (o *searchOracle) End(r *drv.Run, key string, fresh bool) string {
	if o.search {
		return "the input ended during the search"
	}
	if key == kEnter && r.Text != o.line {
		return sprintf("ReadLine returned %+q, the line was %+q", r.Text, o.line)
	}
	return ""
}

func (o *searchOracle) Key(r *drv.Run) string {
	return sprintf("%q %d %v %q %q %d %s", o.line, o.cur, o.search, string(o.typed), o.found, o.pos, mc.StdKey(r))
}

func init() {
	mk := func(w int, h []string, d string, cur int) mc.KeyCfg {
		return mc.KeyCfg{Name: sprintf("w%d %+q %+q@%d", w, h, d, cur), Cfg: &drv.Config{Width: w, Prompt: str("$ "), History: h, Default: d, Cursor: cur}}
	}
	small := func(tier string) (hs [][]string) {
		// every history of up to n entries over these
		es := []string{"", "a", "b", "ab", "A", "ba"}
		var rec func(h []string, left int)
		rec = func(h []string, left int) {
			hs = append(hs, append([]string{}, h...))
			if left == 0 {
				return
			}
			for _, e := range es {
				rec(append(h, e), left-1)
			}
		}
		rec(nil, 3)
		return
	}
	mc.Register(&mc.Prop{
		ID:   "C06",
		Rule: "an execution is one ReadLine driven by one key sequence that starts a search; line, cursor and the shown row are judged after every key; states are distinct (line, cursor, search text, candidate, screen) per job",
		Assumptions: []string{
			"ignoring case means equal upper case",
			"a search starts without a candidate, standing at the newest entry",
		},
		Worlds: []*mc.World{
			runesWorld(newSearchOracle, func(s string) []script {
				if !plainRune(s) {
					return nil
				}
				c := func() mc.KeyCfg {
					return mc.KeyCfg{Cfg: &drv.Config{Width: 80, Prompt: str("$ "), Default: "d", Cursor: 0, History: []string{"a" + s + "1", "b" + strings.ToUpper(s) + "2", "c" + strings.ToLower(s) + "3", "d4"}}}
				}
				return []script{{c(), []string{kR, s, kR, kR, kS, "2", kH, kG, kE, kR, s, kR, kEnter}}, {c(), []string{kR, "b", s, kR, kEnter}}}
			}),
			(&mc.KeyWorld{
				Name: "histories", Shards: 16, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, h := range small(tier) {
						c := mk(60, h, "q", 1)
						c.Pre = []string{kR}
						cs = append(cs, c)
					}
					return cs
				},
				Keys:  keyset("a", "b", kR, kS, kH),
				Depth: depth(5, 6), New: newSearchOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "modes", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{
						mk(60, []string{"foo", "bar x", "Foo bar", "あい"}, "line", 2),
						mk(60, []string{"foo", "foo", "bar"}, "", 0),
						mk(60, nil, "zz", 1),
					}
				},
				Keys:  keyset("o", "あ", kR, kS, kH, kBS, kEnter, kG, kC, kEsc, kB, kUp, "\x00"),
				Depth: depth(5, 6), New: newSearchOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for i, t := range []string{"q", longTexts[0]} {
						c := mk(60-23*i, longHistory, t, 40)
						c.Name = sprintf("long %d", i)
						c.Pre = []string{kR}
						cs = append(cs, c)
					}
					return cs
				},
				Keys:  keyset("a", "b", "4", " ", "あ", kR, kS, kH, kG, kEnter),
				Depth: depth(3, 4), New: newSearchOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "sessions", Shards: 32, Weight: 9, Counts: func(string) []int { return []int{1, 280} },
				Configs: func(tier string) []mc.KeyCfg {
					c := mk(50, hugeHistory[:300], hugeText, 600)
					c.Name, c.Pre = "huge", []string{kR}
					return []mc.KeyCfg{c}
				},
				Keys:  keyset("a", "7", " ", kR, kS, kH, kEnter),
				Depth: depth(2, 3), New: newSearchOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "narrow", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for w := 9; w <= 30; w++ {
						cs = append(cs, mk(w, []string{"あいうえおか", "\x01x\ty", "a👨‍🌾bcdefghijk"}, "abcdefghijkl", 7))
					}
					return cs
				},
				Keys:  keyset("x", "い", "b", kR, kS, kH, kEnter, kG, kEsc),
				Depth: depth(4, 5), New: newSearchOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 4, Weight: 8, Dedupe: true,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{
						mk(50, []string{"ab", "ba", "abc", "AB", "x", "ab"}, "q", 1),
						mk(50, []string{"b", "aB", "", "b", "a"}, "", 0),
					}
				},
				Keys:  keyset("a", "b", kR, kS, kH, kEnter, kG),
				Depth: depth(7, 10), New: newSearchOracle,
			}).World(),
		},
	})
}
