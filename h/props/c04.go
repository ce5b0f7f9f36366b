package props

import (
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/completion"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
)

// urec is one undoable change: the content before it.
type urec struct {
	before      string
	pos         int
	text, del   bool
	optional    string // an intermediate content that undo may also stop at
	hasOptional bool
}

// undoOracle keeps the contents that undo has to go back through. It takes
// the content after each change from the editor itself, so it judges undo and
// nothing else.
type undoOracle struct {
	modes
	hist    []string
	cycling bool
	ptr     int
	recs    []urec
	line    string
	cells   []string
	cur     int
	pending string
}

func newUndoOracle(c *mc.KeyCfg) mc.Oracle {
	return &undoOracle{hist: c.Cfg.History, cycling: c.Cfg.Cycling, ptr: len(c.Cfg.History)}
}

func (o *undoOracle) sync(r *drv.Run) {
	o.line, o.cells, o.cur = r.Line(), r.Cells(), r.B.Cursor
}

func (o *undoOracle) Start(r *drv.Run) string {
	o.sync(r)
	o.recs = []urec{{before: "", del: o.line != ""}}
	if o.line != r.Cfg.Default {
		return sprintf("the line starts with %+q, should be %+q", o.line, r.Cfg.Default)
	}
	return ""
}

func (o *undoOracle) push(before string, pos int, text, del bool) {
	o.recs = append(o.recs, urec{before: before, pos: pos, text: text, del: del})
}

// join: a replacement merges with the deletion before it at the same place.
func (o *undoOracle) join(optional bool) {
	n := len(o.recs)
	if n < 2 {
		return
	}
	a, b := o.recs[n-2], o.recs[n-1]
	if a.pos != b.pos || a.text && b.text || a.del && b.del {
		return
	}
	j := urec{before: a.before, pos: a.pos, text: a.text || b.text, del: a.del || b.del}
	if optional {
		j.optional, j.hasOptional = b.before, true
	}
	o.recs = append(o.recs[:n-2], j)
}

func (o *undoOracle) typed(key string, cells []string, cur int, line string) {
	p := ref.Current
	rs := []rune(key)
	if len(rs) == 2 && rs[0] == 0x1B && len(key) == 2 {
		rs = rs[1:]
	}
	r0 := rs[0]
	switch {
	case o.pending != "":
		o.pending = ""
		o.push(line, cur, false, true)
	case p.IsZWJ(r0) && cur > 0:
		o.pending = cells[cur-1] + key
		o.push(line, cur-1, true, false)
	case (p.VSLike(r0) || p.IsMod(r0)) && cur > 0:
		o.push(line, cur-1, true, false)
		o.push(strings.Join(cells[:cur-1], "")+strings.Join(cells[cur:], ""), cur-1, false, true)
	default:
		o.push(line, cur, false, true)
	}
}

func (o *undoOracle) Step(r *drv.Run, key string, fresh bool) string {
	use := o.use(key)
	line, cells, cur := o.line, o.cells, o.cur
	now, ncur := r.Line(), r.B.Cursor
	unbound := false
	if use == useCommand {
		_, unbound = r.Ed.LookupCommand(key).(readline.SelfInserter)
	}
	if o.pending != "" && use == useCommand && !unbound {
		// the waiting character is put back before the command runs
		o.push(line, cur, false, true)
		line = strings.Join(cells[:cur], "") + o.pending + strings.Join(cells[cur:], "")
		us := ref.Current.Units(o.pending)
		nc := append([]string{}, cells[:cur]...)
		for _, u := range us {
			nc = append(nc, u.Text)
		}
		cells = append(nc, cells[cur:]...)
		cur += len(us)
		o.pending = ""
	}
	want, judge := "", false
	switch {
	case use == useLiteral:
		o.typed(key, cells, cur, line)
	case use == useSearch, use == useCancel:
	case use == useAccept:
		o.push(line, 0, line != "", now != "")
	case unbound:
		o.typed(key, cells, cur, line)
	case key == kZ || key == kUS:
		judge = true
		if n := len(o.recs); n == 0 {
			want = line
		} else {
			u := o.recs[n-1]
			want = u.before
			if u.hasOptional && now == u.optional && now != want {
				want = now
				o.recs[n-1] = urec{before: u.before, pos: u.pos, text: true}
			} else {
				o.recs = o.recs[:n-1]
			}
		}
	case key == kK:
		o.push(line, cur, now != line, false)
	case key == kEsc:
		o.push(line, 0, line != "", false)
	case key == kT:
		if cur == len(cells) && cur >= 2 {
			o.push(line, cur-2, true, true)
		} else if cur < len(cells) && cur >= 1 {
			o.push(line, cur-1, true, true)
		}
	case key == kY:
		if !r.Cfg.ClipFailRead {
			o.push(line, cur, false, ncur > cur)
			o.join(true)
		}
	case key == kP, key == kN:
		if len(o.hist) == 0 {
			break
		}
		if key == kP {
			if o.ptr > 0 {
				o.ptr--
			} else if o.cycling {
				o.ptr = len(o.hist)
			} else {
				break
			}
		} else {
			if o.ptr >= len(o.hist) {
				break
			}
			o.ptr++
		}
		o.push(line, 0, line != "", false)
		if now != "" {
			o.push("", 0, false, true)
		}
	case key == kTab: // completion
		if now != line {
			top := cur
			for top > 0 && cells[top-1] == " " {
				top--
			}
			for top > 0 && cells[top-1] != " " {
				top--
			}
			if cur > top {
				o.push(line, top, true, false)
			}
			o.push("", top, false, true)
			o.join(false)
		}
	default:
		if now != line {
			switch key {
			case kF, kRight: // accepted a prediction
				o.push(line, cur, false, true)
				o.join(true)
			default:
				o.push(line, ncur, true, false)
			}
		}
	}
	if judge {
		if now != want {
			return sprintf("the line is %+q, should be %+q again (it was %+q)", now, want, line)
		}
	}
	o.sync(r)
	return ""
}

func (o *undoOracle) End(r *drv.Run, key string, fresh bool) string {
	if key == kEnter && o.pending == "" && r.Text != o.line {
		return sprintf("ReadLine returned %+q, the line was %+q", r.Text, o.line)
	}
	return ""
}

func (o *undoOracle) Key(r *drv.Run) string {
	var b strings.Builder
	b.WriteString(sprintf("%q %d %v %v %d %q", o.cells, o.cur, o.quoted, o.search, o.ptr, o.pending))
	for _, u := range o.recs {
		b.WriteString(sprintf("%q,%d,%v,%v;", u.before, u.pos, u.text, u.del))
	}
	return b.String()
}

type wordList []string

func (w wordList) Delimiters() string { return "" }
func (w wordList) Enclosures() string { return "" }
func (w wordList) List(fields []string) (full, base []string) {
	return w, w
}

func init() {
	bindTab := func(e *readline.Editor) {
		e.BindKey(kTab, completion.CmdCompletion{Completion: wordList{"abc", "abd", "xyz"}, Postfix: " "})
	}
	mk := func(name string, d string, cur int, f func(*drv.Config)) mc.KeyCfg {
		c := &drv.Config{Width: 40, Prompt: str("$ "), Default: d, Cursor: cur, History: []string{"h1 a", "", "h3"}, Clip: "YY", Setup: bindTab}
		if f != nil {
			f(c)
		}
		return mc.KeyCfg{Name: name, Cfg: c}
	}
	mc.Register(&mc.Prop{
		ID:   "C04",
		Rule: "an execution is one ReadLine driven by one key sequence; at each undo the line must equal the recorded earlier content; states are distinct (line, cursor, stack of earlier contents, mode) per job",
		Assumptions: []string{
			"a paste that directly follows a deletion at the same place may be undone together with it",
		},
		Worlds: []*mc.World{
			runesWorld(newUndoOracle, func(s string) []script {
				if !plainRune(s) {
					return nil
				}
				c := func() mc.KeyCfg {
					return mc.KeyCfg{Cfg: &drv.Config{Width: 80, Prompt: str("$ "), Default: "x" + s + " y" + s, Cursor: 99, Clip: "c" + s, History: []string{"h" + s}}}
				}
				return []script{
					{c(), []string{s, kB, kT, kZ, kH, kZ, kW, kZ, kZ, kZ, kZ, kZ}},
					{c(), []string{kA, kK, kY, kY, kZ, kZ, kP, kZ, kZ, kZ, s, s, kH, kZ, kZ, kZ, kZ}},
				}
			}),
			(&mc.KeyWorld{
				Name: "all", Shards: 32, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{mk("ab c@2", "ab c", 2, nil), mk("empty", "", 0, nil)}
				},
				Keys: keyset("a", " ", kB, kA, kE, kH, kDel, kK, kU, kW, kEsc, kT, kY, kP, kN, kTab, kZ), Depth: depth(4, 5), New: newUndoOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "search", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{
						mk("search", "ab", 1, nil),
						mk("predict", "h", 1, func(c *drv.Config) { c.Predict = true }),
						mk("cycling", "q", 1, func(c *drv.Config) { c.Cycling = true }),
					}
				},
				Keys: keyset("h", kR, kEnter, kG, kZ, kF, kH, kP, kN, kV, kT, kK), Depth: depth(5, 6), New: newUndoOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "composed", Shards: 16, Weight: 8, Profiles: []string{"wt", "contour", "plain"},
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{
						mk("empty", "", 0, nil),
						mk("family", "a👨‍🌾b", 2, nil),
						mk("cut", "a\t️b👍", 2, nil),
					}
				},
				Keys: keyset("👨", "‍", "️", "🏽", "\x01", kH, kB, kA, kK, kT, kZ, kV, kY), Depth: depth(4, 5), New: newUndoOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{
						mk("empty", "", 0, nil),
						mk("long", longTexts[0], 100, func(c *drv.Config) { c.History = longHistory }),
						mk("mixed", longTexts[3], 20, func(c *drv.Config) { c.Width, c.Cycling = 17, true }),
					}
				},
				Keys: keyset("a", " ", kB, kA, kE, kH, kDel, kK, kU, kW, kEsc, kT, kY, kP, kN, kTab, kZ), Depth: depth(3, 3), New: newUndoOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "sessions", Shards: 16, Weight: 9, Counts: manyTimes,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{mk("empty", "", 0, nil), mk("huge", hugeText[:400], 400, func(c *drv.Config) { c.History = hugeHistory })}
				},
				Keys: keyset("a", kH, kT, kY, kP, kZ), Depth: depth(2, 3), New: newUndoOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 4, Weight: 9, Dedupe: true,
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{
						mk("empty", "", 0, nil),
						mk("abc@1", "abc", 1, nil),
						mk("narrow", "abcdef", 3, func(c *drv.Config) { c.Width = 9 }),
						mk("words", "ab abc", 6, nil),
					}
				},
				Keys: keyset("a", kB, kH, kK, kT, kY, kP, kTab, kW, kZ), Depth: depth(6, 7), New: newUndoOracle,
			}).World(),
		},
	})
}
