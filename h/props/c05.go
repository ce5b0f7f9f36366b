package props

import (
	"sort"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/simplehistory"

	"verifh/drv"
	"verifh/mc"
)

// histOracle keeps what each visited history entry and the new line contain.
// Contents come from the editor itself at the moment they are left.
type histOracle struct {
	modes
	hist    []string
	cycling bool
	ptr     int
	edited  map[int]string
	line    string
	cur     int
}

func newHistOracle(c *mc.KeyCfg) mc.Oracle {
	return &histOracle{hist: c.Cfg.History, cycling: c.Cfg.Cycling, ptr: len(c.Cfg.History), edited: map[int]string{}}
}

func (o *histOracle) Start(r *drv.Run) string {
	o.line, o.cur = r.Line(), r.B.Cursor
	return ""
}

func (o *histOracle) Step(r *drv.Run, key string, fresh bool) string {
	use := o.use(key)
	line, cur := o.line, o.cur
	o.line, o.cur = r.Line(), r.B.Cursor
	if use != useCommand {
		return ""
	}
	n := len(o.hist)
	to := o.ptr
	switch key {
	case kP, kUp:
		if n > 0 && o.ptr > 0 {
			to--
		} else if n > 0 && o.cycling {
			to = n
		}
	case kN, kDown:
		if o.ptr < n {
			to++
		}
	default:
		return ""
	}
	if to == o.ptr {
		if o.line != line || o.cur != cur {
			return sprintf("there is nothing more that way, but %+q@%d became %+q@%d", line, cur, o.line, o.cur)
		}
		return ""
	}
	o.edited[o.ptr] = line
	o.ptr = to
	want, ok := o.edited[to]
	if !ok && to < n {
		want = o.hist[to]
	}
	if o.line != want {
		return sprintf("entry %d of %d shows %+q, should be %+q", to, n, o.line, want)
	}
	if o.cur != len(r.B.Buffer) {
		return sprintf("the cursor is %d, not at the end of %+q", o.cur, o.line)
	}
	return ""
}

func (o *histOracle) End(r *drv.Run, key string, fresh bool) string {
	if key == kEnter && r.Text != o.line {
		return sprintf("ReadLine returned %+q, the line was %+q", r.Text, o.line)
	}
	// the next input sees the plain history
	n := len(o.hist)
	for i := 0; i < n; i++ {
		if got := r.Ed.History.At(i); got != o.hist[i] {
			return sprintf("history entry %d was changed to %+q", i, got)
		}
	}
	if r.Ed.History.Len() != n {
		return "the length of the history changed"
	}
	i := n
	bad := ""
	r.Again(func(r *drv.Run) (string, error) {
		want := r.Cfg.Default
		if i < n {
			want = o.hist[i]
		}
		if got := r.Line(); got != want {
			bad = sprintf("in the next input entry %d of %d shows %+q, should be %+q", i, n, got, want)
			return "", drv.ErrStop
		}
		if i == 0 {
			return kC, nil
		}
		i--
		return kP, nil
	})
	if bad == "" && r.Panic != "" {
		bad = "the next input panics: " + r.Panic
	}
	return bad
}

func (o *histOracle) Key(r *drv.Run) string {
	var ks []int
	for k := range o.edited {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var b strings.Builder
	b.WriteString(sprintf("%q %d %d %v %v", o.line, o.cur, o.ptr, o.quoted, o.search))
	for _, k := range ks {
		b.WriteString(sprintf(";%d=%q", k, o.edited[k]))
	}
	return b.String()
}

func init() {
	hists := [][]string{
		nil, {}, {"a"}, {"a", "bb", "c d"}, {"", "a", ""}, {"a", "a"}, {"ａ\tb", "あ", "👨‍🌾x"}, {"abcdefghijklmnopq", "x"},
	}
	cfgs := func(widths []int, hs [][]string, defaults ...string) []mc.KeyCfg {
		var cs []mc.KeyCfg
		for _, w := range widths {
			for hi, h := range hs {
				for _, cyc := range []bool{false, true} {
					for _, d := range defaults {
						h := h
						c := &drv.Config{Width: w, Prompt: str("$ "), History: h, Cycling: cyc, Default: d}
						c.Setup = func(e *readline.Editor) {
							// the history container that comes with the library
							sh := simplehistory.New()
							for _, s := range h {
								sh.Add(s)
							}
							if hi != 0 {
								e.History = sh
							}
						}
						cs = append(cs, mc.KeyCfg{Name: sprintf("w%d %+q cyc%v %q", w, h, cyc, d), Cfg: c})
					}
				}
			}
		}
		return cs
	}
	mc.Register(&mc.Prop{
		ID:   "C05",
		Rule: "an execution is one ReadLine driven by one key sequence, followed by a second one that walks back through the whole history; states are distinct (line, cursor, position, retained edits) per job",
		Assumptions: []string{
			"the history does not change during an input",
		},
		Worlds: []*mc.World{
			runesWorld(newHistOracle, func(s string) []script {
				if !plainRune(s) {
					return nil
				}
				c := mc.KeyCfg{Cfg: &drv.Config{Width: 80, Prompt: str("$ "), Default: s, Cursor: 99, History: []string{"a" + s, s, s + "b"}}}
				return []script{{c, []string{kP, kP, s, kH, kP, kN, kP, "x", kN, s, kN, kN, kP}}}
			}),
			(&mc.KeyWorld{
				Name: "all", Shards: 16, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg { return cfgs([]int{80}, hists, "", "dd") },
				Keys:    keyset(kP, kN, "x", kH, kEsc, kZ, kUp, kDown), Depth: depth(5, 6), New: newHistOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					cs := cfgs([]int{30}, [][]string{{"a"}, longHistory}, "", longTexts[2])
					for i := range cs {
						cs[i].Name = sprintf("%d of %d", i, len(cs))
					}
					return cs
				},
				Keys: keyset(kP, kN, "x", kH, kEsc, kZ, kB, kK), Depth: depth(3, 4), New: newHistOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "sessions", Shards: 16, Weight: 9, Counts: manyTimes,
				Configs: func(tier string) []mc.KeyCfg {
					cs := cfgs([]int{30}, [][]string{hugeHistory}, "q")
					cs[0].Name = "huge"
					return cs
				},
				Keys: keyset(kP, kN, "x"), Depth: depth(3, 4), New: newHistOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "narrow", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg { return cfgs([]int{1, 5, 8, 11}, hists[3:], "q") },
				Keys:    keyset(kP, kN, "x", kB, kK, kT), Depth: depth(4, 6), New: newHistOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "search", Shards: 16, Weight: 8,
				Configs: func(tier string) []mc.KeyCfg { return cfgs([]int{80}, hists[3:6], "q") },
				Keys:    keyset(kP, kN, "a", kR, kEnter, kG, kZ), Depth: depth(5, 6), New: newHistOracle,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 8, Weight: 9, Dedupe: true,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs([]int{80}, [][]string{{"a", "b", "c"}, {"a", "", "a"}}, "", "n")
				},
				Keys: keyset(kP, kN, "x", kH), Depth: depth(9, 12), New: newHistOracle,
				Prune: func(c *mc.KeyCfg, r *drv.Run) bool { return len(r.B.Buffer) > 3 },
			}).World(),
		},
	})
}
