package props

import (
	"bytes"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// A painter is a colouring, as the application supplies it and as the oracle
// computes it.
type painter struct {
	name string
	real func() readline.Coloring
	// def is the default rendition, colour the one of the last rune of fed.
	def    vt.Attr
	colour func(fed []rune) vt.Attr
}

const cursorMark = ''

func colourCodes(n int) [4]int {
	return [4]int{31 + n%7, 40 + n/7%8, []int{1, 22}[n/2%2], []int{4, 24}[n/3%2]}
}

func attrOf(codes ...int) vt.Attr { return vt.ApplySGR(vt.DefAttr, codes, nil) }

// hashing gives every rune a colour that depends on all runes before it and,
// when mark is set, on where the cursor is.
type hashing struct {
	n    int
	mark bool
}

func (h *hashing) feed(r rune) int {
	if r != cursorMark || h.mark {
		h.n = (h.n*31 + int(r)%1009 + 7) % 1009
	}
	return h.n
}

func (h *hashing) Init() readline.ColorSequence { h.n = 0; return readline.SGR4(33, 49, 22, 24) }
func (h *hashing) Next(r rune) readline.ColorSequence {
	c := colourCodes(h.feed(r))
	return readline.SGR4(c[0], c[1], c[2], c[3])
}

func hashPainter(mark bool) *painter {
	return &painter{
		name: sprintf("hash-%v", mark), def: attrOf(33, 49, 22, 24),
		real: func() readline.Coloring { return &hashing{mark: mark} },
		colour: func(fed []rune) vt.Attr {
			h := &hashing{mark: mark}
			n := 0
			for _, r := range fed {
				n = h.feed(r)
			}
			c := colourCodes(n)
			return attrOf(c[:]...)
		},
	}
}

// words paints words and spaces, and underlines the word before the cursor: a
// colouring of the kind that applications write. Equal colours stand side by
// side, and the default is one of them.
type words struct{ n int }

func (w *words) Init() readline.ColorSequence { w.n = 0; return readline.SGR3(39, 49, 22) }
func (w *words) Next(r rune) readline.ColorSequence {
	switch {
	case r == cursorMark:
		w.n = 9
	case r == ' ' || r == '\t':
		w.n = 0
		return readline.SGR3(39, 49, 22)
	default:
		w.n++
	}
	return readline.SGR3(31+w.n/3%7, 49, 1)
}

var wordsPainter = &painter{
	name: "words", def: attrOf(39, 49, 22),
	real: func() readline.Coloring { return &words{} },
	colour: func(fed []rune) vt.Attr {
		n, last := 0, rune(0)
		for _, r := range fed {
			last = r
			switch {
			case r == cursorMark:
				n = 9
			case r == ' ' || r == '\t':
				n = 0
			default:
				n++
			}
		}
		if last == ' ' || last == '\t' {
			return attrOf(39, 49, 22)
		}
		return attrOf(31+n/3%7, 49, 1)
	},
}

// The one that comes with the library: %names% in cyan, quoted text in
// magenta, full width spaces in red, ampersands in dark yellow.
var vimPainter = &painter{
	name: "vim", def: attrOf(0),
	real: func() readline.Coloring { return &coloring.VimBatch{} },
	colour: func(fed []rune) vt.Attr {
		env, quoted := 0, 0
		for i, r := range fed {
			last := i == len(fed)-1
			switch r {
			case '%':
				env++
				if last {
					return attrOf(36, 49, 1)
				}
			case '"':
				quoted++
				if last && env%2 == 0 {
					return attrOf(35, 49, 1)
				}
			}
		}
		r := fed[len(fed)-1]
		switch {
		case r == 0x3000:
			return attrOf(37, 22, 41)
		case env%2 == 1:
			return attrOf(36, 49, 1)
		case quoted%2 == 1:
			return attrOf(35, 49, 1)
		case r == '&':
			return attrOf(33, 49, 22)
		}
		return attrOf(39, 49, 1)
	},
}

// No colouring configured: everything in the default colour, bold.
var monoPainter = &painter{
	name: "none", def: attrOf(39, 49, 1),
	real:   nil,
	colour: func([]rune) vt.Attr { return attrOf(39, 49, 1) },
}

type colourOracle struct {
	screenOracle
	modes
	p *painter
}

func (o *colourOracle) judge(r *drv.Run) string {
	cells := r.Cells()
	us := unitsOf(cells)
	cols := ref.Cols(us)
	cur := r.B.Cursor
	vs, m := o.s.check(r)
	if m != "" {
		return sprintf("%s (line %+q, cursor %d)", m, r.Line(), cur)
	}
	if r.Scr.A != o.p.def {
		return sprintf("the rendition in force is %v, the default is %v (line %+q, cursor %d)", r.Scr.A, o.p.def, r.Line(), cur)
	}
	row := r.Scr.Row()
	var fed []rune
	x := o.s.top
	past := false
	for i, u := range us {
		if i == cur {
			fed = append(fed, cursorMark)
		}
		fed = append(fed, []rune(u.Text)...)
		if i < vs || past {
			continue
		}
		w := cols[i+1] - cols[i]
		if x+w > len(row) || w > 0 && row[x].R == 0 {
			past = true
			continue
		}
		for n, c := range look(u, w) {
			if !same(row[x+n], c) {
				past = true
			}
		}
		if past {
			continue
		}
		want := o.p.colour(fed)
		n := w
		if u.Kind == ref.Seq || u.Kind == ref.Flag {
			n = 1
		}
		for c := x; c < x+n; c++ {
			if row[c].A != want {
				return sprintf("character %d (%+q) is painted %v, should be %v (line %+q, cursor %d)", i, u.Text, row[c].A, want, r.Line(), cur)
			}
		}
		x += w
	}
	for c := x; c < len(row); c++ {
		if row[c].R == 0 && row[c].A.Bg != 0 && row[c].A.Bg != o.p.def.Bg {
			return sprintf("the empty column %d has background %d (line %+q, cursor %d)", c, row[c].A.Bg, r.Line(), cur)
		}
	}
	return ""
}

func (o *colourOracle) Start(r *drv.Run) string { return o.judge(r) }

func (o *colourOracle) Step(r *drv.Run, key string, fresh bool) string {
	use := o.use(key)
	if use == useCommand && key == kL {
		o.cleared(r)
	}
	if use == useCommand && key == kRedraw {
		o.s = o.s.redrawn(r.Scr, promptOf(r.Cfg), 6)
	}
	if !fresh || o.search {
		return ""
	}
	return o.judge(r)
}

func (o *colourOracle) End(r *drv.Run, key string, fresh bool) string {
	if r.Scr.A != o.p.def {
		return sprintf("after the input the rendition in force is %v, the default is %v", r.Scr.A, o.p.def)
	}
	return ""
}

// seqCase is a colour sequence built from codes in one of several ways.
type seqCase struct {
	Codes []int
	How   string
	Split int
}

func sgr(codes []int) (readline.ColorSequence, bool) {
	switch len(codes) {
	case 1:
		return readline.SGR1(codes[0]), true
	case 2:
		return readline.SGR2(codes[0], codes[1]), true
	case 3:
		return readline.SGR3(codes[0], codes[1], codes[2]), true
	case 4:
		return readline.SGR4(codes[0], codes[1], codes[2], codes[3]), true
	}
	return 0, false
}

func added(codes []int) (c readline.ColorSequence) {
	for _, n := range codes {
		c = c.Add(n)
	}
	return
}

func checkSeq(c seqCase) (outcome, sig, msg string) {
	mc.Ticks++
	var s readline.ColorSequence
	switch c.How {
	case "sgr":
		s, _ = sgr(c.Codes)
	case "add":
		s = added(c.Codes)
	case "sgr+add":
		s, _ = sgr(c.Codes[:c.Split])
		for _, n := range c.Codes[c.Split:] {
			s = s.Add(n)
		}
	case "chain":
		s = added(c.Codes[:c.Split]).Chain(added(c.Codes[c.Split:]))
	}
	var b bytes.Buffer
	if _, err := s.WriteTo(&b); err != nil {
		return "", "colour", err.Error()
	}
	var w strings.Builder
	for i, n := range c.Codes {
		if i > 0 {
			w.WriteByte(';')
		}
		w.WriteString(sprintf("%d", n))
	}
	want := "\x1B[" + w.String() + "m"
	if b.String() != want {
		return "", "colour", sprintf("%v built by %s (split at %d) prints %q, should be %q", c.Codes, c.How, c.Split, b.String(), want)
	}
	if s != added(c.Codes) {
		return "", "colour", sprintf("%v built by %s (split at %d) is not the same sequence as code by code", c.Codes, c.How, c.Split)
	}
	return want, "", ""
}

type namedColour struct {
	Name string
	N    int
	Dark bool
}

var named = map[namedColour]readline.ColorSequence{
	{"Black", 30, false}: readline.Black, {"Red", 31, false}: readline.Red, {"Green", 32, false}: readline.Green,
	{"Yellow", 33, false}: readline.Yellow, {"Blue", 34, false}: readline.Blue, {"Magenta", 35, false}: readline.Magenta,
	{"Cyan", 36, false}: readline.Cyan, {"White", 37, false}: readline.White, {"DefaultForeGroundColor", 39, false}: readline.DefaultForeGroundColor,
	{"DarkGray", 30, true}: readline.DarkGray, {"DarkRed", 31, true}: readline.DarkRed, {"DarkGree", 32, true}: readline.DarkGree,
	{"DarkYellow", 33, true}: readline.DarkYellow, {"DarkBlue", 34, true}: readline.DarkBlue, {"DarkMagenta", 35, true}: readline.DarkMagenta,
	{"DarkCyan", 36, true}: readline.DarkCyan, {"DarkWhite", 37, true}: readline.DarkWhite, {"DarkDefaultForeGroundColor", 39, true}: readline.DarkDefaultForeGroundColor,
	{"ColorReset", 0, true}: readline.ColorReset,
}

func init() {
	painters := []*painter{hashPainter(true), hashPainter(false), wordsPainter, vimPainter, monoPainter}
	byName := map[string]*painter{}
	for _, p := range painters {
		byName[p.name] = p
	}
	colourTexts := append([]string{`a"b %c% d"e&f`, "\"　%\" % &"}, mixTexts...)
	cfgs := func(ws []int, ps []*painter, ts []string, curs func(n int) []int, f func(*drv.Config)) []mc.KeyCfg {
		var cs []mc.KeyCfg
		for _, p := range ps {
			for _, w := range ws {
				for _, t := range ts {
					n := len(newLine(t, 0).u)
					for _, cur := range curs(n) {
						c := &drv.Config{Redraw: true,
							Width: w, Prompt: str("$ "), Default: t, Cursor: cur, Clip: "Y\tz", History: []string{"pqr%st uvwxyz", "\"\x03い5"}, Coloring: p.real,
						}
						if f != nil {
							f(c)
						}
						cs = append(cs, mc.KeyCfg{Name: sprintf("%s w%d %+q@%d", p.name, w, t, cur), Cfg: c})
					}
				}
			}
		}
		return cs
	}
	every := func(n int) (out []int) {
		for i := 0; i <= n; i++ {
			out = append(out, i)
		}
		return
	}
	ends := func(n int) []int { return []int{0, n / 2, n} }
	newO := func(c *mc.KeyCfg) mc.Oracle {
		name, _, _ := strings.Cut(c.Name, " ")
		return &colourOracle{screenOracle: *newScreenOracle(c), p: byName[name]}
	}
	keys := append([]string{"X", "漢", `"`, "%", "&", " ", kL, kRedraw, kZ, kP, kN, kY, kV, kMb, kMf}, editKeys...)
	mc.Register(&mc.Prop{
		ID:   "C18",
		Rule: "an execution is one ReadLine driven by one key sequence with one colouring, or one colour sequence built and printed; after the last key the rendition of every shown character is compared with the colouring's answer; states are distinct (line, cursor, scroll, screen) per job",
		Assumptions: []string{
			"every colour names all the renditions that the colouring ever uses",
			"a composed character has the colour given for its last code",
			"colour codes are 0 to 255, at most seven in a sequence and the seventh below 128",
		},
		Worlds: []*mc.World{
			runesWorld(newO, func(s string) []script {
				if !plainRune(s) || s == string(cursorMark) {
					return nil
				}
				var out []script
				for _, p := range painters {
					c := mc.KeyCfg{Name: p.name + " ", Cfg: &drv.Config{Width: 30, Prompt: str("$ "), Default: "x" + s + " %" + s + `"z` + s, Cursor: 99, Coloring: p.real}}
					out = append(out, script{c, []string{s, kB, kB, s, kMb, kH, kA, kF, kDel, kE}})
				}
				return out
			}),
			(&mc.KeyWorld{
				Name: "keys", Shards: 24, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs([]int{15, 40}, painters, colourTexts, ends, nil)
				},
				Keys: keyset(keys...), Depth: depth(2, 3), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "cursors", Shards: 16, Weight: 8, Profiles: allProfiles,
				Configs: func(tier string) []mc.KeyCfg {
					var ws []int
					for w := 11; w <= tierN(tier, 24, 30); w++ {
						ws = append(ws, w)
					}
					return cfgs(ws, painters[:3], colourTexts, every, nil)
				},
				Keys: keyset(keys...), Depth: depth(1, 1), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "deep", Shards: 16, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs([]int{12}, []*painter{painters[0], wordsPainter}, []string{"", "ab c"}, ends, nil)
				},
				Keys: keyset("x", " ", "漢", kA, kE, kB, kF, kH, kD, kK, kMf, kMb, kZ), Depth: depth(4, 5), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "runs", Shards: 32, Weight: 9, Counts: runs,
				Configs: func(tier string) []mc.KeyCfg {
					cs := cfgs([]int{31}, painters, longTexts, func(n int) []int { return []int{n / 3, n} }, nil)
					return append(cs, cfgs([]int{20}, painters, []string{""}, every, nil)...)
				},
				Keys: keyset("x", " ", `"`, "漢", "%", "&", kA, kE, kB, kF, kH, kMb, kMf), Depth: depth(2, 2), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "search", Shards: 8, Weight: 7,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs([]int{40, 15}, painters, []string{"", `a"b`}, ends, nil)
				},
				Keys: keyset(kR, "p", "5", kG, kEnter, kS, kB, kH), Depth: depth(5, 5), New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "prediction", Shards: 8, Weight: 7,
				Configs: func(tier string) []mc.KeyCfg {
					return cfgs([]int{40, 15}, painters, []string{"", "p"}, ends, func(c *drv.Config) { c.Predict = true })
				},
				Keys: keyset("p", "q", kB, kF, kH, kE, kP, kK), Depth: depth(4, 5),
				New: func(c *mc.KeyCfg) mc.Oracle {
					o := newO(c).(*colourOracle)
					// what is predicted is judged elsewhere; here its rendition
					o.s.tail = func(row []vt.Cell, col int) string {
						for ; col < len(row) && row[col].R != 0; col++ {
							if row[col].A.Fg != 34 || !row[col].A.Italic {
								return sprintf("column %d after the line shows %q painted %v", col, row[col].Glyph(), row[col].A)
							}
						}
						return ""
					}
					return o
				},
			}).World(),
			(&mc.CaseWorld[seqCase]{
				Name: "sequences", Shards: 8, Weight: 5,
				BoundTxt: func(tier string) string {
					return "all sequences of 1 to 7 codes from a small set, built by the constructors, code by code and by chaining at every point; all single codes 0 to 255"
				},
				Cases: func(tier string, yield func(seqCase) bool) {
					for n := 0; n < 256; n++ {
						if !yield(seqCase{[]int{n}, "sgr", 0}) || !yield(seqCase{[]int{n}, "add", 0}) {
							return
						}
					}
					vals := []int{0, 1, 31, 107, 255}
					if tier == "thorough" {
						vals = []int{0, 1, 22, 31, 49, 107, 128, 255}
					}
					var rec func(codes []int) bool
					rec = func(codes []int) bool {
						if n := len(codes); n > 0 && !(n == 7 && codes[6] > 127) {
							cs := append([]int{}, codes...)
							if n <= 4 && !yield(seqCase{cs, "sgr", 0}) {
								return false
							}
							if !yield(seqCase{cs, "add", 0}) {
								return false
							}
							for k := 1; k < n; k++ {
								if k <= 4 && !yield(seqCase{cs, "sgr+add", k}) {
									return false
								}
								if !yield(seqCase{cs, "chain", k}) {
									return false
								}
							}
						}
						max := 7
						vs := vals
						if len(codes) >= 4 {
							vs = vals[1:3]
						}
						if len(codes) == max {
							return true
						}
						for _, v := range vs {
							if !rec(append(codes[:len(codes):len(codes)], v)) {
								return false
							}
						}
						return true
					}
					rec(nil)
				},
				Check: checkSeq,
			}).World(),
			(&mc.CaseWorld[namedColour]{
				Name: "names", Shards: 1, Weight: 1,
				BoundTxt: func(string) string { return "all named colours" },
				Cases: func(tier string, yield func(namedColour) bool) {
					for c := range named {
						if !yield(c) {
							return
						}
					}
				},
				Check: func(c namedColour) (string, string, string) {
					mc.Ticks++
					scr := vt.New(4, 1, ref.Current.ScreenWidth)
					scr.A = vt.Attr{Fg: 90, Bg: 41, Bold: c.Dark}
					named[c].WriteTo(scr)
					want := vt.Attr{Fg: c.N, Bg: 49, Bold: !c.Dark}
					if c.N == 0 {
						want = vt.DefAttr
					}
					if scr.A != want {
						return "", "colour", sprintf("%s gives %v, should be %v", c.Name, scr.A, want)
					}
					return c.Name, "", ""
				},
			}).World(),
		},
	})
}
