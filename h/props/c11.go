package props

import (
	"strings"
	"unicode/utf8"

	tty "github.com/mattn/go-tty"
	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/completion"

	"verifh/drv"
	"verifh/mc"
	"verifh/vt"
)

// wordSource is a candidate source that always offers the same names.
type wordSource struct {
	quotes, del string
	full, base  []string
	got         [][]string
	dynamic     func(fields []string) (full, base []string)
}

func (s *wordSource) Enclosures() string { return s.quotes }
func (s *wordSource) Delimiters() string { return s.del }
func (s *wordSource) List(fields []string) ([]string, []string) {
	s.got = append(s.got, append([]string{}, fields...))
	if s.dynamic != nil {
		return s.dynamic(fields)
	}
	return append([]string{}, s.full...), append(s.base[:0:0], s.base...)
}

const wordSpaces = " \t\r\n\v\f"

// fieldsOf divides the units before the cursor into words: spaces separate,
// delimiters are words of their own, both only outside of quotes. start is the
// unit where the last word begins. ok is false when there is no word.
func fieldsOf(units []string, quotes, del string) (fields []string, start int, ok bool) {
	open := map[string]bool{}
	word, at := "", -1
	flush := func() {
		if at >= 0 {
			fields = append(fields, word)
			start, ok = at, true
		}
		word, at = "", -1
	}
	for i, u := range units {
		isQuote := utf8.RuneCountInString(u) == 1 && strings.Contains(quotes, u)
		switch {
		case isQuote:
			if at < 0 {
				at = i
			}
			if open[u] {
				delete(open, u)
			} else {
				open[u] = true
			}
		case len(open) == 0 && strings.Contains(wordSpaces, u):
			flush()
		case len(open) == 0 && strings.Contains(del, u):
			flush()
			word, at = u, i
			flush()
		default:
			if at < 0 {
				at = i
			}
			word += u
		}
	}
	flush()
	return
}

func foldPrefix(s, prefix string) bool {
	a, b := []rune(s), []rune(prefix)
	return len(a) >= len(b) && strings.EqualFold(string(a[:len(b)]), prefix)
}

// completed is what completion must do.
type completed struct {
	unchanged bool
	list      []string          // listed by the listing variant
	ok        func(string) bool // judges the new last word
	want      string            // for messages
	fields    []string          // what the source must get
	start     int
}

func completeRef(units []string, s *wordSource, full, base []string, postfix string) completed {
	fields, start, ok := fieldsOf(units, s.quotes, s.del)
	if !ok {
		return completed{unchanged: true}
	}
	if len(base) == 0 {
		base = full
	}
	last := fields[len(fields)-1]
	c := completed{fields: fields, start: start}
	var match, names []string
	for i, f := range full {
		if foldPrefix(f, last) {
			match = append(match, f)
			names = append(names, base[i])
		}
	}
	special := func() bool {
		for _, m := range match {
			if strings.ContainsAny(m, wordSpaces+s.del) {
				return true
			}
		}
		return false
	}
	switch {
	case len(match) == 0:
		c.unchanged = true
	case len(match) == 1:
		if strings.EqualFold(match[0], last) {
			c.unchanged = true
			break
		}
		c.want = match[0] + postfix
		if s.quotes != "" && special() {
			plain := c.want
			c.want = s.quotes[:1] + match[0] + s.quotes[:1] + postfix
			if s.del == "" {
				// without delimiters the only candidate may stay as it is
				c.ok = func(w string) bool { return w == plain || w == c.want }
				return c
			}
		}
		c.ok = func(w string) bool { return w == c.want }
	default:
		p := []rune(match[0])
		for _, m := range match[1:] {
			r := []rune(m)
			n := 0
			for n < len(p) && n < len(r) && strings.EqualFold(string(p[n]), string(r[n])) {
				n++
			}
			p = p[:n]
		}
		common := string(p)
		if strings.EqualFold(common, last) {
			c.unchanged = true
			c.list = names
			break
		}
		q := ""
		if s.quotes != "" && special() {
			q = s.quotes[:1]
		}
		short := match[0]
		for _, m := range match[1:] {
			if len(m) < len(short) {
				short = m
			}
		}
		c.want = q + string([]rune(short)[:len(p)])
		c.ok = func(w string) bool {
			rest, ok := strings.CutPrefix(w, q)
			if !ok || !strings.EqualFold(rest, common) {
				return false
			}
			// the spelling is that of a shortest candidate, in bytes or characters
			nb, nr := len(match[0]), len([]rune(match[0]))
			for _, m := range match {
				nb, nr = min(nb, len(m)), min(nr, len([]rune(m)))
			}
			for _, m := range match {
				if (len(m) == nb || len([]rune(m)) == nr) && strings.HasPrefix(m, rest) {
					return true
				}
			}
			return false
		}
	}
	return c
}

func nonEmpty(a []string) (b []string) {
	for _, s := range a {
		if s != "" {
			b = append(b, s)
		}
	}
	return
}

// judgeCompletion compares one completion key with the reference.
func judgeCompletion(r *drv.Run, s *wordSource, before []string, cur int, postfix string, listing bool, scrRow int) string {
	full, base := s.full, s.base
	if s.dynamic != nil {
		f, _, ok := fieldsOf(before[:cur], s.quotes, s.del)
		if ok {
			full, base = s.dynamic(f)
		}
	}
	c := completeRef(before[:cur], s, full, base, postfix)
	state := sprintf("%+q@%d candidates %+q", strings.Join(before, ""), cur, full)
	for _, g := range s.got {
		if c.fields == nil {
			return sprintf("%s: the candidate source was asked with %+q though there is no word", state, g)
		}
		if !eqs(nonEmpty(g), nonEmpty(c.fields)) || len(g) == 0 || g[len(g)-1] != c.fields[len(c.fields)-1] {
			return sprintf("%s: the candidate source got %+q, should get %+q", state, g, c.fields)
		}
	}
	if c.fields != nil && len(s.got) == 0 {
		return sprintf("%s: the candidate source was not asked", state)
	}
	got, gcur := r.Line(), r.B.Cursor
	after := strings.Join(before[cur:], "")
	if c.unchanged {
		if got != strings.Join(before, "") || gcur != cur {
			return sprintf("%s: the line is now %+q@%d, should stay", state, got, gcur)
		}
	} else {
		head := strings.Join(before[:c.start], "")
		if !strings.HasPrefix(got, head) || !strings.HasSuffix(got, after) || len(got) < len(head)+len(after) {
			return sprintf("%s: the line is now %+q@%d: text around the word changed", state, got, gcur)
		}
		word := got[len(head) : len(got)-len(after)]
		if !c.ok(word) {
			return sprintf("%s: the word is now %+q, should be %+q", state, word, c.want)
		}
		if b := r.B.SubString(0, gcur); b != head+word {
			return sprintf("%s: the cursor is after %+q of %+q", state, b, got)
		}
	}
	// the screen
	row := r.Scr.AbsRow()
	if !listing || c.list == nil {
		if row != scrRow {
			return sprintf("%s: the line moved from row %d to row %d; %s", state, scrRow, row, showScreen(r.Scr))
		}
	} else {
		var shown []string
		for y := scrRow + 1; y < row; y++ {
			if a := r.Scr.RowAbs(y); a != nil {
				shown = append(shown, vt.RowString(a))
			}
		}
		all := strings.Join(shown, " ")
		if m := listed(all, c.list); m != "" {
			return sprintf("%s: %s; %s", state, m, showScreen(r.Scr))
		}
	}
	sc := newScreen(promptOf(r.Cfg), r.Scr.Cols, 6)
	sc.row = row
	if r.Cfg.Predict {
		// the prediction, or as much as fits, may follow
		pred := ""
		for _, h := range r.Cfg.History {
			if rest, ok := strings.CutPrefix(h, got); ok {
				pred = rest
			}
		}
		sc.tail = func(cells []vt.Cell, x int) string {
			if t := vt.RowString(cells[x:]); !strings.HasPrefix(pred, t) {
				return sprintf("%+q is shown after the line, the prediction is %+q", t, pred)
			}
			return ""
		}
	}
	for y := r.Scr.Y + 1; y < r.Scr.Rows; y++ {
		if t := vt.RowString(r.Scr.RowAbs(r.Scr.Scrolled + y)); t != "" {
			return sprintf("%s: something below the line; %s", state, showScreen(r.Scr))
		}
	}
	if _, m := sc.check(r); m != "" {
		return state + ": " + m
	}
	return ""
}

// listed tells what is wrong with the shown list: every name once, and
// nothing else.
func listed(shown string, names []string) string {
	rest := " " + shown + " "
	// longer names first, so that none is taken for a part of another
	left := append([]string{}, names...)
	for len(left) > 0 {
		big := 0
		for i := range left {
			if len(left[i]) > len(left[big]) {
				big = i
			}
		}
		n := left[big]
		left = append(left[:big], left[big+1:]...)
		if strings.TrimSpace(n) == "" {
			continue
		}
		i := strings.Index(rest, " "+n+" ")
		if i < 0 {
			return sprintf("the list %+q does not show %+q", shown, n)
		}
		rest = rest[:i] + "  " + rest[i+2+len(n):]
	}
	if strings.TrimSpace(rest) != "" {
		return sprintf("the list %+q shows more than %+q", shown, names)
	}
	return ""
}

// compCase is one completion key on one line.
type compCase struct {
	Text    string
	Cursor  int
	Full    []string
	Base    bool // the source gives names of their own for the list
	Quotes  string
	Del     string
	Postfix string
	List    bool
	Twice   bool
}

// boxDevice is the terminal that the list is arranged for.
func boxDevice(w int) { tty.Dev = &tty.Device{In: strings.NewReader(""), W: w, H: 25} }

func completionCmd(s *wordSource, postfix string, list bool) readline.Command {
	if list {
		return completion.CmdCompletionOrList{Completion: s, Postfix: postfix}
	}
	return completion.CmdCompletion{Completion: s, Postfix: postfix}
}

func checkCompletion(c compCase) (outcome, sig, msg string) {
	s := &wordSource{quotes: c.Quotes, del: c.Del, full: c.Full}
	if c.Base {
		for i := range c.Full {
			s.base = append(s.base, sprintf("<%d>", i))
		}
	} else if len(c.Text)%2 == 0 {
		s.base = []string{} // means the same as nil
	}
	cfg := &drv.Config{
		Width: 80, Height: 12, Prompt: str("$ "), Default: c.Text, Cursor: c.Cursor,
		Setup: func(ed *readline.Editor) { ed.BindKey(kTab, completionCmd(s, c.Postfix, c.List)) },
	}
	if len(c.Full) > 8 {
		cfg.Height = 10 + 2*len(c.Full)
	}
	boxDevice(80)
	keys := []string{kTab}
	if c.Twice {
		keys = append(keys, kTab)
	}
	keys = append(keys, kEnter)
	var before []string
	cur, row := 0, 0
	r, m := keysRun(cfg, keys, func(i int, r *drv.Run) string {
		mc.Ticks++
		if i > 0 {
			if m := judgeCompletion(r, s, before, cur, c.Postfix, c.List, row); m != "" {
				return m
			}
		}
		before, cur, row = r.Cells(), r.B.Cursor, r.Scr.AbsRow()
		s.got = nil
		return ""
	})
	if r.Panic != "" {
		return "", "panic", r.Panic
	}
	if m != "" {
		return "", "completion", m
	}
	return sprintf("%q %v", r.Text, s.got), "", ""
}

// compOracle is for key sequences.
type compOracle struct {
	s       *wordSource
	postfix string
	list    bool
	before  []string
	cur     int
	row     int
}

func (o *compOracle) observe(r *drv.Run) {
	o.before, o.cur, o.row = r.Cells(), r.B.Cursor, r.Scr.AbsRow()
	o.s.got = nil
}
func (o *compOracle) Start(r *drv.Run) string {
	boxDevice(r.Scr.Cols)
	r.Ed.BindKey(kTab, completionCmd(o.s, o.postfix, o.list))
	o.observe(r)
	return ""
}
func (o *compOracle) Step(r *drv.Run, key string, fresh bool) string {
	m := ""
	if key == kTab {
		if fresh {
			m = judgeCompletion(r, o.s, o.before, o.cur, o.postfix, o.list, o.row)
		}
	} else if len(o.s.got) > 0 {
		m = "the candidate source was asked by another key"
	}
	o.observe(r)
	return m
}
func (o *compOracle) End(r *drv.Run, key string, fresh bool) string { return "" }
func (o *compOracle) Key(r *drv.Run) string                         { return mc.StdKey(r) }

// subsets yields the subsets of pool with up to n elements, in order.
func subsets(pool []string, n int) (out [][]string) {
	var rec func(i int, cur []string)
	rec = func(i int, cur []string) {
		if i == len(pool) {
			out = append(out, append([]string{}, cur...))
			return
		}
		rec(i+1, cur)
		if len(cur) < n {
			rec(i+1, append(cur[:len(cur):len(cur)], pool[i]))
		}
	}
	rec(0, nil)
	return
}

func init() {
	reverse := func(a []string) []string {
		b := make([]string, len(a))
		for i := range a {
			b[len(a)-1-i] = a[i]
		}
		return b
	}
	newO := func(c *mc.KeyCfg) mc.Oracle {
		s := &wordSource{quotes: `"'`, del: "&|><;"}
		s.dynamic = func(f []string) ([]string, []string) {
			if len(f) == 1 {
				return []string{"foo", "foobar", "FOo baz", "b"}, nil
			}
			return []string{"oo", "o b", "fb", "👨‍🌾b"}, []string{"1", "2", "3", "4"}
		}
		return &compOracle{s: s, postfix: " ", list: strings.HasPrefix(c.Name, "or-list")}
	}
	mc.Register(&mc.Prop{
		ID:   "C11",
		Rule: "an execution is one ReadLine with one or more completion keys; after each one the line, the cursor, the screen, the list and what the candidate source was asked are compared with the reference; states are distinct outcomes or (line, cursor, scroll, screen) per job",
		Assumptions: []string{
			"each kind of quotation mark toggles by itself; text is outside of quotes when every kind was seen an even number of times",
			"after spaces, the word before them is the one that is completed",
			"when several candidates share a beginning only the opening quotation mark is put; a source without delimiters may leave its only candidate unquoted",
			"the names in the list are printable",
		},
		Worlds: []*mc.World{
			runeCases("words and candidates", func(s string) (out []compCase) {
				if !shownRune(s) {
					return nil
				}
				for _, x := range []compCase{
					{Text: "p", Full: []string{"p" + s + "1", "p" + s + "2"}},
					{Text: "p" + s, Full: []string{"p" + strings.ToUpper(s) + "1", "p" + strings.ToLower(s) + "12"}},
					{Text: s, Full: []string{s + "x"}},
					{Text: "a" + s + "b", Full: []string{"b" + s}},
					{Text: `"a` + s, Full: []string{"a" + s + "b", "a" + s + " b"}},
				} {
					x.Cursor, x.Quotes, x.Del, x.Postfix, x.List = 99, `"'`, "&|><;", " ", true
					out = append(out, x)
				}
				return
			}, checkCompletion),
			(&mc.CaseWorld[compCase]{
				Name: "lines", Shards: 24, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all lines of up to %d of 7 characters, all cursors, 13 candidate sets, both variants", tierN(tier, 4, 5))
				},
				Cases: func(tier string, yield func(compCase) bool) {
					sets := [][]string{{}, {"ab"}, {"a b"}, {"ab", "aBc"}, {"a b", "a >"}, {"Aa", "aA", "aあ"}, {"b", "a"}, {">a", ">b"}, {">ab"}, {"ab", "ab"}, {"あa b"}, {"あbx", "あBy"}, {"a", "aa", "aab"}}
					for _, t := range allTexts([]string{"a", "b", " ", `"`, "'", ">", "あ"}, tierN(tier, 4, 5)) {
						n := len(newLine(t, 0).u)
						for cur := 0; cur <= n; cur++ {
							for i, f := range sets {
								for _, l := range []bool{false, true} {
									if !yield(compCase{Text: t, Cursor: cur, Full: f, Quotes: `"'`, Del: "&|><;", Postfix: " ", List: l, Base: i%2 == 1, Twice: true}) {
										return
									}
								}
							}
						}
					}
				},
				Check: checkCompletion,
			}).World(),
			(&mc.CaseWorld[compCase]{
				Name: "candidates", Shards: 24, Weight: 9,
				BoundTxt: func(tier string) string {
					return "all sets of up to 3 (thorough 4) of 14 candidates in both orders, 14 words, 5 settings"
				},
				Cases: func(tier string, yield func(compCase) bool) {
					pool := []string{"", "a", "A", "ab", "aB", "abc", "a b", "a>b", "あ", "あいK", "あいk", "ⱥx", "Ⱥy", `a"`}
					type set struct{ q, d, p string }
					settings := []set{{`"'`, "&|><;", " "}, {"", "", ""}, {`'"`, "", "-"}, {"", ">", " "}, {`"`, ",", "あ"}}
					for _, f := range subsets(pool, tierN(tier, 3, 4)) {
						for _, order := range [][]string{f, reverse(f)} {
							if len(f) < 2 && len(order) > 0 && len(f) > 0 && &order[0] != &f[0] {
								continue
							}
							for _, t := range []string{"", "a", "A", "ab", `"a`, `"`, `"a `, "x a", "あ", "あい", "ⱥ", "Ⱥ", "a>", "k"} {
								for i, s := range settings {
									c := compCase{Text: t, Cursor: len(newLine(t, 0).u), Full: order, Quotes: s.q, Del: s.d, Postfix: s.p, List: i%2 == 0, Twice: true}
									if !yield(c) {
										return
									}
								}
							}
						}
					}
				},
				Check: checkCompletion,
			}).World(),
			(&mc.CaseWorld[compCase]{
				Name: "many", Shards: 24, Weight: 9,
				BoundTxt: func(tier string) string {
					return "2 to 40 candidates with a long shared beginning, one of 9 different ones at every place among them (130 and 300: at the ends and in the middle), 6 words, both variants"
				},
				Cases: func(tier string, yield func(compCase) bool) {
					for _, n := range []int{2, 3, 8, 17, 40, 130, 300} {
						for odd := 0; odd < n; odd++ {
							if n > 40 && odd > 0 && odd != n/2 && odd < n-1 {
								continue
							}
							for _, o := range []string{"abcdefgh", "abcd", "ABCdefgh-x", "abc efgh", "abcdeあ", "xyz", "", "abcdefgh-00>", "aBCDEfghijklmnopqrstuvwxyz0123456789" + strings.Repeat("あ", 18)} {
								full := make([]string, n)
								for i := range full {
									full[i] = sprintf("abcdefgh-%02d", i)
								}
								full[odd] = o
								for i, t := range []string{"", "ab", "abcdefgh-", "abcdefgh-1", "ABCDE", `c "a`} {
									if !yield(compCase{Text: t, Cursor: 99, Full: full, Quotes: `"'`, Del: "&|><;", Postfix: " ", List: (i+odd)%2 == 0, Twice: true}) {
										return
									}
								}
							}
						}
					}
				},
				Check: checkCompletion,
			}).World(),
			(&mc.CaseWorld[compCase]{
				Name: "words", Shards: 24, Weight: 9,
				BoundTxt: func(tier string) string {
					return "lines of up to 3 runs of 1, 2 or 12 of 8 kinds of words (plain, quoted, delimiters, wide), 4 candidate sets, cursor at every word end"
				},
				Cases: func(tier string, yield func(compCase) bool) {
					words := []string{"foo ", `"x y" `, "'a\"b' ", "p>", "あい ", "\t", `a"b c"d `, " "}
					var lines func(cur string, left int) bool
					lines = func(cur string, left int) bool {
						for _, last := range []string{"", "a", `"a b`} {
							t := cur + last
							for i, f := range [][]string{{"abc"}, {"a bc", "a bd"}, {}, {"Abc", "abd", "x"}} {
								if !yield(compCase{Text: t, Cursor: 999, Full: f, Quotes: `"'`, Del: "&|><;", Postfix: " ", List: i%2 == 0}) {
									return false
								}
							}
						}
						if left == 0 {
							return true
						}
						for _, w := range words {
							for _, n := range []int{1, 2, 12} {
								if !lines(cur+strings.Repeat(w, n), left-1) {
									return false
								}
							}
						}
						return true
					}
					lines("", 3)
				},
				Check: checkCompletion,
			}).World(),
			(&mc.CaseWorld[compCase]{
				Name: "folding", Shards: 8, Weight: 5,
				BoundTxt: func(tier string) string {
					return "all pairs and triples of letters that are equal ignoring case but special (theta, sigma, Kelvin, long s, sharp s, Angstrom, dotless i), typed or not"
				},
				Cases: func(tier string, yield func(compCase) bool) {
					ls := []string{"θ", "Θ", "ϑ", "ϴ", "k", "K", "K", "s", "S", "ſ", "ß", "ẞ", "å", "Å", "Å", "σ", "ς", "Σ", "i", "I", "İ", "ı", "ⱥ", "Ⱥ"}
					for _, t := range ls {
						for _, a := range ls {
							for _, b := range ls {
								for _, tail := range []string{"", "x"} {
									if !yield(compCase{Text: t, Cursor: 1, Full: []string{a + "x", b + tail}, Quotes: `"'`, Del: ">", Postfix: " ", List: true}) {
										return
									}
								}
							}
						}
					}
				},
				Check: checkCompletion,
			}).World(),
			(&mc.KeyWorld{
				Name: "keys", Shards: 16, Weight: 9, Profiles: []string{"plain", "wt"},
				Configs: func(tier string) []mc.KeyCfg {
					return []mc.KeyCfg{{Name: "or-list", Cfg: &drv.Config{Width: 80, Height: 60, Prompt: str("$ ")}}, {Name: "plain", Cfg: &drv.Config{Width: 80, Height: 8, Prompt: str("$ "), Default: "👨‍🌾 f", Cursor: 99}}}
				},
				Keys: keyset("f", "b", "o", " ", `"`, ">", kTab, kB, kA, kE, kH, kK, kZ), Depth: depth(5, 6),
				New: newO,
			}).World(),
			(&mc.KeyWorld{
				Name: "settings", Shards: 32, Weight: 9,
				Configs: func(tier string) []mc.KeyCfg {
					var cs []mc.KeyCfg
					for _, w := range []int{12, 17, 30, 120} {
						for _, p := range []string{"", "longer>"} {
							for i := 0; i < 4; i++ {
								c := &drv.Config{
									Width: w, Height: 40, Prompt: str(p), Default: "a \"b\" c\td f", Cursor: 99, Predict: i&1 != 0,
									History: []string{"h", "a \"b\" c\td foobar baz", "foo"}, Cycling: i&1 == 0,
								}
								cs = append(cs, mc.KeyCfg{Name: sprintf("%s %d %q %d", []string{"or-list", "plain"}[i/2], w, p, i), Cfg: c})
							}
						}
					}
					return cs
				},
				Keys: keyset("f", "b", " ", "漢", kTab, kB, kA, kE, kH, kK, kZ, kP, kL), Depth: depth(3, 4), New: newO,
			}).World(),
		},
	})
}
