package props

import (
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
	"verifh/vt"
)

// runeClasses has one character of every class that the editor tells apart.
var runeClasses = []string{
	"a", " ", "あ", "\t", "\x01", "\x7f", "\u0085",
	"́",      // combining
	"‍", "‌", // joiner, non-joiner
	"️", "\U000e0100", // variation selectors
	"⃣", // enclosing
	"\U0001f468", "\U0001f3ff", "\U0001f1ef", "\U0001d400", "\U0001f3f3",
	"─", "α", "�",
}

// coreClasses are those that can become part of sequences.
var coreClasses = []string{"a", "あ", "\t", "\x01", "́", "‍", "️", "\U0001f468", "\U0001f3ff", "\U0001f3f3"}

var allProfiles = []string{"plain", "wt", "wezterm", "contour", "vscode"}

// strCase is a string of a class alphabet.
type strCase struct {
	S string
}

func strCases(alphabet []string, quick, thorough int) func(string, func(strCase) bool) {
	return func(tier string, yield func(strCase) bool) {
		stop := false
		texts(alphabet, tierN(tier, quick, thorough), func(s string) {
			if !stop && !yield(strCase{s}) {
				stop = true
			}
		})
	}
}

func strBound(what string, alphabet []string, quick, thorough int) func(string) string {
	return func(tier string) string {
		return sprintf("%s: all strings of <=%d characters of %d classes", what, tierN(tier, quick, thorough), len(alphabet))
	}
}

// runCases are the strings of up to three runs, each one character repeated.
func runCases(alphabet []string, counts ...int) (func(string, func(strCase) bool), func(string) string) {
	var rs []string
	for _, c := range alphabet {
		for _, n := range counts {
			rs = append(rs, strings.Repeat(c, n))
		}
	}
	return strCases(rs, 3, 3), func(string) string {
		return sprintf("all strings of <=3 runs of one of %d characters repeated %v times", len(alphabet), counts)
	}
}

func mojiTexts(ms []readline.Moji) (out []string) {
	for _, m := range ms {
		var b strings.Builder
		m.WriteTo(&b)
		out = append(out, b.String())
	}
	return
}

func unitTexts(us []ref.Unit) (out []string) {
	for _, u := range us {
		out = append(out, u.Text)
	}
	return
}

func eqs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// checkSegments compares the division into characters with the reference.
func checkSegments(c strCase) (out, sig, msg string) {
	mc.Ticks++
	got := mojiTexts(readline.StringToMoji(c.S))
	if all := strings.Join(got, ""); all != c.S {
		return "", "changed", sprintf("%+q is written back as %+q", c.S, all)
	}
	want := unitTexts(ref.Current.Units(c.S))
	if !eqs(got, want) {
		return "", "division", sprintf("%+q divides into %+q, should be %+q", c.S, got, want)
	}
	if n := readline.MojiCountInString(c.S); n != len(want) {
		return "", "count", sprintf("%+q has %d characters, %d are counted", c.S, len(want), n)
	}
	return sprintf("%q", got), "", ""
}

// keysRun runs ReadLine with fixed keys and shows the run before each key.
func keysRun(cfg *drv.Config, keys []string, see func(i int, r *drv.Run) string) (r *drv.Run, msg string) {
	i := 0
	r = drv.Exec(cfg, func(r *drv.Run) (string, error) {
		mc.Ticks++
		if msg = see(i, r); msg != "" || i >= len(keys) {
			return "", drv.ErrStop
		}
		i++
		return keys[i-1], nil
	})
	if msg == "" && r.Panic != "" {
		msg = "panic: " + r.Panic
	}
	return
}

// checkThrough puts a string on the line in every way and takes it away again.
func checkThrough(c strCase) (out, sig, msg string) {
	us := unitTexts(ref.Current.Units(c.S))
	n := len(us)
	fail := func(how, m string) (string, string, string) {
		return "", how, sprintf("%+q %s: %s", c.S, how, m)
	}
	// initial text, deleted from the end
	keys := []string{kE}
	for range us {
		keys = append(keys, kH)
	}
	var obs strings.Builder
	_, m := keysRun(&drv.Config{Width: 300, Prompt: str("$ "), Default: c.S}, keys, func(i int, r *drv.Run) string {
		left := n
		if i > 1 {
			left = n - (i - 1)
		}
		if got, want := r.Line(), strings.Join(us[:left], ""); got != want {
			return sprintf("after deleting %d characters backwards it is %+q, should be %+q", n-left, got, want)
		}
		obs.WriteString(r.Line() + "|")
		return ""
	})
	if m != "" {
		return fail("as initial text", m)
	}
	// from the history, deleted from the start
	if c.S != "" {
		keys = []string{kP, kA}
		for range us {
			keys = append(keys, kDel)
		}
		_, m = keysRun(&drv.Config{Width: 300, Prompt: str("$ "), History: []string{c.S}}, keys, func(i int, r *drv.Run) string {
			gone := 0
			if i > 2 {
				gone = i - 2
			}
			if i == 0 {
				return ""
			}
			if got, want := r.Line(), strings.Join(us[gone:], ""); got != want {
				return sprintf("after deleting %d characters it is %+q, should be %+q", gone, got, want)
			}
			return ""
		})
		if m != "" {
			return fail("from the history", m)
		}
	}
	// pasted, moved through, accepted
	want := strings.TrimRight(c.S, "\r\n\x00")
	keys = []string{kY}
	for range us {
		keys = append(keys, kB)
	}
	for range us {
		keys = append(keys, kF)
	}
	keys = append(keys, "x", kEnter)
	r, m := keysRun(&drv.Config{Width: 300, Prompt: str("$ "), Clip: c.S}, keys, func(i int, r *drv.Run) string {
		cur := -1
		switch {
		case i == 0:
			return ""
		case i <= n+1:
			cur = n - (i - 1)
		case i <= 2*n+1:
			cur = i - n - 1
		}
		if cur >= 0 && r.B.Cursor != cur {
			return sprintf("the cursor is %d, should be %d of %d", r.B.Cursor, cur, n)
		}
		return ""
	})
	if m == "" && (r.Text != want+"x" || r.Err != nil) {
		m = sprintf("ReadLine returned %+q %v", r.Text, r.Err)
	}
	if m != "" {
		return fail("as pasted text", m)
	}
	return obs.String(), "", ""
}

// checkWidths compares every way to tell how wide a string is.
func checkWidths(c strCase) (out, sig, msg string) {
	mc.Ticks++
	us := ref.Current.Units(c.S)
	want := ref.Cols(us)[len(us)]
	if got := int(readline.GetStringWidth(c.S)); got != want {
		return "", "width", sprintf("the width of %+q is reported as %d, should be %d", c.S, got, want)
	}
	ms := readline.StringToMoji(c.S)
	sum := 0
	for _, m := range ms {
		sum += int(m.Width())
	}
	if sum != want {
		return "", "sum", sprintf("the characters of %+q have a width of %d, the string %d", c.S, sum, want)
	}
	if n := readline.MojiCountInString(c.S); n != len(ms) {
		return "", "count", sprintf("%+q divides into %d characters, %d are counted", c.S, len(ms), n)
	}
	// How wide a terminal shows a regional indicator after a joiner is not known.
	if ref.Current.ZWJWidth == nil && !strings.Contains(c.S, "\u200d\U0001f1ef") {
		columns := 120
		if want > 110 {
			columns = 2 * want
		}
		scr := drv.Screen(columns, 2)
		for _, m := range ms {
			m.PrintTo(scr)
		}
		if scr.X != want || scr.Y != 0 || len(scr.Anomalies) > 0 || scr.Bells > 0 {
			return "", "print", sprintf("printing %+q moves the terminal cursor to column %d of row %d, its width is %d %v", c.S, scr.X, scr.Y, want, scr.Anomalies)
		}
		// and it looks as it should
		cols := ref.Cols(us)
		row := scr.Row()
		for i, u := range us {
			for k, cell := range look(u, cols[i+1]-cols[i]) {
				if u.Kind == ref.Seq && k > 0 {
					break // sequences may be laid out in several ways
				}
				if !same(row[cols[i]+k], cell) {
					return "", "look", sprintf("%+q is printed as %+q", c.S, vt.RowString(row))
				}
			}
		}
	}
	return sprintf("%d %d", want, len(ms)), "", ""
}

// checkEvery puts a code point on the line in every way, before and after a
// letter.
func checkEvery(c runeCase) (out, sig, msg string) {
	for _, s := range []string{string(c.R) + "a", "a" + string(c.R)} {
		var r *drv.Run
		end := func(how, want string) (string, string, string) {
			return "", how, sprintf("%+q %s: ReadLine returned %+q %v, should be %+q", s, how, r.Text, r.Err, want)
		}
		quiet := func(int, *drv.Run) string { return "" }
		if r, msg = keysRun(&drv.Config{Width: 80, Prompt: str("$ "), Default: s}, []string{kEnter}, quiet); msg != "" || r.Text != s {
			return end("as initial text", s)
		}
		if r, msg = keysRun(&drv.Config{Width: 80, Prompt: str("$ "), History: []string{s}}, []string{kP, kEnter}, quiet); msg != "" || r.Text != s {
			return end("from the history", s)
		}
		want := strings.TrimRight(s, "\r\n\x00")
		if r, msg = keysRun(&drv.Config{Width: 80, Prompt: str("$ "), Clip: s}, []string{kY, kEnter}, quiet); msg != "" || r.Text != want {
			return end("as pasted text", want)
		}
		if c.R >= ' ' && c.R != 0x7f {
			var keys []string
			for _, k := range s {
				keys = append(keys, string(k))
			}
			if r, msg = keysRun(&drv.Config{Width: 80, Prompt: str("$ ")}, append(keys, kEnter), quiet); msg != "" || r.Text != s {
				return end("typed", s)
			}
		}
	}
	return
}

func everyRune(tier string, yield func(runeCase) bool) {
	for c := rune(0); c <= 0x10FFFF; c++ {
		if (c < 0xD800 || c >= 0xE000) && !yield(runeCase{c}) {
			return
		}
	}
}

func init() {
	runsCases, runsBound := runCases(runeClasses, 1, 2, 15)
	coreCases, coreBound := runCases(coreClasses, 1, 2, 15)
	mc.Register(&mc.Prop{
		ID:          "C08",
		Rule:        "a case is one string under one terminal kind; states are distinct divisions or sequences of line contents; transitions are library calls or keys",
		Assumptions: []string{"text is valid UTF-8", "the reference division is the documented one: base, joiner, selectors, skin tone"},
		Worlds: []*mc.World{
			(&mc.CaseWorld[strCase]{
				Name: "division", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: strBound("division", runeClasses, 4, 4), Cases: strCases(runeClasses, 4, 4), Check: checkSegments,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "division-long", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: strBound("division", coreClasses, 5, 6), Cases: strCases(coreClasses, 5, 6), Check: checkSegments,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "through", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: strBound("through the editor", runeClasses, 3, 4), Cases: strCases(runeClasses, 3, 4), Check: checkThrough,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "division-runs", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: runsBound, Cases: runsCases, Check: checkSegments,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "through-runs", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt", "contour"},
				BoundTxt: coreBound, Cases: coreCases, Check: checkThrough,
			}).World(),
			(&mc.CaseWorld[runeCase]{
				Name: "code-points", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt"},
				BoundTxt: func(string) string {
					return "division: every Unicode code point, alone, after and before a character, after and before a joiner"
				},
				Cases: everyRune,
				Check: func(c runeCase) (out, sig, msg string) {
					r := string(c.R)
					for _, s := range []string{r, "a" + r, "\U0001f468" + r + "b", "a\u200d" + r, r + "\u200d\U0001f468"} {
						if _, sig, msg = checkSegments(strCase{s}); msg != "" {
							return
						}
					}
					return
				},
			}).World(),
			(&mc.CaseWorld[runeCase]{
				Name: "every-through", Shards: 8, Weight: 9, Profiles: []string{"wt"},
				BoundTxt: func(string) string {
					return "through the editor: every Unicode code point, first and second on the line, typed, pasted, as initial text and from the history"
				},
				Cases: everyRune, Check: checkEvery,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "through-x", Bin: "vhx", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt"},
				BoundTxt: strBound("through the editor, other width table", coreClasses, 3, 4), Cases: strCases(coreClasses, 3, 4), Check: checkThrough,
			}).World(),
		},
	})
	mc.Register(&mc.Prop{
		ID:          "C09",
		Rule:        "a case is one string, or one sequence of measuring, overriding and resetting, under one terminal kind; states are distinct results; transitions are measurements",
		Assumptions: []string{"the terminal gives each character the width that the library's width table gives it, and a joiner the column of the default formula"},
		Worlds: []*mc.World{
			(&mc.CaseWorld[strCase]{
				Name: "widths", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: strBound("widths", runeClasses, 3, 4), Cases: strCases(runeClasses, 3, 4), Check: checkWidths,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "widths-long", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: strBound("widths", coreClasses, 4, 6), Cases: strCases(coreClasses, 4, 6), Check: checkWidths,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "widths-runs", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: coreBound, Cases: coreCases, Check: checkWidths,
			}).World(),
			(&mc.CaseWorld[strCase]{
				Name: "widths-x", Bin: "vhx", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt"},
				BoundTxt: strBound("widths, other width table", runeClasses, 3, 4), Cases: strCases(runeClasses, 3, 4), Check: checkWidths,
			}).World(),
			(&mc.CaseWorld[runeCase]{
				Name: "code-points", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: func(string) string { return "every Unicode code point, alone and between two letters" },
				Cases:    everyRune,
				Check: func(c runeCase) (out, sig, msg string) {
					if out, sig, msg = checkWidths(strCase{string(c.R)}); msg == "" {
						_, sig, msg = checkWidths(strCase{"a" + string(c.R) + "\tb"})
					}
					return
				},
			}).World(),
			(&mc.CaseWorld[overCase]{
				Name: "overrides", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: func(tier string) string {
					return sprintf("all sequences of %d of %d operations, all strings of <=2 of 7 characters measured before and after each", tierN(tier, 3, 4), len(overOps))
				},
				Cases: overCases, Check: checkOver,
			}).World(),
		},
	})
}

type runeCase struct {
	R rune
}

// overCase is a sequence of indices into overOps.
type overCase struct {
	Ops []int
	// Touch: measure all strings in between as well
	Touch bool
}

type overOp struct {
	name string
	impl func()
	ref  func(p *ref.Profile)
}

func setOp(r rune, w int) overOp {
	return overOp{sprintf("SetCharWidth(%U,%d)", r, w), func() { readline.SetCharWidth(r, w) }, func(p *ref.Profile) {
		if p.Override == nil {
			p.Override = map[rune]int{}
		}
		p.Override[r] = w
	}}
}

func zwjOp(name string, f func(a, b int) int) overOp {
	return overOp{"SetZWJSWidthGetter " + name, func() { readline.SetZWJSWidthGetter(f) }, func(p *ref.Profile) { p.ZWJWidth = f }}
}

var overOps = []overOp{
	{"ResetCharWidth", readline.ResetCharWidth, func(p *ref.Profile) { p.Override = nil }},
	setOp('α', 1), setOp('α', 2), setOp('a', 2), setOp('a', 0), setOp('あ', 0), setOp('́', 1), setOp('\U0001f468', 1), setOp('\U0001f468', 2),
	{"EnableSurrogatePair(true)", func() { readline.EnableSurrogatePair(true) }, func(p *ref.Profile) { p.SP = true }},
	{"EnableSurrogatePair(false)", func() { readline.EnableSurrogatePair(false) }, func(p *ref.Profile) { p.SP = false }},
	zwjOp("max", func(a, b int) int {
		if a > b {
			return a
		}
		return b
	}),
	zwjOp("default", func(a, b int) int { return a + 1 + b }),
}

func overCases(tier string, yield func(overCase) bool) {
	n := tierN(tier, 3, 4)
	var rec func(ops []int) bool
	rec = func(ops []int) bool {
		for _, t := range []bool{true, false} {
			if len(ops) > 0 && !yield(overCase{append([]int{}, ops...), t}) {
				return false
			}
		}
		if len(ops) == n {
			return true
		}
		for i := range overOps {
			if !rec(append(ops, i)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

var overTexts = allTexts([]string{"a", "α", "́", "\U0001f468", "‍", "\t", "あ"}, 2)

func checkOver(c overCase) (out, sig, msg string) {
	// a private copy of the reference; the library's state is put back after
	saved := *ref.Current
	sp := readline.IsSurrogatePairEnabled()
	defer func() {
		*ref.Current = saved
		readline.ResetCharWidth()
		readline.EnableSurrogatePair(sp)
		readline.SetZWJSWidthGetter(func(a, b int) int { return a + 1 + b })
	}()
	readline.ResetCharWidth()
	var names []string
	var obs strings.Builder
	for i, op := range c.Ops {
		overOps[op].impl()
		overOps[op].ref(ref.Current)
		names = append(names, overOps[op].name)
		if readline.IsSurrogatePairEnabled() != ref.Current.SP {
			return "", "sp", "IsSurrogatePairEnabled is wrong after " + strings.Join(names, ", ")
		}
		if !c.Touch && i < len(c.Ops)-1 {
			continue
		}
		for _, t := range append(overTexts, "\U0001f468‍\U0001f468a", "a\U0001f468‍\U0001f468\ta") {
			o, sig, m := checkWidths(strCase{t})
			if m != "" {
				return "", sig, "after " + strings.Join(names, ", ") + ": " + m
			}
			obs.WriteString(o)
		}
	}
	return obs.String(), "", ""
}
