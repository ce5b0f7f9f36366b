package props

import (
	"strings"
	"unicode/utf8"

	readline "github.com/nyaosorg/go-readline-ny"

	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
)

// controls lists the control characters and escape sequences in raw terminal
// output. Positions are dropped; what erases, colours or switches is kept.
func controls(b []byte) (out []string) {
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c == 0x1B:
			j := i + 1
			if j < len(b) && b[j] == '[' {
				j++
				for j < len(b) && b[j] >= 0x20 && b[j] < 0x40 {
					j++
				}
				if j < len(b) {
					j++
				}
				s := string(b[i:j])
				if n := len(s); n > 2 && (s[n-1] == 'G' || s[n-1] == 'C' || s[n-1] == 'D') {
					s = "\x1B[#" + s[n-1:]
				}
				out = append(out, s)
			} else {
				_, n := utf8.DecodeRune(b[j:])
				j += n
				out = append(out, string(b[i:j]))
			}
			i = j
		case c < 0x20 || c == 0x7F:
			out = append(out, string(rune(c)))
			i++
		default:
			r, n := utf8.DecodeRune(b[i:])
			if r == utf8.RuneError && n == 1 || r >= 0x80 && r < 0xA0 {
				out = append(out, string(b[i:i+n]))
			}
			i += n
		}
	}
	return
}

// way is a way by which text reaches the terminal.
type way struct {
	name string
	run  func(text string, width int) []byte // raw output
}

func rawOf(cfg *drv.Config, keys []string) []byte {
	cfg.KeepRaw = true
	cfg.Prompt = str("$ ")
	r, _ := keysRun(cfg, append(keys, kEnter), func(int, *drv.Run) string { return "" })
	if r.Panic != "" {
		panic(r.Panic)
	}
	return append([]byte{}, r.Scr.Raw...)
}

func quotedKeys(s string) (keys []string) {
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		keys = append(keys, kV, s[:n])
		s = s[n:]
	}
	return
}

// shuffle moves over and redraws the line in all the ways there are.
var shuffle = []string{kA, kF, kF, kB, kE, kT, kB, kT, kMb, kMf, kL, kH, kZ, kZ}

var ways = []way{
	{"initial text", func(s string, w int) []byte { return rawOf(&drv.Config{Width: w, Default: s}, shuffle) }},
	{"quoted insert", func(s string, w int) []byte { return rawOf(&drv.Config{Width: w}, quotedKeys(s)) }},
	{"paste", func(s string, w int) []byte { return rawOf(&drv.Config{Width: w, Clip: s}, []string{kY, kB, kMy}) }},
	{"one key", func(s string, w int) []byte { return rawOf(&drv.Config{Width: w}, []string{kV, s, kB}) }},
	{"history", func(s string, w int) []byte {
		return rawOf(&drv.Config{Width: w, History: []string{"a", s}}, []string{kP, kB, kP, kN})
	}},
	{"search", func(s string, w int) []byte {
		return rawOf(&drv.Config{Width: w, History: []string{"a", s, "b"}}, []string{kR, kR, kS, kR, kEnter})
	}},
	{"search text", func(s string, w int) []byte {
		keys := []string{kR}
		for _, c := range s {
			if c == '\r' || c == 0x1B || c == 3 || c == 7 || c == '\b' || c == 0x7F {
				c = 1 // would end or change the search
			}
			keys = append(keys, string(c))
		}
		return rawOf(&drv.Config{Width: w, History: []string{"x"}}, append(keys, kG))
	}},
	{"prediction", func(s string, w int) []byte {
		return rawOf(&drv.Config{Width: w, Predict: true, Predictor: func(*readline.Buffer) string { return s }}, []string{"a", kH, "b", kF})
	}},
}

// injectCase is a text entered in one way.
type injectCase struct {
	Way   int
	Width int
	S     string
}

type baseKey struct {
	way, width, n int
	shape         string
}

var baselines = map[baseKey]map[string]int{}

// baseline is what the editor sends of its own accord for harmless texts of
// the same length.
func baseline(wayNo, width int, us []ref.Unit) map[string]int {
	// characters which the library places by saving the cursor
	shape := ""
	for _, u := range us {
		if u.Kind == ref.Flag || u.Kind == ref.Seq {
			shape += "F"
		} else {
			shape += "."
		}
	}
	k := baseKey{wayNo, width, len(us), shape}
	if m, ok := baselines[k]; ok {
		return m
	}
	m := map[string]int{}
	for _, fill := range []string{"a", "あ", "　", " "} {
		s := ""
		for _, c := range shape {
			if c == 'F' {
				s += "🏳"
			} else {
				s += fill
			}
		}
		cnt := map[string]int{}
		for _, t := range controls(ways[wayNo].run(s, width)) {
			cnt[t]++
		}
		for t, n := range cnt {
			if n > m[t] {
				m[t] = n
			}
		}
	}
	if strings.Contains(shape, "F") {
		m["\x1B7"]++
		m["\x1B8"]++
		m["\b"]++
	}
	baselines[k] = m
	return m
}

func checkInject(c injectCase) (out, sig, msg string) {
	us := ref.Current.Units(strings.ToValidUTF8(c.S, "�"))
	if n := ways[c.Way].name; n != "initial text" && n != "history" && strings.ContainsAny(c.S, "\ufe0f\U0001f3ff\u200d") {
		// may form a sequence with what is before it
		us = append(us, ref.Current.Units("🏳️")...)
	}
	base := baseline(c.Way, c.Width, us)
	raw := ways[c.Way].run(c.S, c.Width)
	mc.Ticks++
	cnt := map[string]int{}
	for _, t := range controls(raw) {
		cnt[t]++
		n, ok := base[t]
		if !ok {
			return "", "inject", sprintf("%s %+q: the terminal receives %+q, which is not the editor's own", ways[c.Way].name, c.S, t)
		}
		if len(t) == 1 && t != "\b" && cnt[t] > n {
			return "", "inject", sprintf("%s %+q: the terminal receives %+q more often than with harmless text (%d times)", ways[c.Way].name, c.S, t, n)
		}
		if t == "\b" && !strings.Contains(shapeOf(us), "F") {
			return "", "inject", sprintf("%s %+q: the terminal receives backspaces", ways[c.Way].name, c.S)
		}
	}
	return sprintf("%d %v", c.Way, cnt), "", ""
}

func shapeOf(us []ref.Unit) (s string) {
	for _, u := range us {
		if u.Kind == ref.Flag || u.Kind == ref.Seq {
			s += "F"
		}
	}
	return
}

var hostile = []string{"a", "\x1B", "[", "J", "7", "\a", "\b", "\r", "\n", "\x00", "\x0e", "\x7f", "\u0085", "\u009b", "\xff", "\x9b", "\t", "‍", "️", "\U0001f3ff", "‮", "́", " "}

func injectCases(alphabet []string, quick, thorough int, widths []int) func(string, func(injectCase) bool) {
	return func(tier string, yield func(injectCase) bool) {
		for _, s := range allTexts(alphabet, tierN(tier, quick, thorough)) {
			for w := range ways {
				for _, width := range widths {
					if !yield(injectCase{w, width, s}) {
						return
					}
				}
			}
		}
	}
}

func init() {
	bound := func(a []string, quick, thorough int, widths []int) func(string) string {
		return func(tier string) string {
			return sprintf("all strings of <=%d of %d characters, in %d ways, widths %v", tierN(tier, quick, thorough), len(a), len(ways), widths)
		}
	}
	core := []string{"a", "\x1B", "[", "2", "J", "\x01", "\u009b", "‍", "️", "\U0001f3ff", "\x7f", "\t"}
	mc.Register(&mc.Prop{
		ID:          "C10",
		Rule:        "a case is one text entered in one way under one terminal kind; the control characters and sequences received by the terminal are compared with those for harmless text; states are distinct sets of them; transitions are whole inputs",
		Assumptions: []string{"what the editor sends for harmless text of the same length is its own", "characters are wider than zero columns unless the width table says otherwise"},
		Worlds: []*mc.World{
			(&mc.CaseWorld[injectCase]{
				Name: "hostile", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: bound(hostile, 2, 3, []int{200}), Cases: injectCases(hostile, 2, 3, []int{200}), Check: checkInject,
			}).World(),
			(&mc.CaseWorld[injectCase]{
				Name: "longer", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt"},
				BoundTxt: bound(core, 3, 4, []int{200}), Cases: injectCases(core, 3, 4, []int{200}), Check: checkInject,
			}).World(),
			(&mc.CaseWorld[injectCase]{
				Name: "runs", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt"},
				BoundTxt: func(string) string {
					return sprintf("all strings of <=2 runs of one of %d characters repeated 1 or 30 times, in %d ways, widths 30, 200", len(hostile), len(ways))
				},
				Cases: func(tier string, yield func(injectCase) bool) {
					var rs []string
					for _, h := range hostile {
						rs = append(rs, h, strings.Repeat(h, 30))
					}
					injectCases(rs, 2, 2, []int{30, 200})(tier, yield)
				}, Check: checkInject,
			}).World(),
			(&mc.CaseWorld[injectCase]{
				Name: "narrow", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt"},
				BoundTxt: bound(hostile, 2, 3, []int{7, 12, 19}), Cases: injectCases(hostile, 2, 3, []int{7, 12, 19}), Check: checkInject,
			}).World(),
			(&mc.CaseWorld[injectCase]{
				Name: "other-table", Bin: "vhx", Shards: 8, Weight: 9, Profiles: []string{"plain", "wt"},
				BoundTxt: bound(hostile, 2, 3, []int{200}), Cases: injectCases(hostile, 2, 3, []int{200}), Check: checkInject,
			}).World(),
			(&mc.CaseWorld[runeCase]{
				Name: "code-points", Shards: 8, Weight: 9, Profiles: allProfiles,
				BoundTxt: func(string) string { return "every Unicode code point as initial text" },
				Cases: func(tier string, yield func(runeCase) bool) {
					for c := rune(0); c <= 0x10FFFF; c++ {
						if (c < 0xD800 || c >= 0xE000) && !yield(runeCase{c}) {
							return
						}
					}
				},
				Check: func(c runeCase) (out, sig, msg string) {
					var b strings.Builder
					for _, m := range readline.StringToMoji(string(c.R)) {
						m.PrintTo(&b)
					}
					mc.Ticks++
					flag := false
					for _, u := range ref.Current.Units(string(c.R)) {
						flag = flag || u.Kind == ref.Flag
					}
					for _, t := range controls([]byte(b.String())) {
						if !flag || t != "\b" && t != "\x1B7" && t != "\x1B8" {
							return "", "inject", sprintf("%U is printed as %+q", c.R, b.String())
						}
					}
					return "ok", "", ""
				},
			}).World(),
		},
	})
}
