package props

import (
	"verifh/drv"
	"verifh/mc"
	"verifh/ref"
)

// scriptRunes are all code points in the thorough tier. In the quick tier the
// insides of the large uniform blocks and of the planes without emoji are left
// out.
func scriptRunes(tier string, yield func(rune) bool) {
	for c := rune(1); c <= 0x10FFFF; c++ {
		if c >= 0xD800 && c < 0xE000 {
			continue
		}
		if tier != "thorough" {
			switch {
			case c > 0x3400 && c < 0x4DBF, c > 0x4E00 && c < 0x9FFF, c > 0xAC00 && c < 0xD7A3, c > 0xE000 && c < 0xF8FF,
				c > 0x10000 && c < 0x1EFFF, c > 0x1FB00 && c < 0x1FFFF, c > 0x20000 && c < 0xE0000, c > 0xE01EF && c < 0x10FFFF:
				continue
			}
		}
		if !yield(c) {
			return
		}
	}
}

// plainRune tells that a code point neither joins its neighbours nor is a key.
func plainRune(s string) bool {
	return s != "\u200D" && len(ref.Current.Units("a"+s+s+"b")) == 4 && s >= " " && s != "\x7F"
}

// shownRune tells that the terminal shows a code point by itself, as wide as
// the editor takes it to be.
func shownRune(s string) bool {
	w := len(lastLine(s))
	return w > 0 && plainRune(s) && ref.Current.Units(s)[0].W == w
}

// script is a starting point with the keys pressed from it.
type script struct {
	cfg  mc.KeyCfg
	keys []string
}

// runesWorld runs scripts made from every code point.
func runesWorld(newO func(*mc.KeyCfg) mc.Oracle, scripts func(s string) []script) *mc.World {
	w := &mc.KeyWorld{New: newO}
	return (&mc.CaseWorld[runeCase]{
		Name: "code-points", Shards: 32, Weight: 9,
		BoundTxt: func(tier string) string {
			return sprintf("%d scripts with every code point%s put in, typed, moved over and removed", len(scripts("x")), map[bool]string{true: "", false: " (without the insides of the ideograph, Hangul and private blocks and of planes without emoji)"}[tier == "thorough"])
		},
		Cases: func(tier string, yield func(runeCase) bool) {
			scriptRunes(tier, func(r rune) bool { return yield(runeCase{r}) })
		},
		Check: func(c runeCase) (outcome, sig, msg string) {
			for i, s := range scripts(string(c.R)) {
				s.cfg.Name += sprintf("script %d", i)
				if outcome, sig, msg = w.Script(&s.cfg, s.keys); msg != "" {
					return outcome, sig, sprintf("U+%04X: %s", c.R, msg)
				}
			}
			return
		},
	}).World()
}

// editScripts put a code point on the line, type it and edit around it.
func editScripts(width int, f func(c *drv.Config)) func(s string) []script {
	return func(s string) []script {
		if !plainRune(s) {
			return nil
		}
		mk := func(def string, keys ...string) script {
			c := &drv.Config{Width: width, Prompt: str("$ "), Default: def, Cursor: 99, Clip: s + "c", History: []string{"h" + s, s}}
			if f != nil {
				f(c)
			}
			return script{mc.KeyCfg{Cfg: c}, keys}
		}
		return []script{
			mk("x"+s+" y"+s+s+"z", kE, kMb, kMb, kMf, kMf, kE, kW, kA, kF, kF, kT, kH, kDel, kE, kH, kB, kK),
			mk("", "a", s, kB, s, kMb, kE, s, " ", s, kB, kT, kE, kW, kW),
		}
	}
}

// runeCases runs the cases made from every code point.
func runeCases[C any](what string, cases func(s string) []C, check func(C) (outcome, sig, msg string)) *mc.World {
	return (&mc.CaseWorld[runeCase]{
		Name: "code-points", Shards: 32, Weight: 9,
		BoundTxt: func(tier string) string {
			return what + " with every code point" + map[bool]string{true: "", false: " (without the insides of the ideograph, Hangul and private blocks and of planes without emoji)"}[tier == "thorough"]
		},
		Cases: func(tier string, yield func(runeCase) bool) {
			scriptRunes(tier, func(r rune) bool { return yield(runeCase{r}) })
		},
		Check: func(c runeCase) (outcome, sig, msg string) {
			for _, x := range cases(string(c.R)) {
				if outcome, sig, msg = check(x); msg != "" {
					return outcome, sig, sprintf("U+%04X: %s", c.R, msg)
				}
			}
			return
		},
	}).World()
}
