package props

import (
	"strings"

	"verifh/mc"
)

func scripts(n int, ops string, ok func(s string) bool, yield func(s string) bool) {
	var rec func(s string) bool
	rec = func(s string) bool {
		if !ok(s) {
			return true
		}
		if !yield(s) {
			return false
		}
		if len(s) == n {
			return true
		}
		for _, o := range ops {
			if !rec(s + string(o)) {
				return false
			}
		}
		return true
	}
	rec("")
}

// validTtyScript keeps scripts that open a closed terminal only, and in which
// something happens between.
func validTtyScript(s string) bool {
	open := false
	for _, o := range s {
		switch o {
		case 'o', 'x':
			if open {
				return false
			}
			open = o == 'o'
		case 'c':
			open = false
		}
	}
	// a script starts with an operation on the terminal or a change
	return !strings.HasPrefix(s, "s") && !strings.HasPrefix(s, "h") && !strings.HasPrefix(s, "l")
}

func init() {
	mk := func(name, kind, ops string, depth map[string]int, text string) *mc.World {
		return (&mc.CaseWorld[C23Case]{
			Name: name, Bin: "conc", Shards: 16,
			BoundTxt: func(tier string) string { return sprintf(text, depth[tier]) },
			Cases: func(tier string, yield func(C23Case) bool) {
				scripts(depth[tier], ops, validTtyScript, func(s string) bool {
					if !strings.Contains(s, "o") && !strings.Contains(s, "x") && s != "c" && s != "cc" {
						return true
					}
					b := 2
					if tier == "thorough" {
						b = 3
					}
					return yield(C23Case{kind, s, b})
				})
			},
			Check: func(c C23Case) (string, string, string) { return C23Check(c) },
		}).World()
	}
	mc.Register(&mc.Prop{
		ID:   "C23",
		Rule: "every script up to a bound of opening, closing, waiting, changing the size and failing to get it, under every schedule (bounded preemptions) of the terminal's own goroutine, with time under the control of the check",
		Assumptions: []string{
			"When several cases of a select are ready the Go runtime chooses at random; every schedule is run four times, which does not make the choice exhaustive.",
			"Regularly means at least once in ten seconds.",
			"A change of size that arrives while the default terminal is still reporting another one is dropped by the package below it, as the real one does.",
		},
		Worlds: []*mc.World{
			mk("polling terminal", "poll", "ocshlwfg", map[string]int{"quick": 6, "thorough": 7},
				"all scripts of up to %d of: open, close, wait 1, 0.5 or 10 seconds, change the width, let the size fail, let it succeed; 2 preemptions (thorough: 3)"),
			mk("default terminal", "default", "ox123cf", map[string]int{"quick": 6, "thorough": 7},
				"all scripts of up to %d of: open, open without size, three sizes, close, let the report take its time; 2 preemptions (thorough: 3)"),
		},
	})
}
