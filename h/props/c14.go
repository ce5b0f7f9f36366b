package props

import (
	"context"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/nameutils"

	"verifh/drv"
	"verifh/mc"
)

// spellings are the ways to write a name.
func spellings(n string) []string {
	mixed := []byte(n)
	for i := range mixed {
		if i%2 == 0 {
			mixed[i] = strings.ToLower(n)[i]
		}
	}
	var out []string
	for _, s := range []string{n, strings.ToLower(n), string(mixed)} {
		out = append(out, s, strings.ReplaceAll(s, "_", "-"), strings.Replace(s, "_", "-", 1))
	}
	return out
}

type nameCase struct {
	Kind string // key, command, symbol, new, press, default
	A, B string
}

func markCmd(name string, log *[]string) readline.Command {
	return readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
		*log = append(*log, name)
		return readline.CONTINUE
	})
}

// sameCommand tells whether two commands are the same; functions cannot be
// compared, so a bound mark is run instead.
func isMark(c readline.Command, name string, log *[]string) bool {
	if _, ok := c.(readline.AnonymousCommand); !ok {
		return false
	}
	*log = nil
	c.Call(context.Background(), nil)
	return len(*log) == 1 && (*log)[0] == name
}

func universe() []string {
	u := []string{}
	seen := map[string]bool{}
	for _, k := range keyTable {
		if !seen[k.code] {
			seen[k.code] = true
			u = append(u, k.code)
		}
	}
	return append(u, "a", "A", "\x1B[Z", "\x00", "あ", "")
}

func codeOf(name string) (string, bool) {
	n := strings.ReplaceAll(strings.ToUpper(name), "-", "_")
	for _, k := range keyTable {
		if k.name == n {
			return k.code, true
		}
	}
	return "", false
}

func commandOf(name string) (readline.Command, bool) {
	n := strings.ReplaceAll(strings.ToUpper(name), "-", "_")
	for _, c := range commandTable {
		if c.name == n {
			return c.cmd, true
		}
	}
	return nil, false
}

func checkName(c nameCase) (outcome, sig, msg string) {
	mc.Ticks++
	fail := func(f string, a ...any) (string, string, string) {
		return "", "name", sprintf("%s %q %q: ", c.Kind, c.A, c.B) + sprintf(f, a...)
	}
	var log []string
	var km readline.KeyMap
	other := markCmd("other", &log)
	for _, u := range universe() {
		km.BindKey(keys.Code(u), other)
	}
	// only is the check that at most the key code was rebound.
	only := func(code string, is func(readline.Command) bool) string {
		for _, u := range universe() {
			got, ok := km.Lookup(keys.Code(u))
			switch {
			case !ok:
				return sprintf("the key %+q is unbound", u)
			case u == code && is != nil:
				if !is(got) {
					return sprintf("the key %+q runs something else", u)
				}
			case !isMark(got, "other", &log):
				return sprintf("the key %+q was rebound", u)
			}
		}
		return ""
	}
	switch c.Kind {
	case "key":
		code, known := codeOf(c.A)
		err := nameutils.BindKeyFunc(&km, c.A, markCmd("mine", &log))
		if known != (err == nil) {
			return fail("the error is %v", err)
		}
		is := func(g readline.Command) bool { return isMark(g, "mine", &log) }
		if !known {
			is = nil
		}
		if m := only(code, is); m != "" {
			return fail("%s", m)
		}
	case "command":
		want, known := commandOf(c.A)
		got, err := nameutils.GetFunc(c.A)
		if known != (err == nil) {
			return fail("the error is %v", err)
		}
		if known && got != want {
			return fail("it is the command %v", got)
		}
		if known && got.String() != strings.ReplaceAll(strings.ToUpper(c.A), "-", "_") {
			return fail("the command calls itself %v", got)
		}
	case "symbol":
		code, k1 := codeOf(c.A)
		want, k2 := commandOf(c.B)
		err := nameutils.BindKeySymbol(&km, c.A, c.B)
		if (k1 && k2) != (err == nil) {
			return fail("the error is %v", err)
		}
		is := func(g readline.Command) bool { return g == want }
		if err != nil {
			is = nil
		}
		if m := only(code, is); m != "" {
			return fail("%s", m)
		}
	case "new":
		// a command of the application's, named A and asked for as B
		old, had := readline.NameToFunc[c.A]
		ran := 0
		cmd := readline.NewGoCommand(c.A, func(context.Context, *readline.Buffer) readline.Result {
			ran++
			return readline.ABORT
		})
		defer func() {
			delete(readline.NameToFunc, c.A)
			if had {
				readline.NameToFunc[c.A] = old
			}
		}()
		if cmd.String() != c.A {
			return fail("the command calls itself %v", cmd)
		}
		got, err := nameutils.GetFunc(c.B)
		if err != nil {
			return fail("the error is %v", err)
		}
		if got.Call(context.Background(), nil) != readline.ABORT || ran != 1 {
			return fail("it is the command %v", got)
		}
		for _, t := range commandTable {
			if f, err := nameutils.GetFunc(t.name); t.name != c.A && (err != nil || f != t.cmd) {
				return fail("the command %s is now %v", t.name, f)
			}
		}
		if err := nameutils.BindKeySymbol(&km, "c-x", c.B); err != nil {
			return fail("binding it: %v", err)
		}
		if m := only("\x18", func(g readline.Command) bool { return g == readline.Command(cmd) }); m != "" {
			return fail("%s", m)
		}
	case "press":
		// the key, bound under its name in the map B, pressed
		code, _ := codeOf(c.A)
		cfg := &drv.Config{Width: 80, Prompt: str("$ "), Default: "q", Cursor: 1, History: []string{"h"}}
		mark := markCmd("mine", &log)
		cfg.Setup = func(ed *readline.Editor) {
			if c.B == "own" {
				nameutils.BindKeyFunc(&ed.KeyMap, c.A, mark)
			}
		}
		if c.B == "global" {
			old, had := readline.GlobalKeyMap.Lookup(keys.Code(code))
			nameutils.BindKeyFunc(readline.GlobalKeyMap, c.A, mark)
			defer func() {
				readline.GlobalKeyMap.BindKey(keys.Code(code), nil)
				if had {
					readline.GlobalKeyMap.BindKey(keys.Code(code), old)
				}
			}()
		}
		log = nil
		i := 0
		r := drv.Exec(cfg, func(r *drv.Run) (string, error) {
			mc.Ticks++
			if i++; i <= 2 {
				return code, nil
			}
			return "", drv.ErrStop
		})
		if r.Panic != "" || len(log) != 2 || r.Line() != "q" {
			return fail("pressed twice it ran %v, line %+q %s", log, r.Line(), r.Panic)
		}
	case "default":
		want := readline.Command(nil)
		for _, d := range defaultTable {
			if d.code == c.A {
				want = d.cmd
			}
		}
		got, ok := readline.GlobalKeyMap.Lookup(keys.Code(c.A))
		if ok != (want != nil) || ok && got != want {
			return fail("the key is bound to %v", got)
		}
		l := (&readline.Editor{}).LookupCommand(c.A)
		if want != nil && l != want {
			return fail("the key runs %v", l)
		}
		if si, ok := l.(readline.SelfInserter); want == nil && (!ok || string(si) != c.A) {
			return fail("the key runs %v", l)
		}
	}
	return c.Kind + c.A + c.B, "", ""
}

// bindOp is one change of a binding. Map: 0 global, 1 and 2 the editors.
type bindOp struct {
	Map  int
	Key  string
	Bind bool
}

type bindCase struct {
	Ops    []bindOp
	Inside bool // the changes are made by a command during the input
}

const opKey = "\x1B[[verif-op"

func checkBind(c bindCase) (outcome, sig, msg string) {
	var log []string
	type saved struct {
		cmd readline.Command
		ok  bool
	}
	old := map[string]saved{}
	for _, o := range c.Ops {
		if o.Map == 0 {
			if _, done := old[o.Key]; !done {
				cmd, ok := readline.GlobalKeyMap.Lookup(keys.Code(o.Key))
				old[o.Key] = saved{cmd, ok}
			}
		}
	}
	defer func() {
		for k, s := range old {
			if s.ok {
				readline.GlobalKeyMap.BindKey(keys.Code(k), s.cmd)
			} else {
				readline.GlobalKeyMap.BindKey(keys.Code(k), nil)
			}
		}
	}()
	bound := map[int]map[string]string{0: {}, 1: {}, 2: {}}
	removed := map[string]bool{} // default bindings that were removed
	apply := func(eds [3]*readline.Editor) {
		for i, o := range c.Ops {
			var cmd readline.Command
			if o.Bind {
				n := sprintf("c%d", i)
				cmd = markCmd(n, &log)
				bound[o.Map][o.Key] = n
			} else {
				delete(bound[o.Map], o.Key)
				if o.Map == 0 {
					removed[o.Key] = true
				}
			}
			if o.Map == 0 {
				readline.GlobalKeyMap.BindKey(keys.Code(o.Key), cmd)
			} else {
				eds[o.Map].BindKey(keys.Code(o.Key), cmd)
			}
		}
	}
	pressed := []string{"x", kA, "\x18", "y", kE}
	var eds [3]*readline.Editor
	mk := func() *drv.Config {
		return &drv.Config{Width: 80, Prompt: str("$ "), Default: "q", Cursor: 1, History: []string{"h"}}
	}
	cfgs := [3]*drv.Config{nil, mk(), mk()}
	eds[1], eds[2] = &readline.Editor{}, &readline.Editor{}
	if !c.Inside {
		apply(eds)
	}
	var out strings.Builder
	for e := 1; e <= 2; e++ {
		cfg := cfgs[e]
		km := eds[e].KeyMap
		cfg.Setup = func(ed *readline.Editor) {
			if !c.Inside {
				for _, k := range pressed {
					if f, ok := km.Lookup(keys.Code(k)); ok {
						ed.BindKey(keys.Code(k), f)
					}
				}
			}
			if c.Inside && e == 1 {
				ed.BindKey(opKey, readline.AnonymousCommand(func(context.Context, *readline.Buffer) readline.Result {
					apply([3]*readline.Editor{nil, ed, eds[2]})
					return readline.CONTINUE
				}))
			}
			if c.Inside && e == 2 {
				ed.KeyMap = eds[2].KeyMap
				ed.BindKey(drv.ProbeKey, nil)
			}
		}
		if c.Inside && e == 2 {
			cfg.NoProbe = true
		}
		seq := append([]string{}, pressed...)
		if c.Inside && e == 1 {
			seq = append([]string{opKey}, seq...)
		}
		seq = append(seq, kEnter)
		log = nil
		r, _ := keysRun(cfg, seq, func(int, *drv.Run) string { mc.Ticks++; return "" })
		if r.Panic != "" {
			return "", "panic", r.Panic
		}
		// the reference
		var want []string
		l := newLine("q", 1)
		for _, k := range pressed {
			n, ok := bound[e][k]
			if !ok {
				n, ok = bound[0][k]
			}
			switch {
			case ok:
				want = append(want, n)
			case (k == kA || k == kE) && !removed[k]:
				l.edit(k)
			default:
				l.insert(k)
			}
		}
		if !eqs(log, want) {
			return "", "binding", sprintf("editor %d: the keys ran %v, should run %v (%+v)", e, log, want, c)
		}
		if r.Text != l.text() || r.Err != nil {
			return "", "binding", sprintf("editor %d: the line is %+q, should be %+q (%+v)", e, r.Text, l.text(), c)
		}
		out.WriteString(sprintf("%v %q ", log, r.Text))
	}
	return out.String(), "", ""
}

func init() {
	mc.Register(&mc.Prop{
		ID:   "C14",
		Rule: "an execution is one name resolved and bound, or one sequence of binding changes followed by pressing every key on both editors; states are distinct outcomes",
		Assumptions: []string{
			"the documented names, codes and default bindings are those of the harness's tables",
		},
		Worlds: []*mc.World{
			(&mc.CaseWorld[nameCase]{
				Name: "names", Shards: 8, Weight: 5,
				BoundTxt: func(string) string {
					return sprintf("all %d key names and %d command names in 9 spellings and with every single character left out, doubled or changed; every name with every command; all one and two character keys by default; new commands; every named key bound and pressed", len(keyTable), len(commandTable))
				},
				Cases: func(tier string, yield func(nameCase) bool) {
					for _, k := range keyTable {
						for _, s := range spellings(k.name) {
							if !yield(nameCase{"key", s, ""}) || !yield(nameCase{"symbol", s, "yank"}) || !yield(nameCase{"symbol", s, "yak"}) {
								return
							}
						}
						for _, c := range commandTable {
							if !yield(nameCase{"symbol", k.name, c.name}) {
								return
							}
						}
					}
					for _, c := range commandTable {
						for _, s := range spellings(c.name) {
							if !yield(nameCase{"command", s, ""}) || !yield(nameCase{"symbol", "c-x", s}) || !yield(nameCase{"symbol", "c-xx", s}) {
								return
							}
						}
					}
					near := func(kind, n string) bool {
						for i := 0; i <= len(n); i++ {
							for _, ins := range []string{"", "_", "X", " "} {
								if !yield(nameCase{kind, n[:i] + ins + n[i:], ""}) {
									return false
								}
								if i < len(n) && !yield(nameCase{kind, n[:i] + ins + n[i+1:], ""}) {
									return false
								}
							}
						}
						return true
					}
					for _, k := range keyTable {
						if !near("key", k.name) || !near("command", k.name) {
							return
						}
					}
					for _, c := range commandTable {
						if !near("command", c.name) || !near("key", c.name) {
							return
						}
					}
					for _, s := range []string{"", "-", "C", "C-", "^A", "a", "\x01"} {
						if !yield(nameCase{"key", s, ""}) || !yield(nameCase{"command", s, ""}) {
							return
						}
					}
					for _, n := range []string{"MY_COMMAND", "X", "YANK", "UNDO", "C_A", "A_B_C_9"} {
						for _, s := range spellings(n) {
							if !yield(nameCase{"new", n, s}) {
								return
							}
						}
					}
					for _, k := range keyTable {
						if !yield(nameCase{"press", k.name, "own"}) || !yield(nameCase{"press", k.name, "global"}) {
							return
						}
					}
					for a := 0; a < 0x180; a++ {
						if !yield(nameCase{"default", string(rune(a)), ""}) || !yield(nameCase{"default", "\x1B" + string(rune(a)), ""}) {
							return
						}
					}
					for _, k := range keyTable {
						if !yield(nameCase{"default", k.code, ""}) {
							return
						}
					}
				},
				Check: checkName,
			}).World(),
			(&mc.CaseWorld[bindCase]{
				Name: "bindings", Shards: 16, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all sequences of up to %d bindings and removals of 3 keys in 2 editors and globally, before or during the input", tierN(tier, 4, 5))
				},
				Cases: func(tier string, yield func(bindCase) bool) {
					var ops []bindOp
					for m := 0; m < 3; m++ {
						for _, k := range []string{"x", kA, "\x18"} {
							ops = append(ops, bindOp{m, k, true}, bindOp{m, k, false})
						}
					}
					var rec func(cur []bindOp, left int) bool
					rec = func(cur []bindOp, left int) bool {
						if !yield(bindCase{Ops: cur}) || !yield(bindCase{Ops: cur, Inside: true}) {
							return false
						}
						if left == 0 {
							return true
						}
						for _, o := range ops {
							if !rec(append(cur[:len(cur):len(cur)], o), left-1) {
								return false
							}
						}
						return true
					}
					rec(nil, tierN(tier, 4, 5))
				},
				Check: checkBind,
			}).World(),
		},
	})
}
