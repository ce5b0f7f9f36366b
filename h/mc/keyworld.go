package mc

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"verifh/drv"
)

// Oracle judges one run. A new one is made for every run.
type Oracle interface {
	// Start is called when the editor waits for its first key.
	Start(r *drv.Run) string
	// Step is called when the editor waits again after it got key.
	Step(r *drv.Run, key string, fresh bool) string
	// End is called after ReadLine returned because of key.
	End(r *drv.Run, key string, fresh bool) string
	// Key canonically describes the state, for deduplication and counting.
	Key(r *drv.Run) string
}

// Base is an Oracle that accepts everything.
type Base struct{}

// Start implements Oracle.
func (Base) Start(*drv.Run) string { return "" }

// Step implements Oracle.
func (Base) Step(*drv.Run, string, bool) string { return "" }

// End implements Oracle.
func (Base) End(*drv.Run, string, bool) string { return "" }

// Key implements Oracle.
func (Base) Key(r *drv.Run) string { return StdKey(r) }

// StdKey is what the user can see of the editor plus its scroll position.
func StdKey(r *drv.Run) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %d %d|", r.Line(), r.B.Cursor, r.B.ViewStart)
	for _, c := range r.Scr.Row() {
		if c.R > 0 {
			b.WriteRune(c.R)
			b.WriteString(c.Comb)
		} else {
			b.WriteByte('_')
		}
	}
	fmt.Fprintf(&b, "|%d,%d", r.Scr.X, r.Scr.Y)
	return b.String()
}

// KeyCfg is one starting point of a key world.
type KeyCfg struct {
	Name string
	Cfg  *drv.Config
	Data any      // for the oracle
	Pre  []string // keys sent before those of the sequence
}

// KeyWorld enumerates key sequences from a set of starting points.
type KeyWorld struct {
	Name     string
	Profiles []string
	Shards   int
	Weight   int
	Thorough bool
	Configs  func(tier string) []KeyCfg
	Keys     func(c *KeyCfg) []string
	Depth    func(tier string) int
	Dedupe   bool // explicit-state search: expand each state (Oracle.Key) once
	Records  int  // how much of the undo record and the like makes up a state
	MaxKeys  func(tier string) int
	New      func(c *KeyCfg) Oracle
	Tail     []string // keys that end the run, default Enter
	// Prune, when set, tells that the sequences starting with this one are
	// outside the bound.
	Prune func(c *KeyCfg, r *drv.Run) bool
	// Counts, when set, makes each element of a sequence a run: a key pressed
	// so many times. Every key of a run is judged.
	Counts func(tier string) []int
}

const runMark = "\x00run:"

// expand writes out the runs of a sequence; from is where its last element
// starts.
func expand(seq []string) (keys []string, from int) {
	plain := true
	for _, k := range seq {
		if strings.HasPrefix(k, runMark) {
			plain = false
			break
		}
	}
	if plain {
		return seq, len(seq) - 1
	}
	for _, k := range seq {
		from = len(keys)
		if !strings.HasPrefix(k, runMark) {
			keys = append(keys, k)
			continue
		}
		n, key, _ := strings.Cut(k[len(runMark):], ":")
		c, _ := strconv.Atoi(n)
		for ; c > 0; c-- {
			keys = append(keys, key)
		}
	}
	return keys, from
}

// alphabet are the elements that sequences consist of.
func (w *KeyWorld) alphabet(c *KeyCfg, tier string) []string {
	keys := w.Keys(c)
	if w.Counts == nil {
		return keys
	}
	var out []string
	for _, k := range keys {
		for _, n := range w.Counts(tier) {
			if n == 1 {
				out = append(out, k)
			} else {
				out = append(out, fmt.Sprintf("%s%d:%s", runMark, n, k))
			}
		}
	}
	return out
}

// KeyTrace is a counterexample of a key world.
type KeyTrace struct {
	Config string
	Keys   []string
}

type keyNode struct {
	ended  bool
	dead   bool
	key    string
	prune  bool
	judged int64
}

func (w *KeyWorld) tail() []string {
	if len(w.Tail) > 0 {
		return w.Tail
	}
	return []string{"\r", "\r", "\r"}
}

// exec runs keys and judges the last of them. check: judge every step.
func (w *KeyWorld) exec(c *KeyCfg, keys []string, check bool) (n keyNode, sig, msg string, run *drv.Run) {
	o := w.New(c)
	keys, from := expand(keys)
	if len(c.Pre) > 0 {
		keys = append(append([]string{}, c.Pre...), keys...)
		from += len(c.Pre)
	}
	i := -1 // keys consumed so far; -1: before the first wait
	last := ""
	tail := w.tail()
	t := 0
	feed := func(r *drv.Run) (string, error) {
		if i < 0 {
			i = 0
			if m := o.Start(r); m != "" && (check || len(keys) == 0) {
				msg = "at start: " + m
				return "", drv.ErrStop
			}
		} else {
			fresh := check || i > from
			if fresh {
				n.judged++
			}
			if m := o.Step(r, last, fresh); m != "" {
				msg = fmt.Sprintf("after %s: %s", Show(last), m)
				return "", drv.ErrStop
			}
		}
		if i == len(keys) && t == 0 && n.key == "" {
			n.key = w.key(o, r)
			if w.Prune != nil {
				n.prune = w.Prune(c, r)
			}
		}
		for i < len(keys) {
			last = keys[i]
			i++
			cols, ok := ResizeOf(last)
			if !ok {
				return last, nil
			}
			r.SetWidth(cols)
			fresh := check || i > from
			if fresh {
				n.judged++
			}
			if m := o.Step(r, last, fresh); m != "" {
				msg = fmt.Sprintf("after %s: %s", Show(last), m)
				return "", drv.ErrStop
			}
			if i == len(keys) {
				n.key = w.key(o, r)
				if w.Prune != nil {
					n.prune = w.Prune(c, r)
				}
			}
		}
		if t < len(tail) {
			last = tail[t]
			t++
			return last, nil
		}
		return "", drv.ErrStop
	}
	run = drv.Exec(c.Cfg, feed)
	switch {
	case msg != "":
		return n, "step", msg, run
	case run.Panic != "":
		return n, "panic", fmt.Sprintf("after %s: panic: %s", Show(last), run.Panic), run
	case run.Err == drv.ErrRunaway:
		return n, "runaway", "keys are read for ever", run
	case run.Err == drv.ErrStop:
		return n, "noend", "the line does not end with " + ShowAll(tail), run
	}
	n.ended = t == 0 // ended by a key of the sequence itself
	if n.ended && i <= from {
		n.dead = true // an earlier key ended it: duplicates a shorter sequence
		return n, "", "", run
	}
	n.judged++
	if m := o.End(run, last, true); m != "" {
		return n, "end", fmt.Sprintf("at the end (%s): %s", Show(last), m), run
	}
	return n, "", "", run
}

// Resize is the pseudo key that changes the terminal width.
func Resize(w int) string { return fmt.Sprintf("\x00resize:%d", w) }

// ResizeOf is the inverse of Resize.
func ResizeOf(key string) (w int, ok bool) {
	if !strings.HasPrefix(key, "\x00resize:") {
		return 0, false
	}
	fmt.Sscanf(key[8:], "%d", &w)
	return w, true
}

func (w *KeyWorld) key(o Oracle, r *drv.Run) string {
	if w.Dedupe {
		return o.Key(r) + "|" + Inside(r, w.Records)
	}
	return o.Key(r)
}

// World turns the key world into a World.
func (w *KeyWorld) World() *World {
	return &World{
		Name: w.Name, Profiles: w.Profiles, Shards: w.Shards, Weight: w.Weight, Thorough: w.Thorough,
		Bound: func(tier string) string {
			cs := w.Configs(tier)
			nk := 0
			if len(cs) > 0 {
				nk = len(w.Keys(&cs[0]))
			}
			mode := "all sequences"
			if w.Dedupe {
				mode = "all states reachable by sequences"
			}
			if w.Counts != nil {
				return fmt.Sprintf("%s of <=%d runs of one of %d keys pressed %s times, from %d starting points", mode, w.Depth(tier), nk, strings.Trim(strings.ReplaceAll(fmt.Sprint(w.Counts(tier)), " ", "/"), "[]"), len(cs))
			}
			return fmt.Sprintf("%s of <=%d keys over an alphabet of %d, from %d starting points", mode, w.Depth(tier), nk, len(cs))
		},
		Run:    w.run,
		Replay: w.replay,
	}
}

func (w *KeyWorld) replay(j *Job, trace json.RawMessage) []Viol {
	var t KeyTrace
	if err := json.Unmarshal(trace, &t); err != nil {
		return nil
	}
	for _, tier := range []string{"quick", "thorough"} {
		for _, c := range w.Configs(tier) {
			if c.Name != t.Config {
				continue
			}
			c := c
			Note(t)
			_, sig, msg, _ := w.exec(&c, t.Keys, true)
			if msg == "" {
				return nil
			}
			r := &Result{}
			r.Add(j, sig, msg, t)
			return r.Viols
		}
	}
	return nil
}

func (w *KeyWorld) run(j *Job, r *Result) {
	depth := w.Depth(j.Tier)
	total := 0
	for _, c := range w.Configs(j.Tier) {
		c := c
		keys := w.alphabet(&c, j.Tier)
		if w.Dedupe {
			// shard by configuration
			total++
			if (total-1)%j.Shards != j.Shard {
				continue
			}
			if w.bfs(j, r, &c, keys, depth) {
				return
			}
			continue
		}
		seen := map[uint64]struct{}{}
		if w.dfs(j, r, &c, keys, nil, depth, seen, &total) {
			r.States += int64(len(seen))
			return
		}
		r.States += int64(len(seen))
	}
}

func (w *KeyWorld) judge(j *Job, r *Result, c *KeyCfg, seq []string) (keyNode, bool) {
	Note(KeyTrace{c.Name, seq})
	n, sig, msg, run := w.exec(c, seq, false)
	if n.dead {
		return n, false
	}
	r.Execs++
	r.Transitions += n.judged
	r.Steps += int64(run.Gets)
	if msg != "" {
		cp := append([]string{}, seq...)
		return n, r.Add(j, sig, msg+"\n  config "+c.Name+", keys "+ShowAll(cp), KeyTrace{c.Name, cp})
	}
	if r.Execs%4999 == 17 {
		r.Sample("%s: %s -> %q", c.Name, ShowAll(seq), run.Text)
	}
	return n, false
}

func (w *KeyWorld) dfs(j *Job, r *Result, c *KeyCfg, keys, prefix []string, depth int, seen map[uint64]struct{}, count *int) bool {
	if j.Expired() {
		r.Exhaustive = false
		return true
	}
	mine := true
	if j.Shards > 1 {
		// the shard is decided by the first two keys, or for shorter
		// prefixes by the starting point
		level := min(2, w.Depth(j.Tier))
		switch {
		case len(prefix) < level:
			mine = int(Hash(c.Name)%uint64(j.Shards)) == j.Shard
		case len(prefix) == level:
			*count++
			if *count%j.Shards != j.Shard {
				return false
			}
		}
	}
	expand := len(prefix) < depth
	if mine {
		nv := len(r.Viols)
		n, stop := w.judge(j, r, c, prefix)
		if stop {
			return true
		}
		if n.ended || n.prune || len(r.Viols) > nv {
			expand = false
		}
		if n.key != "" {
			seen[Hash(n.key)] = struct{}{}
		}
	}
	if !expand {
		return false
	}
	for _, k := range keys {
		next := append(append(make([]string, 0, len(prefix)+1), prefix...), k)
		if w.dfs(j, r, c, keys, next, depth, seen, count) {
			return true
		}
	}
	return false
}

func (w *KeyWorld) bfs(j *Job, r *Result, c *KeyCfg, keys []string, depth int) bool {
	seen := map[uint64]struct{}{}
	defer func() { r.States += int64(len(seen)) }()
	n, stop := w.judge(j, r, c, nil)
	if stop {
		return true
	}
	seen[Hash(n.key)] = struct{}{}
	frontier := [][]string{nil}
	if n.prune || len(r.Viols) > 0 {
		return false
	}
	for d := 0; d < depth && len(frontier) > 0; d++ {
		var next [][]string
		for _, h := range frontier {
			if j.Expired() {
				r.Exhaustive = false
				return true
			}
			for _, k := range keys {
				seq := append(append(make([]string, 0, len(h)+1), h...), k)
				nv := len(r.Viols)
				n, stop := w.judge(j, r, c, seq)
				if stop {
					return true
				}
				if n.ended || n.dead || len(r.Viols) > nv {
					continue
				}
				key := Hash(n.key)
				if _, ok := seen[key]; ok {
					continue
				}
				seen[key] = struct{}{}
				if !n.prune {
					next = append(next, seq)
				}
			}
		}
		frontier = next
	}
	return false
}

var keyNames = map[string]string{
	"\r": "Enter", "\x03": "^C", "\x04": "^D", "\x01": "^A", "\x02": "^B", "\x05": "^E", "\x06": "^F",
	"\b": "^H", "\x7F": "BS", "\v": "^K", "\f": "^L", "\x0E": "^N", "\x10": "^P", "\x11": "^Q", "\x12": "^R", "\x13": "^S",
	"\x14": "^T", "\x15": "^U", "\x16": "^V", "\x17": "^W", "\x19": "^Y", "\x1A": "^Z", "\x1F": "^_", "\x07": "^G",
	"\x1B": "ESC", "\x1B[D": "Left", "\x1B[C": "Right", "\x1B[A": "Up", "\x1B[B": "Down", "\x1B[H": "Home",
	"\x1B[F": "End", "\x1B[3~": "Del", "\x1Bb": "M-b", "\x1Bf": "M-f", "\x1Bv": "M-v", "\x1By": "M-y", "\t": "Tab",
	"\x1B[1;5D": "C-Left", "\x1B[1;5C": "C-Right", " ": "Space",
}

// Show writes a key for humans.
func Show(k string) string {
	if strings.HasPrefix(k, runMark) {
		n, key, _ := strings.Cut(k[len(runMark):], ":")
		return Show(key) + "*" + n
	}
	if w, ok := ResizeOf(k); ok {
		return fmt.Sprintf("<resize %d>", w)
	}
	if n, ok := keyNames[k]; ok {
		return n
	}
	return fmt.Sprintf("%+q", k)
}

// ShowAll writes a sequence of keys.
func ShowAll(ks []string) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, k := range ks {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(Show(k))
	}
	b.WriteByte(']')
	return b.String()
}

// Script runs one key sequence, judging every key of it.
func (w *KeyWorld) Script(c *KeyCfg, keys []string) (outcome, sig, msg string) {
	n, sig, msg, _ := w.exec(c, keys, true)
	Ticks += n.judged
	return n.key, sig, msg
}
