package props

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/completion"

	"verifh/drv"
	"verifh/mc"
)

// entry is a file of a small tree. Kind: f file, d directory, l link, p pipe.
type entry struct {
	Kind byte
	Name string
	Sub  []entry
	To   string
}

func (e entry) isDir() bool { return e.Kind == 'd' }

func f(n string) entry                 { return entry{Kind: 'f', Name: n} }
func dir(n string, sub ...entry) entry { return entry{Kind: 'd', Name: n, Sub: sub} }
func link(n, to string) entry          { return entry{Kind: 'l', Name: n, To: to} }

// entryPool are the files that trees are made of.
var entryPool = []entry{
	f("a"), f("A"), f("ab"), f("Abc"), f("b c"), f(".h"), f("あ"), f("a'b"), f("ⱥ"), f("..x"),
	dir("d"), dir("da", f("x")), dir("Db", f("x"), f("xY")), dir("ad", dir("e", f("z"))), dir("b d", f("q r")), dir(".g", f(".i"), f("j")),
	{Kind: 'p', Name: "pipe"},
}

// linkPool are links; trees with them are only used for termination, except
// for links to directories.
var linkPool = []entry{link("l", "da"), link("s", "."), link("n", "none"), link("a1", "a"), link("o", "o"), link("up", "..")}

var scratchDir string

// scratch is an empty directory of this process, beside its binary.
func scratch() string {
	if scratchDir == "" {
		d, err := os.MkdirTemp(filepath.Dir(os.Args[0]), "tree")
		if err != nil {
			panic(err)
		}
		scratchDir = d
	}
	return scratchDir
}

func build(at string, es []entry) {
	for _, e := range es {
		p := filepath.Join(at, e.Name)
		var err error
		switch e.Kind {
		case 'f':
			err = os.WriteFile(p, nil, 0o600)
		case 'd':
			if err = os.Mkdir(p, 0o700); err == nil {
				build(p, e.Sub)
			}
		case 'l':
			err = os.Symlink(e.To, p)
		case 'p':
			err = syscall.Mkfifo(p, 0o600)
		}
		if err != nil {
			panic(err)
		}
	}
}

// inTree runs f inside a fresh tree.
func inTree(es []entry, f func(root string)) {
	root := filepath.Join(scratch(), "t")
	if err := os.Mkdir(root, 0o700); err != nil {
		panic(err)
	}
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer func() {
		os.Chdir(old)
		os.RemoveAll(root)
	}()
	build(root, es)
	if err := os.Chdir(root); err != nil {
		panic(err)
	}
	f(root)
}

// find returns the directory that the typed directory part names.
func findDir(tree []entry, part, root string) ([]entry, bool) {
	if rest, ok := strings.CutPrefix(part, root); ok && (rest == "" || rest[0] == '/') {
		part = "./" + rest
	} else if strings.HasPrefix(part, "/") {
		return nil, false
	}
	cur := tree
	for _, c := range strings.Split(part, "/") {
		if c == "" || c == "." {
			continue
		}
		found := false
		for _, e := range cur {
			if e.Name == c {
				if e.Kind == 'l' {
					return findDir(tree, e.To, root)
				}
				if !e.isDir() {
					return nil, false
				}
				cur, found = e.Sub, true
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return cur, true
}

// filesRef is what completion of target must offer: pairs of full and base.
func filesRef(tree []entry, target, root string) (full, base []string) {
	i := strings.LastIndexByte(target, '/') + 1
	part, typed := target[:i], target[i:]
	es, ok := findDir(tree, part, root)
	if !ok {
		return nil, nil
	}
	offer := func(part string, es []entry, typed string) {
		for _, e := range es {
			if !foldPrefix(e.Name, typed) {
				continue
			}
			n := e.Name
			if e.isDir() || e.Kind == 'l' {
				n += "/"
			}
			full = append(full, part+n)
			base = append(base, n)
		}
	}
	offer(part, es, typed)
	if len(full) == 1 && strings.HasSuffix(full[0], "/") {
		if sub, ok := findDir(tree, full[0], root); ok {
			offer(full[0], sub, "")
		}
	}
	return
}

func pairs(full, base []string) string {
	ps := make([]string, len(full))
	for i := range full {
		b := "?"
		if i < len(base) {
			b = base[i]
		}
		ps[i] = sprintf("%+q %+q", full[i], b)
	}
	sort.Strings(ps)
	return strings.Join(ps, ", ")
}

func treeNames(es []entry) string {
	var b strings.Builder
	for _, e := range es {
		b.WriteString(" " + e.Name)
		switch e.Kind {
		case 'd':
			b.WriteString("/(" + treeNames(e.Sub) + ")")
		case 'l':
			b.WriteString("->" + e.To)
		}
	}
	return b.String()
}

// treeCase is one tree; every target is completed in it.
type treeCase struct {
	Tree []entry
	Odd  bool // with links that do not lead to directories
	Keys bool // through the key as well
	// Targets to complete, fileTargets when empty
	Targets []string
}

var fileTargets = []string{
	"", "a", "A", "ab", "AB", "b", "b c", ".", "..", "./", "./a", ".//a", "d", "D", "da/", "da/x", "Da/", "Db/X", "d/", "d/y", "ad/e", "ad/E/", "ad/e/z",
	"b d/", "b d/q ", "none/", "none/x", "a/", "a/x", "あ", "あい", "Ⱥ", ".g/", ".g/.", ".g/./j", "x", "pipe/", "p", "l/", "l/x", "s/s/a", "n/", "o/", "ad/../a", "da/..", "\x00", "a\n", "%s",
	"@/", "@/a", "@/da/", "@/ad/e", "@/b",
}

type recFile struct {
	completion.File
	s *wordSource
}

func (r recFile) List(fields []string) ([]string, []string) {
	r.s.got = append(r.s.got, append([]string{}, fields...))
	return r.File.List(fields)
}

func checkTree(c treeCase) (outcome, sig, msg string) {
	var out strings.Builder
	inTree(c.Tree, func(root string) {
		targets := c.Targets
		if len(targets) == 0 {
			targets = fileTargets
		}
		for _, t := range targets {
			mc.Ticks++
			t = strings.Replace(t, "@", root, 1)
			full, base := completion.File{}.List([]string{"cmd", t})
			if c.Odd {
				if m := oddNames(c.Tree, t, full, base); m != "" {
					sig, msg = "files", sprintf("tree%s: completing %+q offers %+q: %s", treeNames(c.Tree), t, full, m)
					return
				}
				continue
			}
			if strings.Contains(t, "..") && strings.Contains(t, "/") {
				continue // outside of the tree model
			}
			wf, wb := filesRef(c.Tree, t, root)
			if a, b := pairs(full, base), pairs(wf, wb); a != b {
				sig = "files"
				msg = sprintf("tree%s: completing %+q offers [%s], should offer [%s]", treeNames(c.Tree), t, a, b)
				return
			}
			out.WriteString(sprintf("%d ", len(full)))
			if !c.Keys || strings.ContainsAny(t, "\x00\n'") {
				continue
			}
			if m := fileKeys(c.Tree, t, root); m != "" {
				sig, msg = "files", sprintf("tree%s: %s", treeNames(c.Tree), m)
				return
			}
		}
		if f, b := (completion.File{}).List(nil); len(f)+len(b) > 0 {
			sig, msg = "files", sprintf("without words it offers %+q", f)
		}
	})
	return out.String(), sig, msg
}

// oddNames judges what is offered at the top of a tree with any links: a link
// may be marked as a directory or not, but is an entry like the others.
func oddNames(tree []entry, target string, full, base []string) string {
	part := ""
	if strings.HasPrefix(target, "./") {
		part = "./"
	}
	typed := target[len(part):]
	if strings.Contains(typed, "/") || len(full) != len(base) {
		return ""
	}
	n := 0
	for _, e := range tree {
		if !foldPrefix(e.Name, typed) {
			continue
		}
		n++
		found := false
		for i := range full {
			found = found || strings.TrimSuffix(full[i], "/") == part+e.Name && strings.TrimSuffix(base[i], "/") == e.Name
		}
		if !found {
			return sprintf("%+q is missing", e.Name)
		}
	}
	if n != 1 && n != len(full) {
		return sprintf("%d entries match", n)
	}
	return ""
}

// fileKeys types the target and completes it by keys.
func fileKeys(tree []entry, target, root string) string {
	boxDevice(80)
	s := &wordSource{quotes: `"'`, del: "&|><;"}
	s.dynamic = func(f []string) ([]string, []string) { return filesRef(tree, f[len(f)-1], root) }
	line := "x " + target
	if strings.Contains(target, " ") {
		line = `x "` + target
	}
	cfg := &drv.Config{
		Width: 100, Height: 16, Prompt: str("$ "), Default: line, Cursor: len(newLine(line, 0).u),
		Setup: func(ed *readline.Editor) {
			ed.BindKey(kTab, completion.CmdCompletionOrList{Completion: recFile{s: s}, Postfix: " "})
		},
	}
	var before []string
	cur, row := 0, 0
	r, m := keysRun(cfg, []string{kTab, kTab, kEnter}, func(i int, r *drv.Run) string {
		mc.Ticks++
		if i > 0 {
			if m := judgeCompletion(r, s, before, cur, " ", true, row); m != "" {
				return m
			}
		}
		before, cur, row = r.Cells(), r.B.Cursor, r.Scr.AbsRow()
		s.got = nil
		return ""
	})
	if r.Panic != "" {
		return r.Panic
	}
	return m
}

func init() {
	trees := func(pool []entry, n int, yield func([]entry) bool) bool {
		var rec func(i int, cur []entry) bool
		rec = func(i int, cur []entry) bool {
			if i == len(pool) {
				return yield(cur)
			}
			if !rec(i+1, cur) {
				return false
			}
			return len(cur) >= n || rec(i+1, append(cur[:len(cur):len(cur)], pool[i]))
		}
		return rec(0, nil)
	}
	mc.Register(&mc.Prop{
		ID:   "C12",
		Rule: "an execution is one tree of files built on disk in which every target is completed, directly and through the completion key; states are distinct lists of results",
		Assumptions: []string{
			"Unix paths; a link counts as the directory it leads to, links to anything else are entries that may be marked as directories or not",
			"into a directory that is the only match it goes on by one level, offering the directory itself and its entries",
		},
		Worlds: []*mc.World{
			runeCases("names", func(s string) []treeCase {
				if s == "/" || s == "." || !plainRune(s) {
					return nil
				}
				return []treeCase{{Tree: []entry{f("x" + s + "1"), f(s), dir("d"+s, f(s+"2"), f("y"+s))}, Targets: []string{"x" + s, "X" + strings.ToUpper(s), "x" + strings.ToLower(s), "./" + s, "d", "d" + s, "d" + s + "/" + s, "d" + s + "/y"}}}
			}, checkTree),
			(&mc.CaseWorld[treeCase]{
				Name: "trees", Shards: 16, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all trees of up to %d of 17 files and directories, %d targets", tierN(tier, 4, 5), len(fileTargets))
				},
				Cases: func(tier string, yield func(treeCase) bool) {
					trees(entryPool, tierN(tier, 4, 5), func(es []entry) bool { return yield(treeCase{Tree: es}) })
				},
				Check: checkTree,
			}).World(),
			(&mc.CaseWorld[treeCase]{
				Name: "keys", Shards: 16, Weight: 9,
				BoundTxt: func(tier string) string {
					return sprintf("all trees of up to %d of 17 files and directories, %d targets, completion key twice", tierN(tier, 3, 4), len(fileTargets))
				},
				Cases: func(tier string, yield func(treeCase) bool) {
					trees(entryPool, tierN(tier, 3, 4), func(es []entry) bool { return yield(treeCase{Tree: es, Keys: true}) })
				},
				Check: checkTree,
			}).World(),
			(&mc.CaseWorld[treeCase]{
				Name: "many", Shards: 16, Weight: 9,
				BoundTxt: func(tier string) string {
					return "directories of 2, 9, 60 and 400 files with one of 17 other files among them, at the top and at depths 1, 2 and 7, and files with long names"
				},
				Cases: func(tier string, yield func(treeCase) bool) {
					for _, n := range []int{2, 9, 60, 400} {
						for _, e := range entryPool {
							for _, depth := range []int{0, 1, 2, 7} {
								es := []entry{e}
								for i := 0; i < n; i++ {
									es = append(es, f(sprintf("File-%02d", i)))
								}
								long := strings.Repeat("あl", 24)
								es = append(es, f(long))
								up := ""
								for d := 0; d < depth; d++ {
									es = []entry{dir(sprintf("Sub%d", d), es...), f("other")}
									up = sprintf("Sub%d/", d) + up
								}
								ts := []string{"", "Sub", "sub" + sprintf("%d", depth-1), "o"}
								for _, t := range []string{"", "f", "FILE-", "file-0", "File-07", "file-07x", "あL", long, e.Name, strings.ToUpper(e.Name), strings.ToLower(e.Name) + "/"} {
									ts = append(ts, up+t, "./"+up+t, "@/"+up+t, strings.ToUpper(up)+t)
								}
								if !yield(treeCase{Tree: es, Targets: ts, Keys: n < 20}) {
									return
								}
							}
						}
					}
				},
				Check: checkTree,
			}).World(),
			(&mc.CaseWorld[treeCase]{
				Name: "links", Shards: 8, Weight: 5,
				BoundTxt: func(tier string) string {
					return "all trees of up to 2 links (loops, dangling, to files, to directories) and 1 other file"
				},
				Cases: func(tier string, yield func(treeCase) bool) {
					for _, e := range entryPool {
						if !yield(treeCase{Tree: []entry{e, link("l", "da")}, Odd: e.Name != "da"}) {
							return
						}
						if !trees(linkPool, tierN(tier, 2, 4), func(es []entry) bool { return yield(treeCase{Tree: append([]entry{e}, es...), Odd: true}) }) {
							return
						}
					}
				},
				Check: checkTree,
			}).World(),
		},
	})
}
