package mc

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"verifh/ref"
)

// PanicText describes a recovered panic.
func PanicText(e any) string {
	s := string(debug.Stack())
	if len(s) > 3000 {
		s = s[:3000]
	}
	return fmt.Sprintf("%v\n%s", e, s)
}

type worker struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	enc     *json.Encoder
	out     *json.Decoder
	profile string
	bin     string
	errTail *tailBuf
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 8192 {
		t.b = t.b[len(t.b)-8192:]
	}
	return len(p), nil
}

func binPath(name string) string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	if name == "" {
		return self
	}
	return filepath.Join(filepath.Dir(self), name)
}

func startWorker(profile, bin string, more ...string) (*worker, error) {
	args := []string{"worker"}
	if bin == "conc" {
		args = []string{"-test.run=TestWorker", "-test.timeout=0"}
	}
	cmd := exec.Command(binPath(bin), args...)
	env := []string{"VH_PROFILE=" + profile}
	for _, e := range os.Environ() {
		drop := false
		for _, v := range ref.Env {
			if strings.HasPrefix(e, v+"=") {
				drop = true
			}
		}
		if !drop {
			env = append(env, e)
		}
	}
	env = append(env, "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "GOMAXPROCS=2", "VH_WORKER=1")
	env = append(env, ref.ByName(profile).Env...)
	env = append(env, more...)
	cmd.Env = env
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w := &worker{cmd: cmd, in: in, enc: json.NewEncoder(in), profile: profile, bin: bin, errTail: &tailBuf{}}
	cmd.Stderr = w.errTail
	w.out = json.NewDecoder(bufio.NewReaderSize(out, 1<<16))
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return w, nil
}

func (w *worker) stop() {
	w.in.Close()
	done := make(chan struct{})
	go func() { w.cmd.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		w.cmd.Process.Kill()
		<-done
	}
}

func (w *worker) do(j Job) (*Result, error) {
	if err := w.enc.Encode(j); err != nil {
		return nil, err
	}
	var r Result
	if err := w.out.Decode(&r); err != nil {
		w.cmd.Process.Kill()
		w.cmd.Wait()
		return nil, fmt.Errorf("worker died (%v): %s", err, w.errTail.b)
	}
	return &r, nil
}

// Known is one entry of the known-findings file.
type Known struct {
	Prop, Sig, Contains, What string
}

// LoadKnown reads the open findings: lines "open: property=ID sig=SIG match=TEXT :: what fails".
func LoadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var ks []Known
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "open: ")
		if !ok {
			continue
		}
		head, what, ok := strings.Cut(rest, " :: ")
		if !ok {
			continue
		}
		k := Known{What: what}
		h, m, _ := strings.Cut(head, " match=")
		k.Contains = m
		for _, f := range strings.Fields(h) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				k.Prop = v
			}
			if v, ok := strings.CutPrefix(f, "sig="); ok {
				k.Sig = v
			}
		}
		ks = append(ks, k)
	}
	return ks
}

func (k Known) covers(v *Viol) bool {
	return k.Prop == v.Prop && k.Sig == v.Sig && k.Contains != "" && strings.Contains(v.Msg+"\n"+string(v.Trace), k.Contains)
}

// Options of a check.
type Options struct {
	Tier    string
	Only    string // world filter, for debugging
	Verif   string // /verif
	Seconds int    // time limit of the exploration
	Seed    int
	Verbose bool
}

type runOut struct {
	job Job
	res *Result
	err error
}

// RunAll executes jobs on worker processes.
func RunAll(jobs []Job, onResult func(Job, *Result, error) (stop bool)) {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n > len(jobs) {
		n = len(jobs)
	}
	var mu sync.Mutex
	next := 0
	stopped := false
	var procs []*worker
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				if stopped || next >= len(jobs) {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				if w != nil && (w.profile != j.Profile || w.bin != j.Bin) {
					w.stop()
					w = nil
				}
				var err error
				if w == nil {
					w, err = startWorker(j.Profile, j.Bin)
					if err == nil {
						mu.Lock()
						procs = append(procs, w)
						mu.Unlock()
					}
				}
				var res *Result
				if err == nil {
					res, err = w.do(j)
				}
				mu.Lock()
				if stopped {
					mu.Unlock()
					if err != nil {
						w = nil
					}
					return
				}
				if onResult(j, res, err) {
					stopped = true
					for _, p := range procs {
						if p != w {
							p.cmd.Process.Kill()
						}
					}
				}
				mu.Unlock()
				if err != nil || (res != nil && len(res.Viols) > 0 && res.Viols[0].Sig == "hang") {
					w = nil
				}
			}
		}()
	}
	wg.Wait()
}

// replayOnce re-runs a violation in a fresh process.
func replayOnce(v *Viol, tier string) (*Viol, error) {
	w, err := startWorker(v.Profile, v.Bin)
	if err != nil {
		return nil, err
	}
	defer w.stop()
	r, err := w.do(Job{Prop: v.Prop, World: v.World, Profile: v.Profile, Bin: v.Bin, Tier: tier, Shards: 1, Trace: v.Trace})
	if err != nil {
		return nil, err
	}
	if len(r.Viols) == 0 {
		return nil, nil
	}
	return &r.Viols[0], nil
}

// replayJob runs the whole job again in which a violation was found.
func replayJob(v *Viol, tier string, until int64) (*Viol, error) {
	w, err := startWorker(v.Profile, v.Bin)
	if err != nil {
		return nil, err
	}
	defer w.stop()
	r, err := w.do(Job{Prop: v.Prop, World: v.World, Profile: v.Profile, Bin: v.Bin, Tier: tier, Shard: v.Shard, Shards: v.Shards, Until: until})
	if err != nil {
		return nil, err
	}
	for i := range r.Viols {
		if string(r.Viols[i].Trace) == string(v.Trace) {
			return &r.Viols[i], nil
		}
	}
	return nil, nil
}

// crashOf runs a job again whose worker died, to learn which execution does it.
func crashOf(j Job) *Viol {
	f, err := os.CreateTemp(filepath.Dir(binPath("")), "note")
	if err != nil {
		return nil
	}
	f.Close()
	w, err := startWorker(j.Profile, j.Bin, "VH_NOTE="+f.Name())
	if err != nil {
		return nil
	}
	defer w.stop()
	if _, err = w.do(j); err == nil {
		return nil
	}
	b, rerr := os.ReadFile(f.Name())
	if rerr != nil || len(b) < 10 {
		return nil
	}
	n := 0
	fmt.Sscanf(string(b[:10]), "%d", &n)
	if n == 0 || 10+n > len(b) {
		return nil
	}
	msg := err.Error()
	if len(msg) > 2000 {
		msg = msg[:2000]
	}
	return &Viol{Prop: j.Prop, World: j.World, Profile: j.Profile, Bin: j.Bin, Sig: "crash", Msg: "the process dies: " + msg, Trace: b[10 : 10+n], Shard: j.Shard, Shards: j.Shards}
}

// Check runs the check of one property and returns the exit status.
func Check(p *Prop, opt Options) int {
	start := time.Now()
	jobs := p.Plan(opt.Tier, opt.Only)
	until := start.Add(time.Duration(opt.Seconds) * time.Second).Unix()
	for i := range jobs {
		jobs[i].Until = until
	}
	known := LoadKnown(filepath.Join(opt.Verif, "known_findings.txt"))
	knownHit := map[string]bool{}
	var tot Result
	tot.Exhaustive = true
	worlds := map[string]*Result{}
	var viols []Viol
	var errs []string
	RunAll(jobs, func(j Job, r *Result, err error) bool {
		if err != nil {
			if v := crashOf(j); v != nil {
				viols = append(viols, *v)
			} else {
				errs = append(errs, fmt.Sprintf("%s/%s[%d]: %v", j.World, j.Profile, j.Shard, err))
			}
			return true
		}
		if r.Err != "" {
			errs = append(errs, r.Err)
			return true
		}
		if opt.Verbose {
			fmt.Fprintf(os.Stderr, "%6.1fs %s/%s[%d/%d] execs=%d states=%d trans=%d steps=%d exhaustive=%v viols=%d\n",
				time.Since(start).Seconds(), j.World, j.Profile, j.Shard, j.Shards, r.Execs, r.States, r.Transitions, r.Steps, r.Exhaustive, len(r.Viols))
		}
		name := j.World + "/" + j.Profile
		wr := worlds[name]
		if wr == nil {
			wr = &Result{Exhaustive: true, Bound: r.Bound}
			worlds[name] = wr
		}
		for _, t := range []*Result{wr, &tot} {
			t.Execs += r.Execs
			t.Steps += r.Steps
			t.States += r.States
			t.Transitions += r.Transitions
			t.Outcomes += r.Outcomes
			t.Exhaustive = t.Exhaustive && r.Exhaustive
		}
		if len(tot.Samples) < 8 {
			for i, s := range r.Samples {
				if i < 2 {
					tot.Samples = append(tot.Samples, name+" "+s)
				}
			}
		}
		for _, v := range r.Viols {
			hit := false
			for _, k := range known {
				if k.covers(&v) {
					hit = true
					knownHit[k.What] = true
				}
			}
			if !hit {
				viols = append(viols, v)
			}
		}
		return len(viols) > 0
	})
	status := 0
	// the shortest counterexample first
	sort.SliceStable(viols, func(a, b int) bool { return len(viols[a].Trace) < len(viols[b].Trace) })
	confirmed := 0
	job := false
	if len(viols) > 0 {
		v := &viols[0]
		need := 5
		if v.Sig == "hang" {
			need = 1
		}
		for i := 0; i < need; i++ {
			rv, err := replayOnce(v, opt.Tier)
			if err != nil && v.Sig != "crash" || err == nil && rv == nil {
				break
			}
			confirmed++
		}
		if confirmed == 0 && v.Sig != "crash" {
			// The execution alone does not show it: it depends on the
			// executions before it in the same process.
			need = 2
			for i := 0; i < need; i++ {
				rv, err := replayJob(v, opt.Tier, until+600)
				if err != nil || rv == nil || rv.Sig != v.Sig || string(rv.Trace) != string(v.Trace) {
					break
				}
				confirmed++
			}
			if confirmed == need {
				job = true
				v.Msg += "\n  (only after the executions of the same job before it)"
			}
		}
		dir := filepath.Join(opt.Verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, Hash(v.World, v.Profile, string(v.Trace))))
		b, _ := json.MarshalIndent(map[string]any{
			"property": v.Prop, "world": v.World, "profile": v.Profile, "bin": v.Bin, "sig": v.Sig, "message": v.Msg, "trace": v.Trace,
			"job": job, "tier": opt.Tier, "shard": v.Shard, "shards": v.Shards,
			"how": "bash /verif/check " + p.ID + " replay " + path,
		}, "", " ")
		os.WriteFile(path, b, 0o644)
		if confirmed == need {
			fmt.Printf("%s\n", indent(v.Msg))
			fmt.Printf("world %s, profile %s, trace %s\n", v.World, v.Profile, v.Trace)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			status = 1
		} else {
			fmt.Printf("%s\n", indent(v.Msg))
			fmt.Printf("ERROR: the violation above was reproduced only %d of %d times: the harness does not control something (%s)\n", confirmed, need, path)
			status = 2
		}
	}
	if len(errs) > 0 && status == 0 {
		for _, e := range errs {
			fmt.Println("ERROR:", e)
		}
		status = 2
	}
	for what := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, what)
	}
	wall := time.Since(start).Seconds()
	writeEvidence(p, opt, &tot, worlds, len(viols), wall)
	if status == 0 {
		fmt.Printf("%s: held on %d executions of the real code, %d states, %d transitions, exhaustive=%v, %.1f s\n",
			p.ID, tot.Execs, tot.States, tot.Transitions, tot.Exhaustive, wall)
	}
	return status
}

func indent(s string) string {
	s = strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r == 0x7F {
			return '?' // the output stays plain text
		}
		return r
	}, s)
	return "  " + strings.ReplaceAll(s, "\n", "\n  ")
}

func writeEvidence(p *Prop, opt Options, tot *Result, worlds map[string]*Result, nv int, wall float64) {
	type wout struct {
		World       string `json:"world"`
		Bound       string `json:"bound"`
		Execs       int64  `json:"executions"`
		States      int64  `json:"states"`
		Transitions int64  `json:"transitions"`
		Exhaustive  bool   `json:"exhaustive"`
	}
	var ws []wout
	for n, r := range worlds {
		ws = append(ws, wout{n, r.Bound, r.Execs, r.States, r.Transitions, r.Exhaustive})
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].World < ws[j].World })
	samples := []any{}
	for _, s := range tot.Samples {
		samples = append(samples, s)
	}
	level := p.Level
	if level == "" {
		level = "model_checking"
	}
	ev := map[string]any{
		"property": p.ID, "tier": opt.Tier, "seed": opt.Seed, "level": level,
		"coverage": map[string]any{
			"states": tot.States, "transitions": tot.Transitions, "traces_validated_against_impl": tot.Execs,
			"rule": p.Rule, "samples": samples, "exhaustive": tot.Exhaustive, "worlds": ws,
		},
		"assumptions": p.Assumptions, "wall_s": wall, "violations": nv,
	}
	dir := filepath.Join(opt.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// ReplayFile re-runs a saved counterexample and prints what happens.
func ReplayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f struct {
		Property, World, Profile, Bin, Sig string
		Trace                              json.RawMessage
		Job                                bool
		Tier                               string
		Shard, Shards                      int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	fv := &Viol{Prop: f.Property, World: f.World, Profile: f.Profile, Bin: f.Bin, Trace: f.Trace, Shard: f.Shard, Shards: f.Shards}
	var v *Viol
	if f.Job {
		v, err = replayJob(fv, f.Tier, 0)
	} else {
		v, err = replayOnce(fv, "quick")
		if err != nil && f.Sig == "crash" {
			v, err = &Viol{Msg: err.Error()}, nil
		}
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if v == nil {
		fmt.Println("the trace runs without a violation")
		return 0
	}
	fmt.Println(indent(v.Msg))
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return 1
}
