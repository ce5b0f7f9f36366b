// Package mc is the explorer: it enumerates executions, hands them to oracles,
// distributes the work over processes and reports what was covered.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifh/drv"
)

// Job is a unit of work for one worker process.
type Job struct {
	Prop    string
	World   string
	Profile string
	Bin     string `json:",omitempty"` // which worker binary, "" = vh
	Tier    string
	Shard   int
	Shards  int
	Trace   json.RawMessage `json:",omitempty"` // set: only re-run this trace
	Until   int64           // unix seconds; stop exploring after it
}

// Viol is one violation.
type Viol struct {
	Prop    string
	World   string
	Profile string
	Bin     string `json:",omitempty"`
	Sig     string // identifies the kind of failure, for the known-findings file
	Msg     string
	Trace   json.RawMessage

	Shard, Shards int // where it was found
}

// Result is what a job covered.
type Result struct {
	World       string
	Shard       int
	Execs       int64 // runs of the real code judged by an oracle
	Steps       int64 // keys (or calls) executed in them
	States      int64 // distinct states seen
	Transitions int64 // distinct (state or history, event) pairs judged
	Outcomes    int64 // distinct observed outcomes
	Exhaustive  bool
	Bound       string
	Samples     []string
	Viols       []Viol
	Err         string
}

// World is one bounded space of executions.
type World struct {
	Name     string
	Profiles []string // default: wt
	Shards   int      // default 1
	Bin      string
	Thorough bool // only in the thorough tier
	Weight   int  // scheduling hint: heavier worlds start first
	Bound    func(tier string) string
	Run      func(j *Job, r *Result)
	Replay   func(j *Job, trace json.RawMessage) []Viol
}

// Prop is a property with the worlds that decide it.
type Prop struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Worlds      []*World
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) {
	if registry[p.ID] == nil {
		registry[p.ID] = p
		return
	}
	registry[p.ID].Worlds = append(registry[p.ID].Worlds, p.Worlds...)
}

// Get finds a property.
func Get(id string) *Prop { return registry[id] }

// IDs lists the registered properties.
func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// World finds a world.
func (p *Prop) World(name string) *World {
	for _, w := range p.Worlds {
		if w.Name == name {
			return w
		}
	}
	return nil
}

// Plan lists the jobs of a tier.
func (p *Prop) Plan(tier, only string) []Job {
	var jobs []Job
	ws := append([]*World{}, p.Worlds...)
	sort.SliceStable(ws, func(i, j int) bool { return ws[i].Weight > ws[j].Weight })
	for _, w := range ws {
		if w.Thorough && tier != "thorough" {
			continue
		}
		if only != "" && !strings.Contains(w.Name, only) {
			continue
		}
		profs := w.Profiles
		if len(profs) == 0 {
			profs = []string{"wt"}
		}
		n := w.Shards
		if n <= 0 {
			n = 1
		}
		for _, prof := range profs {
			for s := 0; s < n; s++ {
				jobs = append(jobs, Job{Prop: p.ID, World: w.Name, Profile: prof, Bin: w.Bin, Tier: tier, Shard: s, Shards: n})
			}
		}
	}
	return jobs
}

// Hash is a 64 bit hash of the parts.
func Hash(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xFF})
	}
	return h.Sum64()
}

// Expired tells whether the job's time is over.
func (j *Job) Expired() bool { return j.Until != 0 && time.Now().Unix() > j.Until }

// Thorough tells the tier.
func (j *Job) Thorough() bool { return j.Tier == "thorough" }

const maxViols = 3

// Add records a violation; it returns true when the job should stop.
func (r *Result) Add(j *Job, sig, msg string, trace any) bool {
	b, err := json.Marshal(trace)
	if err != nil {
		panic(err)
	}
	r.Viols = append(r.Viols, Viol{Prop: j.Prop, World: j.World, Profile: j.Profile, Bin: j.Bin, Sig: sig, Msg: msg, Trace: b, Shard: j.Shard, Shards: j.Shards})
	return len(r.Viols) >= maxViols
}

// Sample keeps a few written-out cases.
func (r *Result) Sample(format string, a ...any) {
	if len(r.Samples) < 4 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// Current describes the execution in progress, for the watchdog.
var Current struct {
	Job   *Job
	Trace any
}

var noteFile *os.File

// Note tells which execution starts now. When a worker died its job is run
// again with VH_NOTE set, so that the execution that kills it is known.
func Note(trace any) {
	Current.Trace = trace
	if noteFile != nil {
		b, _ := json.Marshal(trace)
		noteFile.WriteAt(append([]byte(fmt.Sprintf("%10d", len(b))), b...), 0)
	}
}

// HangSeconds is how long one execution of a few keys may take. They normally
// take microseconds.
var HangSeconds int64 = 60

// Watchdog reports an execution that does not end and stops the process.
func Watchdog(out *json.Encoder) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			st := drv.Started.Load()
			if st == 0 || time.Now().UnixNano()-st < HangSeconds*1e9 {
				continue
			}
			j := Current.Job
			r := &Result{World: j.World, Shard: j.Shard}
			r.Add(j, "hang", fmt.Sprintf("execution does not end (more than %d s)", HangSeconds), Current.Trace)
			out.Encode(r)
			os.Exit(0)
		}
	}()
}

// RunJob executes a job in this process.
func RunJob(j *Job) *Result {
	r := &Result{World: j.World, Shard: j.Shard, Exhaustive: true}
	p := Get(j.Prop)
	if p == nil {
		r.Err = "no property " + j.Prop
		return r
	}
	w := p.World(j.World)
	if w == nil {
		r.Err = "no world " + j.World
		return r
	}
	Current.Job = j
	if j.Trace != nil {
		r.Viols = w.Replay(j, j.Trace)
		return r
	}
	if w.Bound != nil {
		r.Bound = w.Bound(j.Tier)
	}
	w.Run(j, r)
	return r
}

// WorkerMain serves jobs from standard input.
func WorkerMain() {
	if s := os.Getenv("VH_HANG_S"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			HangSeconds = n
		}
	}
	if n := os.Getenv("VH_NOTE"); n != "" {
		noteFile, _ = os.Create(n)
	}
	limitMemory()
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	Watchdog(enc)
	for {
		var j Job
		if err := dec.Decode(&j); err != nil {
			return
		}
		enc.Encode(RunJob(&j))
	}
}

// limitMemory keeps an execution that allocates without end from taking the
// machine with it.
func limitMemory() {
	const max = 6 << 30
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: max, Max: max})
	debug.SetMaxStack(64 << 20)
	go func() {
		var m runtime.MemStats
		for {
			time.Sleep(500 * time.Millisecond)
			runtime.ReadMemStats(&m)
			if m.HeapAlloc > 3<<30 {
				fmt.Fprintln(os.Stderr, "out of memory")
				os.Exit(3)
			}
		}
	}()
}
