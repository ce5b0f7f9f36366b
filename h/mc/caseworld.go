package mc

import (
	"encoding/json"
	"time"

	"verifh/drv"
)

// CaseWorld enumerates explicit cases, each judged by one function.
type CaseWorld[C any] struct {
	Name     string
	Profiles []string
	Shards   int
	Weight   int
	Bin      string
	Thorough bool
	BoundTxt func(tier string) string
	// Cases yields every case of the space; yield returns false to stop.
	Cases func(tier string, yield func(C) bool)
	// Check judges one case. outcome identifies what was observed.
	Check func(c C) (outcome, sig, msg string)
}

// Ticks counts the steps that the current case made; checks of cases add to it.
var Ticks int64

// OutOfTime tells whether the time of the job is over; a check that stops for
// that reason leaves its case unfinished.
func OutOfTime() bool {
	if Current.Job != nil && Current.Job.Expired() {
		unfinished = true
	}
	return unfinished
}

var unfinished, incomplete bool

// Unfinished tells that the current case could not be explored completely.
func Unfinished() { incomplete = true }

// World turns the case world into a World.
func (w *CaseWorld[C]) World() *World {
	return &World{
		Name: w.Name, Profiles: w.Profiles, Shards: w.Shards, Weight: w.Weight, Bin: w.Bin, Thorough: w.Thorough,
		Bound: w.BoundTxt,
		Run: func(j *Job, r *Result) {
			i, n := 0, 0
			unfinished, incomplete = false, false
			seen := map[uint64]struct{}{}
			w.Cases(j.Tier, func(c C) bool {
				i++
				if (i-1)%j.Shards != j.Shard {
					return true
				}
				if n%16 == 0 && j.Expired() {
					unfinished = true
				}
				if unfinished {
					r.Exhaustive = false
					return false
				}
				before := drv.Executions
				out, sig, msg := w.one(c)
				n++
				if d := drv.Executions - before; d > 1 {
					r.Execs += d
				} else {
					r.Execs++
				}
				r.Transitions += Ticks
				Ticks = 0
				seen[Hash(out)] = struct{}{}
				if msg != "" {
					return !r.Add(j, sig, msg, c)
				}
				if n%4999 == 17 || n == 3 {
					b, _ := json.Marshal(c)
					r.Sample("%s -> %.200q", b, out)
				}
				return true
			})
			if unfinished || incomplete {
				r.Exhaustive = false
			}
			r.States += int64(len(seen))
			r.Outcomes += int64(len(seen))
		},
		Replay: func(j *Job, trace json.RawMessage) []Viol {
			var c C
			if err := json.Unmarshal(trace, &c); err != nil {
				return nil
			}
			_, sig, msg := w.one(c)
			if msg == "" {
				return nil
			}
			r := &Result{}
			r.Add(j, sig, msg, c)
			return r.Viols
		},
	}
}

func (w *CaseWorld[C]) one(c C) (out, sig, msg string) {
	Note(c)
	drv.Started.Store(time.Now().UnixNano())
	defer drv.Started.Store(0)
	defer func() {
		if e := recover(); e != nil {
			sig, msg = "panic", "panic: "+PanicText(e)
		}
	}()
	return w.Check(c)
}
