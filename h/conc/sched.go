// Package conc explores schedules: which of the goroutines of an execution
// goes on at every point where the code under test calls its environment or
// takes a lock. Executions run in a bubble of testing/synctest, so that "all
// others wait" is known exactly and time only passes when everybody waits.
package conc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verifh/drv"
	"verifh/mc"
	"verifh/vsync"
)

// T is the test that serves as the worker.
var T *testing.T

type gor struct {
	id   int
	name string
	goid uint64
	done bool
	own  bool // started by the harness
}

type point struct {
	g       *gor
	label   string
	enabled func() bool
	free    bool // switching away costs nothing
	ch      chan bool
}

// sched is one execution.
type sched struct {
	mu     sync.Mutex
	gs     []*gor
	parked []*point
	dead   bool

	prefix  []int
	choices []int
	sizes   []int  // number of choices at each step
	costs   []bool // whether choices other than 0 cost a preemption
	trail   []string

	cur      *gor
	sig, msg string

	// settled is called each time every goroutine waits.
	settled func()
	// cleanup ends what only the world can end.
	cleanup func()
	// idle is how much time may pass with nothing to do.
	idle time.Duration
	// lost: the runtime made another choice of its own than at the first
	// time, so that the execution could not follow its prefix.
	lost bool
	// fine adds points after unlocking.
	fine bool
}

// self finds the calling goroutine. s.mu is held.
func (s *sched) self() *gor {
	id := getg()
	for _, g := range s.gs {
		if g.goid == id {
			return g
		}
	}
	g := &gor{id: len(s.gs), name: "lib" + strconv.Itoa(len(s.gs)), goid: id}
	s.gs = append(s.gs, g)
	return g
}

// Point implements vsync.Scheduler.
func (s *sched) Point(label string, enabled func() bool) bool {
	if label == "unlock" && !s.fine {
		// switching here is the same as switching at the next point, except
		// for what the goroutine does between without calling anything
		return !s.dead
	}
	return s.point(label, enabled, false)
}

// Yield is a point where the goroutine waits for something outside.
func (s *sched) Yield(label string, enabled func() bool) bool {
	return s.point(label, enabled, true)
}

func (s *sched) point(label string, enabled func() bool, free bool) bool {
	s.mu.Lock()
	if s.dead {
		s.mu.Unlock()
		return false
	}
	p := &point{g: s.self(), label: label, enabled: enabled, free: free, ch: make(chan bool)}
	s.parked = append(s.parked, p)
	s.mu.Unlock()
	if !<-p.ch {
		runtime.Goexit()
	}
	return true
}

// Go starts a goroutine of the harness.
func (s *sched) Go(name string, f func()) {
	s.mu.Lock()
	g := &gor{id: len(s.gs), name: name, own: true}
	s.gs = append(s.gs, g)
	s.mu.Unlock()
	go func() {
		g.goid = getg()
		defer func() {
			if e := recover(); e != nil {
				s.Fail("panic", "%s panicked: %v\n%.1500s", name, e, debug.Stack())
			}
			g.done, g.goid = true, 0 // another one may get the same identity
		}()
		s.Yield("start", nil)
		f()
	}()
}

// Fail records the first violation.
func (s *sched) Fail(sig, format string, a ...any) {
	if s.sig == "" && !s.dead {
		s.sig, s.msg = sig, fmt.Sprintf(format, a...)
	}
}

// at tells whether goroutine name waits at a point with this label.
func (s *sched) at(name, label string) bool {
	for _, p := range s.parked {
		if p.g.name == name && p.label == label {
			return true
		}
	}
	return false
}

func (s *sched) loop() {
	var idled, graced time.Duration
	for {
		synctest.Wait()
		if s.settled != nil {
			s.settled()
		}
		if s.sig != "" {
			break
		}
		var on []*point
		for _, p := range s.parked {
			if p.enabled == nil || p.enabled() {
				on = append(on, p)
			}
		}
		if len(on) == 0 {
			live := len(s.parked) > 0
			for _, g := range s.gs {
				live = live || (g.own && !g.done)
			}
			if !live && graced < s.idle {
				// somebody else may wait for the time
				graced += time.Second
				time.Sleep(time.Second)
				continue
			}
			if !live {
				break
			}
			if idled >= s.idle {
				s.Fail("deadlock", "nothing can go on: %s", s.waiting())
				break
			}
			idled += 100 * time.Millisecond
			time.Sleep(100 * time.Millisecond)
			continue
		}
		idled = 0
		sort.Slice(on, func(i, j int) bool {
			if a, b := on[i].g == s.cur, on[j].g == s.cur; a != b {
				return a
			}
			return on[i].g.id < on[j].g.id
		})
		n := 0
		if k := len(s.choices); k < len(s.prefix) {
			n = s.prefix[k]
			if n >= len(on) {
				s.lost = true
				break
			}
		}
		s.choices = append(s.choices, n)
		s.sizes = append(s.sizes, len(on))
		s.costs = append(s.costs, on[0].g == s.cur && !on[0].free)
		p := on[n]
		for i, q := range s.parked {
			if q == p {
				s.parked = append(s.parked[:i:i], s.parked[i+1:]...)
				break
			}
		}
		s.cur = p.g
		s.trail = append(s.trail, p.g.name+":"+p.label)
		if len(s.trail) > 5000 {
			s.Fail("endless", "the execution does not end: ... %s", strings.Join(s.trail[4980:], " "))
			s.parked = append(s.parked, p)
			break
		}
		p.ch <- true
	}
	s.mu.Lock()
	s.dead = true
	parked := s.parked
	s.parked = nil
	s.mu.Unlock()
	for _, p := range parked {
		p.ch <- false
	}
	if s.cleanup != nil {
		s.cleanup()
	}
	synctest.Wait()
}

func (s *sched) waiting() string {
	var out []string
	for _, p := range s.parked {
		out = append(out, p.g.name+" waits at "+p.label)
	}
	for _, g := range s.gs {
		if g.own && !g.done {
			found := false
			for _, p := range s.parked {
				found = found || p.g == g
			}
			if !found {
				out = append(out, g.name+" waits")
			}
		}
	}
	return strings.Join(out, ", ")
}

// exec runs one execution. body starts the goroutines; end judges it after
// everything ended.
func exec(prefix []int, body func(s *sched), end func(s *sched)) (s *sched) {
	s = &sched{prefix: prefix}
	drv.Started.Store(time.Now().UnixNano())
	drv.Executions++
	vsync.Sched = s
	func() {
		defer func() {
			if e := recover(); e != nil {
				s.dead = false
				s.Fail("leak", "%v; last: %s", e, tail(s.trail))
			}
		}()
		synctest.Test(T, func(*testing.T) {
			body(s)
			s.loop()
		})
	}()
	vsync.Sched = nil
	s.dead = false
	if s.sig == "" && end != nil {
		end(s)
	}
	mc.Ticks += int64(len(s.choices))
	return s
}

func tail(t []string) string {
	if len(t) > 40 {
		t = t[len(t)-40:]
	}
	return strings.Join(t, " ")
}

// explore runs every schedule with at most bound preemptions.
func explore(bound int, body, end func(s *sched), outcome func(s *sched) string) (out, sig, msg string) {
	return exploreTimes(1, bound, body, end, outcome)
}

// exploreTimes runs every schedule several times, for code in which the
// runtime makes choices of its own.
func exploreTimes(times, bound int, body, end func(s *sched), outcome func(s *sched) string) (out, sig, msg string) {
	type item struct {
		prefix []int
		cost   int
	}
	outs := map[string]bool{}
	stack := []item{{}}
	n := 0
	for len(stack) > 0 {
		if mc.OutOfTime() {
			break
		}
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		var s *sched
		for i := 0; i < times || (s.lost && times > 1 && i < 8*times); i++ {
			s = exec(it.prefix, body, end)
			n++
			if s.sig != "" {
				break
			}
			if !s.lost {
				outs[outcome(s)] = true
			}
		}
		if s.lost {
			if times == 1 {
				mc.Unfinished()
			}
			continue
		}
		if s.sig != "" {
			return "", s.sig, fmt.Sprintf("%s\nschedule (%d executions before): %s", s.msg, n-1, strings.Join(s.trail, " "))
		}
		for k := len(it.prefix); k < len(s.choices); k++ {
			c := it.cost
			if s.costs[k] {
				c++
			}
			if c > bound {
				continue
			}
			for a := 1; a < s.sizes[k]; a++ {
				stack = append(stack, item{append(append([]int{}, s.choices[:k]...), a), c})
			}
		}
	}
	var os []string
	for o := range outs {
		os = append(os, o)
	}
	sort.Strings(os)
	return strings.Join(os, "\x00"), "", ""
}
