package conc

import (
	"errors"
	"fmt"
	"time"

	ttystub "github.com/mattn/go-tty"
	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/tty10"
	"golang.org/x/term"

	"verifh/props"
)

var errSize = errors.New("no size")

// env23 is a terminal with its user.
type env23 struct {
	s   *sched
	c   props.C23Case
	tty readline.ITty

	gen    int         // counts openings
	open   bool        // between the call of Open and the return of Close
	in     map[int]int // reports in progress of each opening
	w      int
	fail   bool
	last   map[*gor]int // what Size gave to each goroutine, -1: failed
	report []int

	lastw     int
	want, got map[int][]int // of each opening
	slow      bool
	log       string
}

func (e *env23) who() *gor {
	e.s.mu.Lock()
	defer e.s.mu.Unlock()
	return e.s.self()
}

func (e *env23) size() (int, int, error) {
	e.s.Point("size", nil)
	if e.fail {
		e.last[e.who()] = -1
		return 0, 0, errSize
	}
	e.last[e.who()] = e.w
	return e.w, 24, nil
}

func (e *env23) on(gen int) func(int) {
	return func(w int) {
		g := e.who()
		if e.c.Kind == "poll" {
			if !e.open {
				e.s.Fail("late", "width %d is reported after the terminal was closed", w)
			} else if gen != e.gen {
				e.s.Fail("late", "width %d is reported to the callback of an earlier opening", w)
			}
			if l, ok := e.last[g]; ok && l == -1 {
				e.s.Fail("width", "a width (%d) is reported although getting the size failed", w)
			} else if !ok || l != w {
				e.s.Fail("width", "width %d is reported, the terminal said %d", w, l)
			}
		}
		if e.in[gen] > 0 {
			e.s.Fail("overlap", "two reports at the same time")
		}
		e.in[gen]++
		e.report = append(e.report, w)
		e.got[gen] = append(e.got[gen], w)
		e.s.Point("report", nil)
		if e.slow {
			time.Sleep(300 * time.Millisecond)
			e.s.Point("report", nil)
		}
		e.in[gen]--
	}
}

func (e *env23) reports() int { return len(e.report) }

func (e *env23) user() {
	for _, o := range e.c.Ops {
		if e.c.Kind == "default" {
			// what arrives while nobody waits for it is lost
			e.s.Yield(string(o), nil)
		} else {
			e.s.Point(string(o), nil)
		}
		switch o {
		case 'o', 'x':
			e.gen++
			e.open = true
			if e.c.Kind == "default" {
				d := ttystub.Dev
				d.Fault = func(op string) error {
					if op == "size" && o == 'x' {
						return errSize
					}
					return nil
				}
				e.lastw = d.W
			}
			err := e.tty.Open(e.on(e.gen))
			if (err != nil) != (o == 'x') {
				e.s.Fail("open", "opening returned %v", err)
			}
			if err != nil {
				e.open = false
			}
		case 'c':
			e.close()
		case 's':
			time.Sleep(time.Second)
		case 'h':
			time.Sleep(time.Second / 2)
		case 'l':
			n := e.reports()
			time.Sleep(10 * time.Second)
			if e.open && !e.fail {
				if e.reports() == n {
					e.s.Fail("silent", "no report in ten seconds")
				} else if l := e.report[len(e.report)-1]; l != e.w {
					e.s.Fail("silent", "the last report in ten seconds was %d, the width is %d", l, e.w)
				}
			} else if e.reports() != n {
				e.s.Fail("late", "reports while there was nothing to report")
			}
		case 'w':
			e.w ^= 49 ^ 50
		case 'f':
			if e.c.Kind == "default" {
				e.slow = true
			} else {
				e.fail = true
			}
		case 'g':
			e.fail = false
		case '1', '2', '3':
			d := ttystub.Dev
			d.W = []int{49, 50, 306}[o-'1']
			if d.Ws == nil {
				break
			}
			select {
			case d.Ws <- ttystub.WINSIZE{W: d.W, H: 24 + int(o)%2}:
				if d.W != e.lastw {
					e.want[e.gen] = append(e.want[e.gen], d.W)
					e.lastw = d.W
				}
			default:
				e.log += "d"
			}
		}
	}
	e.s.Yield("end", nil)
	e.close()
}

func (e *env23) close() {
	err := e.tty.Close()
	if err != nil {
		e.s.Fail("close", "closing returned %v", err)
	}
	e.open = false
	if e.c.Kind == "poll" && e.in[e.gen] > 0 {
		e.s.Fail("late", "a report is in progress after the terminal was closed")
	}
	if d := ttystub.Dev; d.Opens != d.Closes {
		e.s.Fail("close", "the device was opened %d times and closed %d times", d.Opens, d.Closes)
	}
	if term.RawDepth != 0 {
		e.s.Fail("close", "the terminal is left in raw mode")
	}
}

func (e *env23) body(s *sched) {
	e.s = s
	e.w = 50
	e.last = map[*gor]int{}
	e.in = map[int]int{}
	e.want, e.got = map[int][]int{}, map[int][]int{}
	term.Reset()
	term.SizeFunc = e.size
	ttystub.Dev = &ttystub.Device{W: 50, H: 24}
	if e.c.Kind == "poll" {
		e.tty = &tty10.Tty{}
	} else {
		ed := &readline.Editor{}
		ed.Init()
		e.tty = ed.Tty
	}
	s.idle = 30 * time.Second
	s.Go("user", e.user)
	s.cleanup = func() {
		if d := ttystub.Dev; d != nil && d.Ws != nil {
			close(d.Ws)
			d.Ws = nil
		}
	}
}

func (e *env23) end(s *sched) {
	if e.c.Kind == "default" && fmt.Sprint(e.got) != fmt.Sprint(e.want) {
		s.Fail("changes", "the changes of width were %v, reported were %v", e.want, e.got)
	}
}

func init() {
	props.C23Check = func(c props.C23Case) (string, string, string) {
		var e *env23
		n := 1
		if c.Kind == "poll" {
			n = 4
		}
		return exploreTimes(n, c.Bound, func(s *sched) {
			e = &env23{c: c}
			e.body(s)
		}, func(s *sched) { e.end(s) }, func(*sched) string {
			return fmt.Sprint(e.report, e.want, e.log)
		})
	}
}
