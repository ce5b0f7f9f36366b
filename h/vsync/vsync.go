// Package vsync stands in for package sync in the code under test, so that
// the harness decides which goroutine gets a lock when several could run.
// Without a scheduler it behaves like sync.
package vsync

import "sync"

// Scheduler decides which goroutine goes on.
type Scheduler interface {
	// Point stops the goroutine until it is chosen, which it can only be
	// while enabled (nil: always). false: the execution is being torn down.
	Point(label string, enabled func() bool) bool
}

// Sched is the scheduler, if any.
var Sched Scheduler

// Aliases of what needs no control.
type (
	Cond      = sync.Cond
	Locker    = sync.Locker
	Map       = sync.Map
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is sync.OnceValues.
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Mutex is a mutual exclusion lock.
type Mutex struct {
	real   sync.Mutex
	locked bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	if Sched == nil {
		m.real.Lock()
		return
	}
	if Sched.Point("lock", func() bool { return !m.locked }) {
		m.locked = true
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if Sched == nil {
		return m.real.TryLock()
	}
	if !Sched.Point("trylock", nil) || m.locked {
		return false
	}
	m.locked = true
	return true
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if Sched == nil {
		m.real.Unlock()
		return
	}
	was := m.locked
	m.locked = false
	if Sched.Point("unlock", nil) && !was {
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	real    sync.RWMutex
	locked  bool
	readers int
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if Sched == nil {
		m.real.Lock()
		return
	}
	if Sched.Point("lock", func() bool { return !m.locked && m.readers == 0 }) {
		m.locked = true
	}
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	if Sched == nil {
		return m.real.TryLock()
	}
	if !Sched.Point("trylock", nil) || m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	return true
}

// Unlock undoes Lock.
func (m *RWMutex) Unlock() {
	if Sched == nil {
		m.real.Unlock()
		return
	}
	was := m.locked
	m.locked = false
	if Sched.Point("unlock", nil) && !was {
		panic("sync: Unlock of unlocked RWMutex")
	}
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if Sched == nil {
		m.real.RLock()
		return
	}
	if Sched.Point("rlock", func() bool { return !m.locked }) {
		m.readers++
	}
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	if Sched == nil {
		return m.real.TryRLock()
	}
	if !Sched.Point("tryrlock", nil) || m.locked {
		return false
	}
	m.readers++
	return true
}

// RUnlock undoes RLock.
func (m *RWMutex) RUnlock() {
	if Sched == nil {
		m.real.RUnlock()
		return
	}
	m.readers--
	Sched.Point("runlock", nil)
}

// RLocker returns a Locker of the reading side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	done bool
}

// Do calls f at the first call.
func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
