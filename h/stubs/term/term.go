// Package term is a recording stand-in for golang.org/x/term. It never touches
// a real terminal; the harness decides every answer.
package term

import "errors"

// State is the opaque saved mode.
type State struct{ ID int }

// ErrFault is what an injected failure returns.
var ErrFault = errors.New("term: injected fault")

// State of the stand-in, owned by the harness.
var (
	RawDepth    int // MakeRaw calls not yet undone by Restore
	MakeRawN    int
	RestoreN    int
	FailMakeRaw func(n int) bool
	SizeFunc    func() (int, int, error)
	BadRestore  int // Restore calls that did not match the outstanding MakeRaw
	live        []*State
	OnMakeRaw   func()
)

// Reset gives the stand-in a fresh state.
func Reset() {
	RawDepth, MakeRawN, RestoreN, BadRestore = 0, 0, 0, 0
	FailMakeRaw, SizeFunc, OnMakeRaw = nil, nil, nil
	live = nil
}

// MakeRaw puts the terminal into raw mode.
func MakeRaw(fd int) (*State, error) {
	MakeRawN++
	if FailMakeRaw != nil && FailMakeRaw(MakeRawN) {
		return nil, ErrFault
	}
	RawDepth++
	s := &State{ID: MakeRawN}
	live = append(live, s)
	if OnMakeRaw != nil {
		OnMakeRaw()
	}
	return s, nil
}

// Restore undoes MakeRaw.
func Restore(fd int, oldState *State) error {
	RestoreN++
	if len(live) == 0 || live[len(live)-1] != oldState {
		BadRestore++
		return ErrFault
	}
	live = live[:len(live)-1]
	RawDepth--
	return nil
}

// GetSize returns the dimensions.
func GetSize(fd int) (width, height int, err error) {
	if SizeFunc == nil {
		return 80, 25, nil
	}
	return SizeFunc()
}

// IsTerminal always says yes.
func IsTerminal(fd int) bool { return true }
