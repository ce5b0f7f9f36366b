// Package clipboard is an in-memory stand-in for github.com/atotto/clipboard.
// The harness owns its content and can make either operation fail.
package clipboard

import "errors"

// Unsupported mirrors the exported variable of the real package.
var Unsupported bool

// State of the stand-in, owned by the harness.
var (
	Text      string
	FailRead  bool
	FailWrite bool
	Writes    int
	Reads     int
	Fault     func(op string) error // consulted on every operation when set
)

// ErrFault is what an injected failure returns.
var ErrFault = errors.New("clipboard: injected fault")

// Reset gives the stand-in a fresh state.
func Reset(text string, failRead, failWrite bool) {
	Text, FailRead, FailWrite = text, failRead, failWrite
	Writes, Reads = 0, 0
	Fault = nil
}

// ReadAll reads the content.
func ReadAll() (string, error) {
	Reads++
	if Fault != nil {
		if err := Fault("read"); err != nil {
			return "", err
		}
	}
	if FailRead {
		return "", ErrFault
	}
	return Text, nil
}

// WriteAll replaces the content.
func WriteAll(text string) error {
	Writes++
	if Fault != nil {
		if err := Fault("write"); err != nil {
			return err
		}
	}
	if FailWrite {
		return ErrFault
	}
	Text = text
	return nil
}
