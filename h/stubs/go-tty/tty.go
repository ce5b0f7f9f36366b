// Package tty is an in-memory stand-in for github.com/mattn/go-tty. It keeps
// the structure of the real Unix implementation (a fresh bufio.Reader per
// Open, SIGWINCH delivered through a channel that Close closes, Raw returning
// a restore function) on top of a device owned by the harness.
package tty

import (
	"bufio"
	"errors"
	"io"
	"os"
)

// ErrFault is what an injected failure returns.
var ErrFault = errors.New("tty: injected fault")

// WINSIZE is the payload of SIGWINCH.
type WINSIZE struct {
	W int
	H int
}

// Device is the simulated terminal line.
type Device struct {
	In    io.Reader
	W, H  int
	Fault func(op string) error // consulted on every operation when set

	Opens, Closes, RawOn, RawOff int
	RawDepth                     int
	Ws                           chan WINSIZE // the channel of the currently open TTY
	DoubleClose                  int
	UseAfterClose                int
}

// Dev is the current device; nil means that opening fails.
var Dev *Device

// TTY is one open handle.
type TTY struct {
	dev    *Device
	bin    *bufio.Reader
	ws     chan WINSIZE
	closed bool
}

func (d *Device) fault(op string) error {
	if d.Fault != nil {
		return d.Fault(op)
	}
	return nil
}

// Open opens the device.
func Open() (*TTY, error) {
	if Dev == nil {
		return nil, ErrFault
	}
	if err := Dev.fault("open"); err != nil {
		return nil, err
	}
	Dev.Opens++
	return &TTY{dev: Dev, bin: bufio.NewReader(Dev.In)}, nil
}

// OpenDevice opens the device whatever the path.
func OpenDevice(path string) (*TTY, error) { return Open() }

func (t *TTY) use() {
	if t.closed {
		t.dev.UseAfterClose++
	}
}

// Raw enters raw mode and returns the function that leaves it.
func (t *TTY) Raw() (func() error, error) {
	t.use()
	if err := t.dev.fault("raw"); err != nil {
		return nil, err
	}
	t.dev.RawOn++
	t.dev.RawDepth++
	return func() error {
		t.dev.RawOff++
		t.dev.RawDepth--
		return nil
	}, nil
}

// MustRaw is Raw that panics.
func (t *TTY) MustRaw() func() error {
	f, err := t.Raw()
	if err != nil {
		panic(err.Error())
	}
	return f
}

// Buffered reports whether input is available without reading the device.
func (t *TTY) Buffered() bool { t.use(); return t.bin.Buffered() > 0 }

// ReadRune reads one rune.
func (t *TTY) ReadRune() (rune, error) {
	t.use()
	if err := t.dev.fault("read"); err != nil {
		return 0, err
	}
	r, _, err := t.bin.ReadRune()
	return r, err
}

// Close closes the handle.
func (t *TTY) Close() error {
	if t.closed {
		t.dev.DoubleClose++
		return nil
	}
	t.closed = true
	t.dev.Closes++
	if t.ws != nil {
		close(t.ws)
		if t.dev.Ws == t.ws {
			t.dev.Ws = nil
		}
	}
	return nil
}

// Size returns the dimensions.
func (t *TTY) Size() (int, int, error) {
	t.use()
	if err := t.dev.fault("size"); err != nil {
		return -1, -1, err
	}
	return t.dev.W, t.dev.H, nil
}

// SizePixel returns the dimensions.
func (t *TTY) SizePixel() (int, int, int, int, error) {
	w, h, err := t.Size()
	return w, h, -1, -1, err
}

// Input is not available.
func (t *TTY) Input() *os.File { return nil }

// Output is not available.
func (t *TTY) Output() *os.File { return nil }

// SIGWINCH returns the channel of size changes.
func (t *TTY) SIGWINCH() <-chan WINSIZE {
	t.ws = make(chan WINSIZE)
	t.dev.Ws = t.ws
	return t.ws
}
