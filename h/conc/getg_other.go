//go:build !amd64

package conc

import (
	"runtime"
	"strconv"
	"strings"
)

// getg identifies the calling goroutine.
func getg() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseUint(f[1], 10, 64)
	return id
}
