package conc

import (
	"runtime"
	"testing"

	"verifh/mc"
)

// TestWorker is the worker of the checks of schedules.
func TestWorker(t *testing.T) {
	T = t
	runtime.GOMAXPROCS(1) // handing over between processors is slow
	mc.WorkerMain()
}
