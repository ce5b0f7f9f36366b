package conc

// getg identifies the calling goroutine while it lives.
func getg() uint64
