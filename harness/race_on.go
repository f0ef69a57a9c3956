//go:build race

package harness

import (
	"runtime"
	"unsafe"
)

// The transport reads and writes the caller's buffers, as the kernel would.
func raceRead(p []byte) {
	if len(p) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&p[0]), len(p))
	}
}
func raceWrite(p []byte) {
	if len(p) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&p[0]), len(p))
	}
}
