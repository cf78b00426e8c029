//go:build race

package tape

import (
	"runtime"
	"unsafe"
)

// The tape's own lock must not order the threads that draw from it.

//go:norace
func lock() {
	runtime.RaceDisable()
	mu.Lock()
}

//go:norace
func unlock() {
	mu.Unlock()
	runtime.RaceEnable()
}

// touch reports the use of the caller's memory.
//
//go:norace
func touch(b []byte, write bool) {
	if len(b) == 0 {
		return
	}
	if write {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	} else {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
