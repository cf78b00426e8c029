//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// Raced: this build reports data races between the explored threads. The
// hand-over of control is hidden from the race detector, so that only the
// synchronisation of the code under test orders its memory accesses.
const Raced = true

//go:norace
func raceOff() { runtime.RaceDisable() }

//go:norace
func raceOn() { runtime.RaceEnable() }

// RaceAcquire and RaceRelease state the ordering a primitive provides.
//
//go:norace
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func raceErrors() int { return runtime.RaceErrors() }
