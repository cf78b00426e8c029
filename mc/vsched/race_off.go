//go:build !race

package vsched

import "unsafe"

// Raced: this build reports data races between the explored threads.
const Raced = false

func raceOff() {}
func raceOn()  {}

// RaceAcquire and RaceRelease state the ordering a primitive provides.
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
func raceErrors() int              { return 0 }
