//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the binary carries the race detector.
const RaceEnabled = true

func raceOff()                      { runtime.RaceDisable() }
func raceOn()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)  { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)  { runtime.RaceRelease(p) }
func raceRelMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int               { return runtime.RaceErrors() }
