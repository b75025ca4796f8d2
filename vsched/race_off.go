//go:build !race

package vsched

import "unsafe"

// RaceEnabled tells whether the binary carries the race detector.
const RaceEnabled = false

func raceOff()                      {}
func raceOn()                       {}
func raceAcquire(p unsafe.Pointer)  {}
func raceRelease(p unsafe.Pointer)  {}
func raceRelMerge(p unsafe.Pointer) {}
func raceErrors() int               { return 0 }
