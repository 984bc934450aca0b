//go:build !race

package vsched

import "unsafe"

// RaceEnabled reports whether the race detector is in use.
const RaceEnabled = false

func raceAcquire(p unsafe.Pointer) {}
func raceRelease(p unsafe.Pointer) {}
func raceDisable()                 {}
func raceEnable()                  {}
func raceRead(p unsafe.Pointer)    {}
func raceWrite(p unsafe.Pointer)   {}
