//go:build race

package vsched

import (
	"runtime"
	"unsafe"
)

// RaceEnabled reports whether the race detector is in use.
const RaceEnabled = true

//go:norace
func raceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func raceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func raceDisable() { runtime.RaceDisable() }

//go:norace
func raceEnable() { runtime.RaceEnable() }

//go:norace
func raceRead(p unsafe.Pointer) { runtime.RaceRead(p) }

//go:norace
func raceWrite(p unsafe.Pointer) { runtime.RaceWrite(p) }
