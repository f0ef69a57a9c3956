//go:build race

package mc

import (
	"runtime"
	"unsafe"
)

// With -race the schedule hand-offs of the checker are hidden from the race
// detector (RaceDisable) and the happens-before edges of the modelled
// operations are reported explicitly, so that the detector judges the modelled
// program and not the checker's own serialisation of it.
const RaceEnabled = true

func raceDisable()                      { runtime.RaceDisable() }
func raceEnable()                       { runtime.RaceEnable() }
func raceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func raceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func raceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func raceErrors() int                   { return runtime.RaceErrors() }
