//go:build race

package nd

import (
	"runtime"
	"unsafe"
)

// Off and On hide the replayed scheduler's own synchronisation from the race
// detector of Go; Acq and Rel tell it of the synchronisation it stands for.
func Off() { runtime.RaceDisable() }
func On()  { runtime.RaceEnable() }

func Acq(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Rel(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
