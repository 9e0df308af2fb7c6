//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

func raceOff()             { runtime.RaceDisable() }
func raceOn()              { runtime.RaceEnable() }
func acquire(b *byte)      { runtime.RaceAcquire(unsafe.Pointer(b)) }
func release(b *byte)      { runtime.RaceRelease(unsafe.Pointer(b)) }
func releaseMerge(b *byte) { runtime.RaceReleaseMerge(unsafe.Pointer(b)) }

// Race tells if the race detector is on.
const Race = true
