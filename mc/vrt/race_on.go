//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

// RaceEnabled tells whether the binary was built with the race detector.
const RaceEnabled = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceAcquire, RaceRelease, RaceReleaseMerge annotate the happens-before edges of the modelled primitives.
func RaceAcquire(p unsafe.Pointer)      { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer)      { runtime.RaceRelease(p) }
func RaceReleaseMerge(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

// RaceErrors returns the number of races reported so far in this process.
func RaceErrors() int { return runtime.RaceErrors() }

// RaceReadBytes / RaceWriteBytes record an access to a slice made on behalf of the code under test.
func RaceReadBytes(b []byte) {
	if len(b) > 0 {
		runtime.RaceReadRange(unsafe.Pointer(&b[0]), len(b))
	}
}
func RaceWriteBytes(b []byte) {
	if len(b) > 0 {
		runtime.RaceWriteRange(unsafe.Pointer(&b[0]), len(b))
	}
}
