//go:build race

package vrt

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceOff()                     { runtime.RaceDisable() }
func raceOn()                      { runtime.RaceEnable() }
func RaceAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func RaceRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func RaceErrors() int              { return runtime.RaceErrors() }
