//go:build !race

package vrt

import "unsafe"

const RaceEnabled = false

func raceOff()                     {}
func raceOn()                      {}
func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
func RaceErrors() int              { return 0 }
