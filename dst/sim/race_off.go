//go:build !race

package sim

import "unsafe"

const RaceEnabled = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceErrors() int                   { return 0 }
func raceRead(p unsafe.Pointer, n int)  {}
func raceWrite(p unsafe.Pointer, n int) {}
