//go:build !race && go1.23

package simrt

import "unsafe"

// Race says whether this is the race-detector build.
const Race = false

func raceDisable()                      {}
func raceEnable()                       {}
func RaceAcquire(p unsafe.Pointer)      {}
func RaceRelease(p unsafe.Pointer)      {}
func RaceReleaseMerge(p unsafe.Pointer) {}
func RaceDisable()                      {}
func RaceEnable()                       {}

// RaceErrors is the number of races reported so far in this process.
func RaceErrors() int { return 0 }
