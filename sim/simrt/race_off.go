//go:build !race

package simrt

import "unsafe"

// RaceEnabled tells whether the binary was built with the race detector.
const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

// RaceErrors returns the number of races reported so far.
func RaceErrors() int { return 0 }

func RaceAcquire(p unsafe.Pointer) {}
func RaceRelease(p unsafe.Pointer) {}
