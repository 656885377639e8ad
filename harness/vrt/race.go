//go:build race

package vrt

import "runtime"

// Race says whether the race detector is on.
const Race = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// Races is the number of data races found so far.
func Races() int { return runtime.RaceErrors() }
