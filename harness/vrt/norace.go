//go:build !race

package vrt

// Race says whether the race detector is on.
const Race = false

func raceOff() {}
func raceOn()  {}

// Races is the number of data races found so far.
func Races() int { return 0 }
