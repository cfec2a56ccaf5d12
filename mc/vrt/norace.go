//go:build !race

package vrt

// Race tells whether the race detector is on.
const Race = false

// Races is the number of data races reported so far.
func Races() int { return 0 }
