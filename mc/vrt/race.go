//go:build race

package vrt

import "runtime"

// Race tells whether the race detector is on.
const Race = true

// Races is the number of data races reported so far.
func Races() int { return runtime.RaceErrors() }
