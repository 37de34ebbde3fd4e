//go:build race

package mc

import "runtime"

func raceErrors() int { return runtime.RaceErrors() }

// Race tells whether the race detector watches.
const Race = true
