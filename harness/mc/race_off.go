//go:build !race

package mc

func raceErrors() int { return 0 }

// Race tells whether the race detector watches.
const Race = false
