//go:build !race

package simrt

// RaceBuild reports whether the happens-before oracle is compiled in.
const RaceBuild = false

func hideSync()   {}
func unhideSync() {}

// RaceErrors returns how many happens-before violations were seen so far in
// this process.
func RaceErrors() int { return 0 }
