//go:build race

package simrt

import "runtime"

// RaceBuild reports whether the happens-before oracle is compiled in.
const RaceBuild = true

func hideSync()   { runtime.RaceDisable() }
func unhideSync() { runtime.RaceEnable() }

// RaceErrors returns how many happens-before violations were seen so far in
// this process.
func RaceErrors() int { return runtime.RaceErrors() }
