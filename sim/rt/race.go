//go:build race

package rt

import "runtime"

// Race reports whether the race detector is built in.
const Race = true

func raceOff() { runtime.RaceDisable() }
func raceOn()  { runtime.RaceEnable() }

// RaceErrors returns how many races have been reported.
func RaceErrors() int { return runtime.RaceErrors() }
