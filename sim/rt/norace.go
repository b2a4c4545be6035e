//go:build !race

package rt

// Race reports whether the race detector is built in.
const Race = false

func raceOff() {}
func raceOn()  {}

// RaceErrors returns how many races have been reported.
func RaceErrors() int { return 0 }
