//go:build !race

package core

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = false

func raceErrors() int { return 0 }
