//go:build race

package core

import "runtime"

// RaceBuild says whether the race detector is compiled in.
const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
