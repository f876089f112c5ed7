//go:build race

package eng

import "runtime"

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = true

func raceErrors() int { return runtime.RaceErrors() }
