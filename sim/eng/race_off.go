//go:build !race

package eng

// RaceBuild tells whether the race detector is compiled in.
const RaceBuild = false

func raceErrors() int { return 0 }
