//go:build !race

package simrt

// RaceBuild tells whether the race detector is the oracle of this build.
const RaceBuild = false

func raceHide()   {}
func raceUnhide() {}
