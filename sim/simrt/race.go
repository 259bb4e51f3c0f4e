//go:build race

package simrt

import "runtime"

// RaceBuild tells whether the race detector is the oracle of this build.
const RaceBuild = true

// The scheduler's own hand-over of the baton must not count as synchronisation between
// the simulated threads, or it would hide every race of the code under test.
func raceHide()   { runtime.RaceDisable() }
func raceUnhide() { runtime.RaceEnable() }
