//go:build race

package hook

import "runtime"

// RaceBuild reports whether the race detector is compiled in.
const RaceBuild = true

// HideBegin and HideEnd bracket a hand-over between tasks, so that the simulator's own
// synchronisation does not order the tasks' memory accesses for the race detector.
func HideBegin() { runtime.RaceDisable() }
func HideEnd()   { runtime.RaceEnable() }

// RaceErrors is the number of races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }
