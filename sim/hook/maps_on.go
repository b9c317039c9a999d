//go:build simmaps

package hook

import _ "unsafe" // for go:linkname

// The build with this tag overlays runtime/rand.go so that the randomness of Go's maps (hash seeds,
// iteration starts) comes from a counter the simulator seeds.

//go:linkname simMapOn runtime.SimMapOn
var simMapOn uint64

//go:linkname simMapState runtime.SimMapState
var simMapState uint64

// MapSeam reports whether map randomness is under the simulator's control.
const MapSeam = true

// SeedMaps makes all map randomness from here on a function of s.
//
//go:norace
func SeedMaps(s uint64) { simMapOn, simMapState = 1, s }
