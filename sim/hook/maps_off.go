//go:build !simmaps

package hook

// MapSeam reports whether map randomness is under the simulator's control.
const MapSeam = false

func SeedMaps(s uint64) {}
