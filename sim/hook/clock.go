package hook

import "time"

// The clock of the woven library: it starts anywhere, drifts, stands still and jumps, all as the seed says.
var clockState, clockNs uint64

// SeedClock starts the clock of a run.
//
//go:norace
func SeedClock(s uint64) {
	clockState = s*0x9e3779b97f4a7c15 + 1
	clockNs = 1_500_000_000e9 + clockRand()%300_000_000e9
}

//go:norace
func clockRand() uint64 {
	clockState += 0x9e3779b97f4a7c15
	z := clockState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Tick lets time pass.
//
//go:norace
func Tick() {
	x := clockRand()
	switch x >> 8 % 8 {
	case 0, 1:
	case 2, 3, 4:
		clockNs += x >> 16 % 1e6
	case 5:
		clockNs += x >> 16 % 2e9
	case 6:
		clockNs += x >> 16 % 7200e9
	case 7:
		if x&1 == 0 {
			clockNs += x >> 16 % 90000_000e9
		} else {
			clockNs -= x >> 16 % 600e9
		}
	}
}

// Now stands in for time.Now.
func Now() time.Time {
	Tick()
	return time.Unix(0, int64(clockNs))
}

// Since stands in for time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until stands in for time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep stands in for time.Sleep.
func Sleep(d time.Duration) { clockNs += uint64(d) }
