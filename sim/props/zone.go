package props

import (
	"time"
	_ "time/tzdata"

	"verifsim/core"
)

var zones = func() []*time.Location {
	zs := []*time.Location{time.UTC, time.FixedZone("east", 14*3600), time.FixedZone("west", -11*3600-1800), time.FixedZone("odd", 44*60+30)}
	for _, n := range []string{"America/New_York", "Europe/London", "Asia/Kolkata", "Australia/Lord_Howe", "Pacific/Apia", "Africa/Monrovia"} {
		if l, err := time.LoadLocation(n); err == nil {
			zs = append(zs, l)
		}
	}
	return zs
}()

// moveZone makes the program run in some time zone for the rest of the run. Call the result at its end.
func moveZone(r *core.R) func() {
	old := time.Local
	if k := r.N(2 * len(zones)); k < len(zones) {
		if k > 0 {
			r.Fault("time-zone")
			r.Ev("the local time zone is %s", zones[k])
		}
		time.Local = zones[k]
	}
	return func() { time.Local = old }
}
