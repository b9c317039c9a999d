package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"time"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"

	"verifsim/core"
	"verifsim/ref"
)

const blockEpoch = 946684800 // 2000-01-01

// clock is a party's wall clock: it is off, drifts, jumps, and shows the time of some zone.
type clock struct {
	base  int64 // ns since 1970 at virtual time 0
	num   int64 // runs num/1000 as fast as it should
	zone  *time.Location
	clamp [2]int64
}

func (c *clock) ns(now int64) int64 {
	t := c.base + now*c.num // virtual time is in microseconds
	return min(max(t, c.clamp[0]), c.clamp[1])
}

// dates at which something changes: zones' summer time, leap days, ends of ranges
var dates = []int64{0, 946684800, 951782399, 951868800, 1078012800, 1583020799, 1710054000, 1711846800, 1730595600, 1729990800, 2147483647, 2147483648, 4102444799, 3094168447, 1325238000}

type stamp struct {
	Seq uint32
	TP  chain.TimePoint
	TPS chain.TimePointSec
	BTS chain.BlockTimestamp
}

var stampABI = &chain.Abi{Structs: []chain.AbiStruct{{Name: "stamp", Fields: []chain.AbiField{{Name: "Seq", Type: "uint32"}, {Name: "TP", Type: "time_point"}, {Name: "TPS", Type: "time_point_sec"}, {Name: "BTS", Type: "block_timestamp_type"}}}}}

func runC15(r *core.R) {
	old := time.Local
	defer func() { time.Local = old }()
	s := core.NewSched(r)
	n := r.Range(2, 3)
	clocks := make([]*clock, n)
	// 2000-01-01 to 2068: what all three types can hold
	lo, hi := int64(blockEpoch)*1e9, (int64(blockEpoch)+1<<31)*1e9-500e6
	era := dates[r.N(len(dates))]*1e9 + int64(r.N(2_000_001)-1_000_000)*1e6
	if r.N(4) == 3 {
		era = int64(r.U64()>>2)%(hi-lo) + lo
	}
	for i := range clocks {
		c := &clock{base: era, num: 1000, zone: zones[r.N(len(zones))], clamp: [2]int64{lo, hi}}
		if c.zone != time.UTC {
			r.Fault("time-zone")
		}
		if r.N(2) == 1 {
			c.base += int64(r.N(7_200_001)-3_600_000) * 1e6
			r.Fault("clock-skew")
		}
		if r.N(3) == 2 {
			c.num = int64(r.Range(1, 2000))
			r.Fault("clock-drift")
		}
		clocks[i] = c
		for k := r.N(3); k > 0; k-- {
			at := int64(r.N(60_000_000))
			d := int64(r.N(4_000_001)-2_000_000) * []int64{1, 1e3, 1e6, 1e9}[r.N(4)]
			z := r.N(2 * len(zones))
			s.At(at, func() {
				r.Fault("clock-jump")
				c.base += d
				if z < len(zones) {
					c.zone = zones[z]
					r.Fault("zone-change")
				}
			})
		}
	}
	var all []func()
	for i := 0; i+1 < n; i++ {
		all = append(all, stamps(r, s, i, clocks[i], clocks[i+1]))
	}
	if stuck := s.Run(); len(stuck) > 0 {
		r.Fail("stalled", "the network works but these wait for ever: %v", stuck)
	}
	for _, f := range all {
		f()
	}
	r.Sample("%d parties around %s", n, time.Unix(0, era).UTC())
}

// stamps: one party stamps messages with its clock, the other makes out when that was.
func stamps(r *core.R, s *core.Sched, id int, from, to *clock) func() {
	l := newLink(r, s)
	if l.window < 64 {
		l.window = 64
	}
	n := r.Range(1, 6)
	form := r.N(3) // binary, ABI, JSON
	type sent struct {
		ns int64
		st stamp
	}
	var log []sent
	read := 0
	check := func(who string, k int, st stamp, z *time.Location, tpUnit int64) {
		ns := log[k].ns
		us := floorDiv(ns, 1000)
		us -= us % tpUnit
		half := floorDiv(ns-blockEpoch*1e9+250e6, 500e6)
		if int64(st.TP) != us || int64(st.TPS) != floorDiv(ns, 1e9) || int64(st.BTS) != half || int(st.Seq) != k {
			r.Fail("stamp", "%s: at %s (in %s) the stamp %d is time point %d, seconds %d, block time %d, expected %d, %d, %d", who, time.Unix(0, ns).UTC().Format(time.RFC3339Nano), z, st.Seq, st.TP, st.TPS, st.BTS, us, floorDiv(ns, 1e9), half)
		}
		r.Evals++
		var a, b, c time.Time
		var ta, tb, tc string
		r.Call("time of stamp", func() {
			a, b, c = st.TP.Time(), st.TPS.Time(), st.BTS.Time()
			ta, tb, tc = st.TP.String(), st.TPS.String(), st.BTS.String()
		})
		bns := blockEpoch*int64(1e9) + half*500e6
		if a.UnixNano() != us*1000 || b.UnixNano() != floorDiv(ns, 1e9)*1e9 || c.UnixNano() != bns {
			r.Fail("instant", "%s: the stamp taken at %s (in %s) is read as %s, %s and %s", who, time.Unix(0, ns).UTC().Format(time.RFC3339Nano), z, a.UTC(), b.UTC(), c.UTC())
		}
		if wa, wb, wc := ref.TimeForm(us, true), ref.TimeForm(floorDiv(ns, 1e9)*1e6, false), ref.TimeForm(bns/1000, true); ta != wa || tb != wb || tc != wc {
			r.Fail("text", "%s: the stamp taken at %s (in %s) is written %s, %s and %s, expected %s, %s and %s", who, time.Unix(0, ns).UTC().Format(time.RFC3339Nano), z, ta, tb, tc, wa, wb, wc)
		}
	}
	s.Go(fmt.Sprintf("stamper%d", id), func(t *core.Task) {
		w := linkW{l, t}
		for k := 0; k < n; k++ {
			if r.N(2) == 1 {
				t.Sleep([]int64{1, 499_999, 500_000, 3_600_000_000, 86_400_000_000 * 200}[r.N(5)] * int64(r.Range(1, 3)))
			}
			ns := from.ns(s.Now())
			if r.N(2) == 1 {
				// near a boundary of some unit
				u := []int64{1000, 1e6, 250e6, 500e6, 1e9, 86400e9}[r.N(6)]
				ns = min(max((ns/u)*u+int64(r.N(3)-1), from.clamp[0]), from.clamp[1])
			}
			now := time.Unix(0, ns).In(from.zone)
			if r.N(2) == 1 {
				now = now.In(zones[r.N(len(zones))])
			}
			time.Local = from.zone
			var st stamp
			r.Call("stamp", func() {
				st = stamp{Seq: uint32(k), TP: chain.NewTimePoint(now), TPS: chain.NewTimePointSec(now), BTS: chain.NewBlockTimestamp(now)}
			})
			log = append(log, sent{ns, st})
			if r.N(3) == 2 {
				r.Fault("clock-far")
				farStamp(r, from.zone)
			}
			r.Ev("party %d stamps %d at %d", id, k, ns)
			check("stamper", k, st, from.zone, 1)
			var b bytes.Buffer
			var err error
			switch form {
			case 0:
				r.Call("encode of stamp", func() { err = chain.NewEncoder(&b).Encode(st) })
			case 1:
				r.Call("encode of stamp", func() {
					err = stampABI.Encode(&b, "stamp", map[string]interface{}{"Seq": st.Seq, "TP": st.TP, "TPS": st.TPS, "BTS": st.BTS})
				})
			default:
				r.Call("JSON of stamp", func() { err = json.NewEncoder(&b).Encode(st) })
			}
			if err == nil {
				_, err = w.Write(b.Bytes())
			}
			if err != nil {
				r.Fail("send-error", "stamp %d: %v", k, err)
			}
		}
		l.close()
	})
	s.Go(fmt.Sprintf("reader%d", id), func(t *core.Task) {
		rd := linkR{l, t}
		var dec *abi.Decoder
		js := json.NewDecoder(rd)
		for ; read < n; read++ {
			var st stamp
			var err error
			unit := int64(1)
			switch form {
			case 0:
				if dec == nil {
					dec = chain.NewDecoder(rd)
				}
				r.Call("decode of stamp", func() { err = dec.Decode(&st) })
			case 1:
				var x interface{}
				r.Call("decode of stamp", func() { x, err = stampABI.Decode(rd, "stamp") })
				if m, ok := x.(map[string]interface{}); ok && err == nil {
					st.Seq, _ = m["Seq"].(uint32)
					st.TP, _ = m["TP"].(chain.TimePoint)
					st.TPS, _ = m["TPS"].(chain.TimePointSec)
					st.BTS, _ = m["BTS"].(chain.BlockTimestamp)
				}
			default:
				var raw json.RawMessage
				if err = js.Decode(&raw); err == nil {
					time.Local = to.zone
					r.Call("reading JSON of stamp", func() { err = json.Unmarshal(raw, &st) })
				}
				unit = 1000
			}
			if err == io.EOF || err != nil {
				r.Fail("receive-error", "stamp %d: %v", read, err)
			}
			time.Local = to.zone
			r.Ev("party %d reads %d", id+1, read)
			check("reader", read, st, to.zone, unit)
		}
	})
	return func() {
		for i := range log {
			for j := range log {
				a, b := log[i], log[j]
				if a.ns <= b.ns && (a.st.TP > b.st.TP || a.st.TPS > b.st.TPS || a.st.BTS > b.st.BTS) {
					r.Fail("order", "stamps %d and %d are in the wrong order", i, j)
				}
			}
		}
	}
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// farStamp: the clock shows a time far off.
func farStamp(r *core.R, z *time.Location) {
	sec := minYear1/1_000_000 + int64(r.U64()%((maxYear9999-minYear1)/1_000_000))
	if r.N(3) == 2 {
		sec = int64(r.U64() >> 32) // what seconds can hold
	}
	nsec := int64(r.N(1000)) * []int64{1, 1000, 1000000}[r.N(3)]
	us := sec*1_000_000 + nsec/1000
	t := time.Unix(sec, nsec).In(z)
	var p chain.TimePoint
	var back time.Time
	var text string
	r.Call("far stamp", func() {
		p = chain.NewTimePoint(t)
		back, text = p.Time(), p.String()
	})
	r.Evals++
	if int64(p) != us || !back.Equal(time.Unix(sec, nsec/1000*1000)) || text != ref.TimeForm(us, true) {
		r.Fail("far", "the time point of %s (in %s) is %d (%s, written %s), expected %d", t.UTC().Format(time.RFC3339Nano), z, p, back.UTC(), text, us)
	}
	if sec < 0 || sec > 1<<32-1 {
		return
	}
	var q chain.TimePointSec
	r.Call("far stamp", func() {
		q = chain.NewTimePointSec(t)
		back, text = q.Time(), q.String()
	})
	if int64(q) != sec || back.Unix() != sec || text != ref.TimeForm(sec*1_000_000, false) {
		r.Fail("far", "the time in seconds of %s (in %s) is %d (%s, written %s), expected %d", t.UTC().Format(time.RFC3339Nano), z, q, back.UTC(), text, sec)
	}
}
