// Package core is the simulator: the choice source, the recorder of events and faults, the scheduler
// with its virtual clock, the simulated streams, and execution, replay and minimisation of runs.
package core

import (
	"encoding/binary"
	"os"
)

// Ch is the one source of decisions of a run. Every decision is a number below a bound; 0 is the
// simplest alternative. What is decided is recorded; a recorded list can be replayed.
type Ch struct {
	s      uint64
	replay []uint32
	isRep  bool
	rec    []uint32
	sink   *os.File
	force  []uint32
	quiet  bool // decisions are not recorded
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func NewCh(seed uint64) *Ch {
	c := &Ch{s: seed}
	if p := os.Getenv("SIM_RECORD"); p != "" {
		c.sink, _ = os.Create(p)
	}
	return c
}

// Sub is a run within the run whose decisions follow from one seed and are not recorded.
func (r *R) Sub(seed uint64) *R {
	return &R{Ch: &Ch{s: seed, quiet: true}, Dict: r.Dict, Tier: r.Tier, Faults: r.Faults, Probes: r.Probes}
}

// Reseed starts the decisions of a run within the run again.
func (r *R) Reseed(seed uint64) { r.Ch.s = seed }

// Force fixes the first decisions.
func (c *Ch) Force(f []uint32) *Ch {
	c.force = f
	return c
}

func ReplayCh(rec []uint32) *Ch { return &Ch{replay: rec, isRep: true} }
func (c *Ch) Rec() []uint32     { return c.rec }
func (c *Ch) Replaying() bool   { return c.isRep }

func (c *Ch) N(n int) int {
	if n <= 1 {
		return 0
	}
	if uint64(n) > 1<<31 {
		panic("core: choice too wide")
	}
	var v uint32
	if c.isRep {
		if i := len(c.rec); i < len(c.replay) {
			v = c.replay[i]
			if v >= uint32(n) {
				v = uint32(n - 1)
			}
		}
	} else if i := len(c.rec); i < len(c.force) {
		v = c.force[i]
		if v >= uint32(n) {
			v = uint32(n - 1)
		}
	} else {
		c.s += 0x9e3779b97f4a7c15
		v = uint32((mix(c.s) >> 32) * uint64(n) >> 32)
	}
	if c.quiet {
		return int(v)
	}
	c.rec = append(c.rec, v)
	if c.sink != nil {
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], v)
		c.sink.Write(b[:])
	}
	return int(v)
}

// Bool is true with probability num/den; false is the simpler outcome.
func (c *Ch) Bool(num, den int) bool { return c.N(den) >= den-num }

// Range is a number in [lo,hi], lo being the simplest.
func (c *Ch) Range(lo, hi int) int { return lo + c.N(hi-lo+1) }

// U64 is any 64-bit number.
func (c *Ch) U64() uint64 {
	hi := c.N(1 << 31)
	mid := c.N(1 << 31)
	lo := c.N(4)
	return uint64(hi)<<33 | uint64(mid)<<2 | uint64(lo)
}

// Pick returns an index with the given weights; earlier entries are simpler.
func (c *Ch) Pick(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	x := c.N(t)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

// Rng is a plain generator whose seed is one choice: contents that need no minimising.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (g *Rng) U64() uint64 {
	g.s += 0x9e3779b97f4a7c15
	return mix(g.s)
}
func (g *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(g.U64() >> 33 % uint64(n))
}
func (g *Rng) Fill(b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := g.U64()
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Bytes makes n bytes: a pattern, or noise from one seed choice.
func (c *Ch) Bytes(n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	switch c.N(6) {
	case 0:
		for i := range b {
			b[i] = byte(i + 1)
		}
	case 1:
	case 2:
		for i := range b {
			b[i] = 0xff
		}
	default:
		NewRng(uint64(c.N(1<<30)) + 1).Fill(b)
	}
	return b
}

// Mix derives a seed from parts.
func Mix(parts ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, p := range parts {
		h = mix(h ^ p*0x9e3779b97f4a7c15 + 0x632be59bd9b4e019)
	}
	return h
}

// ReadRecord reads the decisions a process wrote to SIM_RECORD before it ended.
func ReadRecord(path string) []uint32 {
	b, _ := os.ReadFile(path)
	var out []uint32
	for i := 0; i+4 <= len(b); i += 4 {
		out = append(out, binary.LittleEndian.Uint32(b[i:]))
	}
	return out
}
