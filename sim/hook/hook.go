// Package hook is the seam that the build weaves into a copy of the library:
// every statement of the library is preceded by Y(site). It counts steps,
// records coverage and is the preemption point of the simulator's scheduler.
// With nothing armed it only counts.
package hook

import "runtime"

const edgeBits = 16

var (
	steps uint64
	limit uint64 = ^uint64(0)
	prev  uint32
	edges [1 << edgeBits]uint8
	armed bool
	left  int64
	sw    func(site uint32)
)

// Hang is the panic value raised when a run exceeds its step limit.
type Hang struct{ Steps uint64 }

// Y is called before every statement of the woven library.
//
//go:norace
func Y(site uint32) {
	steps++
	edges[(prev*0x9e37+site)&(1<<edgeBits-1)] = 1
	prev = site
	if steps > limit {
		hang()
	}
	if armed {
		left--
		if left <= 0 {
			sw(site)
		}
	}
}

//go:norace
func hang() {
	s := steps
	limit = ^uint64(0)
	panic(Hang{s})
}

// Block is called by the cooperative sync primitives when they cannot proceed.
//
//go:norace
func Block() {
	if armed {
		sw(^uint32(0))
	} else {
		steps += 1000
		if steps > limit {
			hang()
		}
		runtime.Gosched()
	}
}

// Arm installs the scheduler's switch function; n statements run before it is called.
//
//go:norace
func Arm(f func(site uint32), n int64) { sw, left, armed = f, n, true }

// SetLeft sets how many statements run before the next switch.
//
//go:norace
func SetLeft(n int64) { left = n }

// Disarm stops preemption.
//
//go:norace
func Disarm() { armed = false }

// Armed reports whether a scheduler is installed.
//
//go:norace
func Armed() bool { return armed }

// Reset starts counting steps at zero with the given limit (0: none).
//
//go:norace
func Reset(max uint64) {
	steps = 0
	prev = 0
	if max == 0 {
		max = ^uint64(0)
	}
	limit = max
}

// Steps returns the number of statements executed since Reset.
//
//go:norace
func Steps() uint64 { return steps }

// Edges returns how many distinct statement-to-statement transitions (hashed) were seen by this process.
//
//go:norace
func Edges() int {
	n := 0
	for _, e := range edges {
		if e != 0 {
			n++
		}
	}
	return n
}

// EdgeMap returns the transition map, for merging across processes.
//
//go:norace
func EdgeMap() []byte {
	b := make([]byte, len(edges)/8)
	for i, e := range edges {
		if e != 0 {
			b[i/8] |= 1 << (i % 8)
		}
	}
	return b
}
