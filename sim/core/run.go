package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strings"

	"verifsim/hook"
)

// Violation is a property found broken. Class is what minimisation preserves.
type Violation struct {
	Class  string
	Detail string
}

// R is one run.
type R struct {
	*Ch
	Dict     *Dict
	hash     uint64
	Trace    []string
	tracing  bool
	Faults   map[string]int
	Probes   map[string]int // rare situations reached
	Events   int
	SimNs    int64 // simulated time
	Evals    int   // oracle evaluations
	Tier     string
	sample   string
	Switches int
	steps    uint64
	limit    uint64
}

// Dict is what was mined from the sources under test.
type Dict struct {
	Woven   bool     `json:"woven"`
	Sites   int      `json:"sites"`
	Files   int      `json:"files"`
	Ints    []uint64 `json:"ints"`
	Strings []string `json:"strings"`
}

func LoadDict(p string) *Dict {
	d := &Dict{}
	if b, err := os.ReadFile(p); err == nil {
		json.Unmarshal(b, d)
	}
	return d
}

// Ev records an event of the run; the running hash of events identifies the execution.
func (r *R) Ev(format string, args ...interface{}) {
	r.Events++
	s := fmt.Sprintf(format, args...)
	h := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(r.hash >> (8 * i))
	}
	h.Write(b[:])
	h.Write([]byte(s))
	r.hash = h.Sum64()
	if r.tracing && len(r.Trace) < 4000 {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		r.Trace = append(r.Trace, s)
	}
}

// Fault records an injected fault.
func (r *R) Fault(kind string) { r.Faults[kind]++ }

// Probe records that a rare situation was reached.
func (r *R) Probe(kind string) { r.Probes[kind]++ }

// Sample describes the run for the evidence file.
func (r *R) Sample(format string, args ...interface{}) {
	if r.sample == "" {
		r.sample = fmt.Sprintf(format, args...)
		if len(r.sample) > 600 {
			r.sample = r.sample[:600] + "..."
		}
	}
}

// Fail ends the run with a violation.
func (r *R) Fail(class, format string, args ...interface{}) {
	d := fmt.Sprintf(format, args...)
	if len(d) > 2000 {
		d = d[:2000] + "..."
	}
	panic(Violation{class, d})
}

// Caught is a panic that escaped the code under test.
type Caught struct {
	Val   interface{}
	Stack string
	Hang  bool
}

func (c *Caught) String() string {
	if c.Hang {
		return fmt.Sprint("no result after ", c.Val, " statements")
	}
	return fmt.Sprintf("panic: %v\n%s", c.Val, c.Stack)
}

// Try runs f and returns the panic that escaped it, if any. Violations pass through.
func Try(f func()) (c *Caught) {
	defer func() {
		if x := recover(); x != nil {
			if v, ok := x.(Violation); ok {
				panic(v)
			}
			if h, ok := x.(hook.Hang); ok {
				c = &Caught{Val: h.Steps, Hang: true}
				return
			}
			if s, ok := x.(taskStop); ok {
				panic(s)
			}
			c = &Caught{Val: x, Stack: libStack()}
		}
	}()
	f()
	return nil
}

// byLibrary: the innermost frame of a panic, among those of the library and of the harness,
// belongs to the library.
func byLibrary(stack string) bool {
	lines := strings.Split(stack, "\n")
	last := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			last = i
		}
	}
	if last < 0 {
		return false
	}
	for _, l := range lines[last+1:] {
		if strings.HasPrefix(l, "github.com/greymass/go-eosio/") {
			return !strings.HasPrefix(l, "github.com/greymass/go-eosio/verif")
		}
		if strings.HasPrefix(l, "verifsim/") || strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

func libStack() string {
	var keep []string
	lines := strings.Split(string(debug.Stack()), "\n")
	for i := 0; i < len(lines)-1; i++ {
		if strings.Contains(lines[i], "go-eosio") && !strings.HasPrefix(lines[i], "\t") {
			keep = append(keep, strings.TrimSpace(lines[i]))
		}
	}
	if len(keep) > 8 {
		keep = keep[:8]
	}
	return strings.Join(keep, "\n")
}

// Call runs library code; a panic or a hang in it is a violation.
func (r *R) Call(what string, f func()) {
	hook.Tick()
	if c := Try(f); c != nil {
		if c.Hang {
			r.Fail("hang", "%s: %s", what, c)
		}
		r.Fail("panic", "%s: %s", what, c)
	}
}

// Heap runs f and returns how many bytes it allocated.
func Heap(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// Outcome of a run.
type Outcome struct {
	Viol     *Violation     `json:"viol,omitempty"`
	Hash     uint64         `json:"hash"`
	Choices  []uint32       `json:"choices,omitempty"`
	Faults   map[string]int `json:"faults,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Events   int            `json:"events"`
	SimNs    int64          `json:"sim_ns"`
	Steps    uint64         `json:"steps"`
	Evals    int            `json:"evals"`
	Switches int            `json:"switches"`
	Sample   string         `json:"sample,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
}

// Prop is a property: Run performs one simulated run and panics (Fail) on a violation.
type Prop struct {
	ID              string
	Run             func(r *R)
	Twin            func(r *R) // what fails in Run counts only if the same decisions succeed here
	Limit           uint64     // statements per run, 0: default
	Quick, Thorough int        // runs
	Batch           int
	Rule            string
	Force           func(i int, tier string) []uint32 // first decisions of run i
}

const defaultLimit = 120_000_000

// Exec performs one run.
func Exec(p *Prop, c *Ch, d *Dict, tier string, trace bool) Outcome {
	o := exec(p, p.Run, c, d, tier, trace)
	if o.Viol != nil && p.Twin != nil {
		if o2 := exec(p, p.Twin, ReplayCh(o.Choices), d, tier, false); o2.Viol != nil {
			o.Probes["twin-fails-too: "+o.Viol.Class+"/"+o2.Viol.Class]++
			o.Viol = nil
		}
	}
	return o
}

func exec(p *Prop, run func(*R), c *Ch, d *Dict, tier string, trace bool) (o Outcome) {
	r := &R{Ch: c, Dict: d, Tier: tier, tracing: trace, Faults: map[string]int{}, Probes: map[string]int{}, limit: p.Limit}
	if r.limit == 0 {
		r.limit = defaultLimit
	}
	hook.Reset(r.limit)
	seed := uint64(c.N(1 << 30))
	hook.SeedMaps(seed)
	hook.SeedClock(seed)
	func() {
		defer func() {
			hook.Disarm()
			if x := recover(); x != nil {
				switch x := x.(type) {
				case Violation:
					o.Viol = &x
				case hook.Hang:
					o.Viol = &Violation{"hang", fmt.Sprintf("no result after %d statements", x.Steps)}
				default:
					if !byLibrary(string(debug.Stack())) {
						panic(fmt.Sprintf("core: harness: %v\n%s", x, debug.Stack()))
					}
					o.Viol = &Violation{"panic", fmt.Sprintf("panic: %v\n%s", x, libStack())}
				}
			}
		}()
		run(r)
	}()
	r.steps = hook.Steps()
	hook.Reset(0)
	if o.Viol != nil {
		r.Ev("VIOLATION %s", o.Viol.Class)
	}
	o.Hash, o.Choices, o.Faults, o.Probes = r.hash, c.Rec(), r.Faults, r.Probes
	o.Events, o.SimNs, o.Steps, o.Evals, o.Sample, o.Trace, o.Switches = r.Events, r.SimNs, r.steps, r.Evals, r.sample, r.Trace, r.Switches
	return o
}

// RunCh is the source of decisions of run i.
func RunCh(p *Prop, seed int64, i int, tier string) *Ch {
	c := NewCh(RunSeed(p.ID, seed, i))
	if p.Force != nil {
		if f := p.Force(i, tier); f != nil {
			c.Force(append([]uint32{uint32(i)}, f...)) // the first decision seeds the maps
		}
	}
	return c
}

// Seed of run i of a property.
func RunSeed(prop string, seed int64, i int) uint64 {
	h := fnv.New64a()
	h.Write([]byte(prop))
	return Mix(h.Sum64(), uint64(seed), uint64(i))
}
