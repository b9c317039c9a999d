// simrun decides properties by simulation.
//
//	simrun check  -prop C02 -tier quick -seed 1 ...   search; writes evidence, reports a violation
//	simrun batch  ...                                 (internal) runs of one batch in a fresh process
//	simrun one    ...                                 (internal) one recorded run in a fresh process
//	simrun shrink ...                                 (internal) minimise a recorded run
//	simrun replay FILE                                reproduce a violation
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/core"
	"verifsim/hook"
	"verifsim/props"
)

type config struct {
	prop, tier, dict, evidence, replays, known, exe, note string
	seed                                                  int64
	runs, workers, batch                                  int
	wall                                                  float64
	tz                                                    string // time zone of child processes
}

// processes are started in different time zones, by batch
var zones = []string{"UTC", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "UTC", "Europe/London", "Australia/Lord_Howe"}

func (c *config) inZone(run int) *config {
	d := *c
	d.tz = zones[run/c.batch%len(zones)]
	return &d
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property string     `json:"property"`
	Class    string     `json:"class"`
	Detail   string     `json:"detail"`
	Seed     int64      `json:"seed"`
	Run      int        `json:"run"`
	Tier     string     `json:"tier"`
	Binary   string     `json:"binary"`
	Hash     string     `json:"hash,omitempty"`
	Choices  [][]uint32 `json:"choices"` // recorded decisions, one list per run; the last one fails
	Minimal  bool       `json:"minimised"`
	Original int        `json:"original_choices"`
	Dict     *core.Dict `json:"dict"`
	TZ       string     `json:"time_zone"`
	Trace    []string   `json:"trace"`
	How      string     `json:"how_to_replay"`
}

type batchOut struct {
	From, To int
	Done     int
	Outs     core.Outcome  // aggregate
	Hashes   []uint64      // of non-trivial runs
	AllHash  uint64        // over all runs in order
	FailRun  int           // -1
	Fail     *core.Outcome `json:",omitempty"`
	Samples  []string      `json:",omitempty"`
	Edges    []byte        `json:",omitempty"`
	Trivial  int
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	var c config
	fs := flag.NewFlagSet("simrun", flag.ExitOnError)
	fs.StringVar(&c.prop, "prop", "", "")
	fs.StringVar(&c.tier, "tier", "quick", "")
	fs.StringVar(&c.dict, "dict", "", "")
	fs.StringVar(&c.evidence, "evidence", "", "")
	fs.StringVar(&c.replays, "replays", "replays", "")
	fs.StringVar(&c.known, "known", "", "")
	fs.StringVar(&c.note, "binary", "woven", "name of this build")
	fs.Int64Var(&c.seed, "seed", 1, "")
	fs.IntVar(&c.runs, "runs", 0, "")
	fs.IntVar(&c.workers, "workers", runtime.NumCPU(), "")
	fs.IntVar(&c.batch, "batch", 0, "")
	fs.Float64Var(&c.wall, "wall", 0, "start no new batch after this many seconds")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	full := fs.Bool("trace", false, "")
	budget := fs.Float64("budget", 60, "")
	printHash := fs.Bool("hashes", false, "print the hash over all runs")
	fs.Parse(os.Args[2:])
	c.exe, _ = os.Executable()
	switch os.Args[1] {
	case "check":
		os.Exit(check(&c, *printHash))
	case "batch":
		limits()
		batch(&c, *from, *to)
	case "one":
		limits()
		one(&c, *full)
	case "shrink":
		limits()
		shrink(&c, *budget)
	case "replay":
		os.Exit(replay(&c, fs.Arg(0)))
	default:
		os.Exit(2)
	}
}

func limits() {
	if !hook.RaceBuild {
		l := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	}
	runtime.GOMAXPROCS(2)
}

func prop(c *config) *core.Prop {
	p := props.All[c.prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "simrun: no property", c.prop)
		os.Exit(2)
	}
	return p
}

func batch(c *config, from, to int) {
	p := prop(c)
	d := core.LoadDict(c.dict)
	w := bufio.NewWriter(os.Stdout)
	out := batchOut{From: from, To: to, FailRun: -1}
	out.Outs.Faults, out.Outs.Probes = map[string]int{}, map[string]int{}
	for i := from; i < to; i++ {
		fmt.Fprintf(w, "R %d\n", i)
		w.Flush()
		o := core.Exec(p, core.RunCh(p, c.seed, i, c.tier), d, c.tier, false)
		out.Done++
		out.AllHash = core.Mix(out.AllHash, o.Hash)
		n := 0
		for k, v := range o.Faults {
			out.Outs.Faults[k] += v
			n += v
		}
		for k, v := range o.Probes {
			out.Outs.Probes[k] += v
		}
		out.Outs.Events += o.Events
		out.Outs.SimNs += o.SimNs
		out.Outs.Steps += o.Steps
		out.Outs.Evals += o.Evals
		out.Outs.Switches += o.Switches
		if n == 0 && o.Switches < 2 && o.Viol == nil {
			out.Trivial++
		} else {
			out.Hashes = append(out.Hashes, o.Hash)
			if o.Sample != "" && len(out.Samples) < 1 {
				out.Samples = append(out.Samples, fmt.Sprintf("run %d: %s", i, o.Sample))
			}
		}
		if o.Viol != nil {
			out.FailRun = i
			o.Trace = nil
			out.Fail = &o
			break
		}
	}
	out.Edges = hook.EdgeMap()
	b, err := json.Marshal(out)
	if err != nil {
		panic(err)
	}
	w.WriteString("B ")
	w.Write(b)
	w.WriteByte('\n')
	w.Flush()
}

// one reads {"choices":[[...],...],"dict":{...}} and executes the runs in order.
type oneIn struct {
	Choices [][]uint32 `json:"choices"`
	Seeds   []int      `json:"seeds"` // run numbers to generate instead of Choices
	Dict    *core.Dict `json:"dict"`
}

func one(c *config, trace bool) {
	p := prop(c)
	var in oneIn
	if err := json.NewDecoder(os.Stdin).Decode(&in); err != nil {
		fmt.Fprintln(os.Stderr, "simrun one:", err)
		os.Exit(2)
	}
	if in.Dict == nil {
		in.Dict = core.LoadDict(c.dict)
	}
	var o core.Outcome
	n := len(in.Choices)
	if n == 0 {
		n = len(in.Seeds)
	}
	for i := 0; i < n; i++ {
		var ch *core.Ch
		if len(in.Choices) > 0 {
			ch = core.ReplayCh(in.Choices[i])
		} else {
			ch = core.RunCh(p, c.seed, in.Seeds[i], c.tier)
		}
		o = core.Exec(p, ch, in.Dict, c.tier, trace && i == n-1)
		if o.Viol != nil {
			break
		}
	}
	json.NewEncoder(os.Stdout).Encode(o)
}

// shrink minimises in this process: deletes spans of decisions and lowers them while the same class fails.
func shrink(c *config, budget float64) {
	p := prop(c)
	var in oneIn
	json.NewDecoder(os.Stdin).Decode(&in)
	if in.Dict == nil {
		in.Dict = core.LoadDict(c.dict)
	}
	best := in.Choices[0]
	o := core.Exec(p, core.ReplayCh(best), in.Dict, c.tier, false)
	if o.Viol == nil {
		fmt.Println("null")
		return
	}
	class := o.Viol.Class
	best = trimmed(o.Choices)
	end := time.Now().Add(time.Duration(budget * float64(time.Second)))
	try := func(cand []uint32) bool {
		if time.Now().After(end) {
			return false
		}
		o := core.Exec(p, core.ReplayCh(cand), in.Dict, c.tier, false)
		if o.Viol != nil && o.Viol.Class == class {
			t := trimmed(o.Choices)
			if less(t, best) {
				best = t
				return true
			}
		}
		return false
	}
	minimise(&best, try, func() bool { return time.Now().After(end) })
	json.NewEncoder(os.Stdout).Encode(best)
}

func trimmed(c []uint32) []uint32 {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}
	return c
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func minimise(best *[]uint32, try func([]uint32) bool, over func() bool) {
	for progress := true; progress && !over(); {
		progress = false
		for size := len(*best) / 2; size >= 1 && !over(); size /= 2 {
			for i := 0; i+size <= len(*best) && !over(); {
				cand := append(append([]uint32{}, (*best)[:i]...), (*best)[i+size:]...)
				if try(cand) {
					progress = true
					continue
				}
				zero := append([]uint32{}, *best...)
				ch := false
				for j := i; j < i+size; j++ {
					ch = ch || zero[j] != 0
					zero[j] = 0
				}
				if ch && try(zero) {
					progress = true
				}
				i += size
			}
		}
		for i := 0; i < len(*best) && !over(); i++ {
			lo, hi := uint32(0), (*best)[i]
			for lo < hi && !over() {
				mid := lo + (hi-lo)/2
				cand := append([]uint32{}, *best...)
				cand[i] = mid
				if try(cand) {
					progress = true
					if i >= len(*best) || (*best)[i] > mid {
						break
					}
					hi = mid
				} else {
					lo = mid + 1
				}
			}
		}
	}
}

// child runs this program again.
func child(c *config, timeout time.Duration, stdin []byte, onLine func(string), args ...string) (out []byte, stderr string, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	args = append(args, "-prop", c.prop, "-tier", c.tier, "-dict", c.dict, "-seed", fmt.Sprint(c.seed), "-binary", c.note)
	cmd := exec.CommandContext(ctx, c.exe, args...)
	cmd.Stdin = bytes.NewReader(stdin)
	var eb tail
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "TZ="+c.tz, "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=0 history_size=4 atexit_sleep_ms=0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	pipe, err := cmd.StdoutPipe()
	if err != nil {
		return nil, "", err
	}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	rd := bufio.NewReaderSize(pipe, 1<<20)
	var buf bytes.Buffer
	for {
		line, e := rd.ReadString('\n')
		if onLine != nil {
			onLine(strings.TrimSuffix(line, "\n"))
		} else {
			buf.WriteString(line)
		}
		if e != nil {
			break
		}
	}
	io.Copy(io.Discard, rd)
	err = cmd.Wait()
	if ctx.Err() != nil {
		err = ctx.Err()
	}
	return buf.Bytes(), eb.String(), err
}

type tail struct{ head, b []byte }

func (t *tail) Write(p []byte) (int, error) {
	if len(t.head) < 3000 {
		t.head = append(t.head, p...)
	} else {
		t.b = append(t.b, p...)
		if len(t.b) > 6000 {
			t.b = t.b[len(t.b)-3000:]
		}
	}
	return len(p), nil
}
func (t *tail) String() string {
	h := t.head
	if len(h) > 3000 {
		h = h[:3000]
	}
	return string(h) + string(t.b)
}

// trouble tells a failure of the machinery (its own panic, the watchdog, a kill from outside) from one of the library.
func trouble(stderr string, err error) string {
	for _, p := range []string{"panic: core:", "panic: ref:", "panic: props:"} {
		if strings.Contains(stderr, p) {
			return stderr
		}
	}
	if err == context.DeadlineExceeded {
		return "a process ran into the time limit"
	}
	if err == nil || strings.Contains(err.Error(), "killed") {
		return fmt.Sprintf("a process ended without a result: %v %s", err, stderr)
	}
	return ""
}

// crash describes a process that died, or "" if the death is the harness's own fault.
func crashDetail(stderr string, err error) string {
	line := stderr
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIG") {
			line = l
			break
		}
	}
	return fmt.Sprintf("process died (%v): %s\n%s", err, line, strings.Join(frames(stderr, 6), "\n"))
}

// frames are the library's functions in a report, with the headings of a race report.
func frames(stderr string, n int) (fs []string) {
	for _, l := range strings.Split(stderr, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.Contains(l, "go-eosio") && !strings.HasPrefix(l, "\t") && !strings.HasPrefix(t, "/"):
			fs = append(fs, t)
		case strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous "):
			fs = append(fs, strings.Fields(t)[0]+" "+strings.Fields(t)[1])
		}
		if len(fs) == n {
			break
		}
	}
	return fs
}

// exec1 executes recorded runs in a fresh process.
func exec1(c *config, in oneIn, trace bool) (*core.Outcome, error) {
	b, _ := json.Marshal(in)
	args := []string{"one"}
	if trace {
		args = append(args, "-trace")
	}
	out, se, err := child(c, 120*time.Second, b, nil, args...)
	if err != nil {
		if t := trouble(se, err); t != "" {
			return nil, fmt.Errorf("harness: %s", t)
		}
		o := &core.Outcome{Viol: &core.Violation{Class: "crash", Detail: crashDetail(se, err)}}
		if len(in.Choices) > 0 {
			o.Choices = in.Choices[len(in.Choices)-1]
		}
		return o, nil
	}
	var o core.Outcome
	if err := json.Unmarshal(out, &o); err != nil {
		return nil, fmt.Errorf("harness: %v: %s %s", err, out, se)
	}
	if o.Viol != nil && o.Viol.Class == "race" {
		if f := frames(se, 12); len(f) > 0 {
			o.Viol.Detail += "; accesses: " + strings.Join(f, " | ")
		}
	}
	return &o, nil
}

func check(c *config, printHash bool) int {
	start := time.Now()
	p := prop(c)
	if c.runs == 0 {
		c.runs = p.Quick
		if c.tier == "thorough" {
			c.runs = p.Thorough
		}
	}
	if c.batch == 0 {
		c.batch = p.Batch
	}
	if c.batch == 0 {
		c.batch = 250
	}
	if c.wall == 0 {
		c.wall = 150
		if c.tier == "thorough" {
			c.wall = 3000
		}
	}
	nb := (c.runs + c.batch - 1) / c.batch
	res := make([]*batchOut, nb)
	var mu sync.Mutex
	next, failAt := 0, nb
	harness := ""
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				b := next
				if b >= nb || b > failAt || harness != "" || time.Since(start).Seconds() > c.wall {
					mu.Unlock()
					return
				}
				next++
				mu.Unlock()
				from, to := b*c.batch, min((b+1)*c.batch, c.runs)
				var bo *batchOut
				last := from
				_, se, err := child(c.inZone(from), 400*time.Second, nil, func(l string) {
					if strings.HasPrefix(l, "R ") {
						fmt.Sscan(l[2:], &last)
					} else if strings.HasPrefix(l, "B ") {
						bo = &batchOut{}
						if json.Unmarshal([]byte(l[2:]), bo) != nil {
							bo = nil
						}
					}
				}, "batch", "-from", fmt.Sprint(from), "-to", fmt.Sprint(to))
				mu.Lock()
				if bo == nil {
					if t := trouble(se, err); t != "" {
						harness = fmt.Sprintf("runs %d to %d, at run %d: %s", from, to, last, t)
					}
					bo = &batchOut{From: from, To: to, Done: last - from, FailRun: last, Fail: &core.Outcome{Viol: &core.Violation{Class: "crash", Detail: crashDetail(se, err)}}}
				}
				res[b] = bo
				if bo.FailRun >= 0 && b < failAt {
					failAt = b
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if harness != "" {
		fmt.Fprintln(os.Stderr, "simrun: harness failure:", harness)
		return 2
	}
	// aggregate
	agg := core.Outcome{Faults: map[string]int{}, Probes: map[string]int{}}
	distinct := map[uint64]bool{}
	var edges []byte
	done, trivial, dup := 0, 0, 0
	var samples []interface{}
	allHash := uint64(0)
	for b, r := range res {
		if r == nil || b > failAt {
			continue
		}
		done += r.Done
		trivial += r.Trivial
		allHash = core.Mix(allHash, r.AllHash)
		for k, v := range r.Outs.Faults {
			agg.Faults[k] += v
		}
		for k, v := range r.Outs.Probes {
			agg.Probes[k] += v
		}
		agg.Events += r.Outs.Events
		agg.SimNs += r.Outs.SimNs
		agg.Steps += r.Outs.Steps
		agg.Evals += r.Outs.Evals
		agg.Switches += r.Outs.Switches
		for _, h := range r.Hashes {
			if distinct[h] {
				dup++
			}
			distinct[h] = true
		}
		for _, s := range r.Samples {
			if len(samples) < 6 {
				samples = append(samples, s)
			}
		}
		if edges == nil {
			edges = make([]byte, len(r.Edges))
		}
		for i := range r.Edges {
			if i < len(edges) {
				edges[i] |= r.Edges[i]
			}
		}
	}
	ne := 0
	for _, e := range edges {
		ne += bits.OnesCount8(e)
	}
	if printHash {
		fmt.Printf("HASH %s runs=%d %016x\n", c.prop, done, allHash)
	}
	rc := 0
	violations := 0
	var vinfo interface{}
	if failAt < nb && res[failAt] != nil {
		path, viol, err := report(c, p, res[failAt])
		switch {
		case err != nil:
			fmt.Fprintln(os.Stderr, "simrun:", err)
			rc = 2
		default:
			violations = 1
			rc = 1
			vinfo = map[string]string{"class": viol.Class, "detail": viol.Detail, "replay": path}
			fmt.Printf("%s: %s\n", viol.Class, viol.Detail)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		}
	}
	wall := time.Since(start).Seconds()
	if c.evidence != "" {
		d := core.LoadDict(c.dict)
		cov := map[string]interface{}{
			"evaluations":         done,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"seeds":               fmt.Sprintf("runs 0..%d of seed %d, each with its own derived seed", done-1, c.seed),
			"runs_per_hour":       int(float64(done) / wall * 3600),
			"trivial_runs":        trivial,
			"oracle_evaluations":  agg.Evals,
			"events":              agg.Events,
			"library_statements":  agg.Steps,
			"context_switches":    agg.Switches,
			"simulated_time_s":    float64(agg.SimNs) / 1e9,
			"faults_injected":     agg.Faults,
			"situations_reached":  agg.Probes,
			"states_measure":      "distinct hashed statement-to-statement transitions of the library (woven build)",
			"states_reached":      ne,
			"woven":               d.Woven,
			"map_randomness_seam": hook.MapSeam,
			"history_hash":        fmt.Sprintf("%016x", allHash),
			"planned_runs":        c.runs,
			"binary":              c.note,
			"real_components":     "all of pkg/abi, pkg/chain, pkg/base58, pkg/ripemd160, pkg/codegen as in /repo's working tree",
			"stubs":               "streams, clock, peers and user callbacks (the simulator); package sync (cooperative) and runtime map randomness (seeded)",
		}
		if len(samples) == 0 {
			cov["samples"] = []interface{}{"none"}
		}
		if vinfo != nil {
			cov["violation"] = vinfo
		}
		ev := map[string]interface{}{
			"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "exploration", "coverage": cov,
			"wall_s": wall, "violations": violations,
			"assumptions": []string{"a seeded search: the property is checked on the runs explored, not on all", "the reference model in /verif/sim/ref states the wire format correctly"},
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(c.evidence), 0o755)
		if err := os.WriteFile(c.evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "simrun:", err)
			return 2
		}
	}
	fs := ""
	var ks []string
	for k := range agg.Faults {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fs += fmt.Sprintf(" %s=%d", k, agg.Faults[k])
	}
	fmt.Printf("%s %s: %d runs (%d distinct non-trivial), %d checks, %d statements, faults:%s, %.1fs\n", c.prop, c.tier, done, len(distinct), agg.Evals, agg.Steps, fs, wall)
	return rc
}

// report confirms, minimises and files a violation.
func report(c *config, p *core.Prop, b *batchOut) (string, *core.Violation, error) {
	c = c.inZone(b.From)
	d := core.LoadDict(c.dict)
	run := b.FailRun
	rep := Replay{Property: c.prop, Seed: c.seed, Run: run, Tier: c.tier, Binary: c.note, TZ: c.tz, Dict: d}
	class := b.Fail.Viol.Class
	// does the run fail alone in a fresh process?
	var hist [][]uint32
	o, err := exec1(c, oneIn{Seeds: []int{run}, Dict: d}, false)
	if err != nil {
		return "", nil, err
	}
	for try := 0; o.Viol == nil && try < 3; try++ {
		if o, err = exec1(c, oneIn{Seeds: []int{run}, Dict: d}, false); err != nil {
			return "", nil, err
		}
	}
	if o.Viol != nil {
		class = o.Viol.Class
		choices := o.Choices
		if class == "crash" {
			choices = recordOf(c, run, d)
		}
		rep.Original = len(choices)
		best := choices
		if class != "crash" && !strings.HasPrefix(class, "race") {
			in, _ := json.Marshal(oneIn{Choices: [][]uint32{choices}, Dict: d})
			out, _, err := child(c, 150*time.Second, in, nil, "shrink", "-budget", "40")
			var got []uint32
			if err == nil && json.Unmarshal(out, &got) == nil && got != nil {
				best = got
			}
		} else {
			best = shrinkOut(c, choices, class, d)
		}
		if o2, err := exec1(c, oneIn{Choices: [][]uint32{best}, Dict: d}, true); err == nil && o2.Viol != nil && o2.Viol.Class == class {
			o = o2
			hist = [][]uint32{best}
			rep.Minimal = true
		} else if o2, err := exec1(c, oneIn{Choices: [][]uint32{choices}, Dict: d}, true); err == nil && o2.Viol != nil {
			o = o2
			hist = [][]uint32{choices}
		}
	}
	if hist == nil {
		// it needs what ran before it in the same process
		var seeds []int
		for i := b.From; i <= run; i++ {
			seeds = append(seeds, i)
		}
		fails := func(s []int) *core.Outcome {
			o, err := exec1(c, oneIn{Seeds: s, Dict: d}, true)
			if err == nil && o.Viol != nil && o.Viol.Class == b.Fail.Viol.Class {
				return o
			}
			return nil
		}
		got := fails(seeds)
		for try := 0; got == nil && try < 5; try++ {
			got = fails(seeds)
		}
		if got == nil && class != "memory" && class != "work" && class != "crash" {
			// the library did what the oracle forbids, but depends on something outside the seams
			v := *b.Fail.Viol
			v.Detail += " (seen once; the same seeds in a fresh process do not show it, so the library depends on something besides its inputs, the schedule, the clock and map order)"
			rep.Class, rep.Detail = v.Class, v.Detail
			for _, s := range seeds {
				hist = append(hist, recordOf(c, s, d))
			}
			rep.Choices = hist
			path, err := rep.file(c, run)
			return path, &v, err
		}
		if got == nil {
			return "", nil, fmt.Errorf("violation of run %d not reproduced in a fresh process: %s: %s", run, b.Fail.Viol.Class, b.Fail.Viol.Detail)
		}
		o = got
		end := time.Now().Add(60 * time.Second)
		for size := (len(seeds) - 1) / 2; size >= 1; size /= 2 {
			for i := 0; i+size < len(seeds) && time.Now().Before(end); {
				cand := append(append([]int{}, seeds[:i]...), seeds[i+size:]...)
				if g := fails(cand); g != nil {
					seeds, o = cand, g
				} else {
					i += size
				}
			}
		}
		for _, s := range seeds {
			hist = append(hist, recordOf(c, s, d))
		}
		if o2, err := exec1(c, oneIn{Choices: hist, Dict: d}, true); err == nil && o2.Viol != nil {
			o = o2
		}
		rep.Minimal = true
	}
	rep.Choices, rep.Class, rep.Detail, rep.Trace = hist, o.Viol.Class, o.Viol.Detail, o.Trace
	if o.Hash != 0 {
		rep.Hash = fmt.Sprintf("%016x", o.Hash)
	}
	path, err := rep.file(c, run)
	return path, o.Viol, err
}

func (rep *Replay) file(c *config, run int) (string, error) {
	os.MkdirAll(c.replays, 0o755)
	path := filepath.Join(c.replays, fmt.Sprintf("%s-seed%d-run%d.json", c.prop, c.seed, run))
	rep.How = "cd /verif && ./check.sh replay " + path
	j, _ := json.MarshalIndent(rep, "", " ")
	return path, os.WriteFile(path, j, 0o644)
}

// recordOf regenerates the decisions of a run that may end its process: they are written out as they are made.
func recordOf(c *config, run int, d *core.Dict) []uint32 {
	f := filepath.Join(os.TempDir(), fmt.Sprintf("simrec-%d-%d", os.Getpid(), run))
	defer os.Remove(f)
	os.Setenv("SIM_RECORD", f)
	exec1(c, oneIn{Seeds: []int{run}, Dict: d}, false)
	os.Unsetenv("SIM_RECORD")
	return core.ReadRecord(f)
}

// shrinkOut minimises with one process per attempt.
func shrinkOut(c *config, choices []uint32, class string, d *core.Dict) []uint32 {
	best := trimmed(choices)
	end := time.Now().Add(45 * time.Second)
	n := 0
	over := func() bool { return time.Now().After(end) || n > 400 }
	minimise(&best, func(cand []uint32) bool {
		if over() {
			return false
		}
		n++
		o, err := exec1(c, oneIn{Choices: [][]uint32{cand}, Dict: d}, false)
		if err == nil && o.Viol != nil && o.Viol.Class == class {
			t := trimmed(cand)
			if less(t, best) {
				best = t
				return true
			}
		}
		return false
	}, over)
	return best
}

func replay(c *config, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.prop, c.tier, c.seed, c.tz = rep.Property, rep.Tier, rep.Seed, rep.TZ
	o, err := exec1(c, oneIn{Choices: rep.Choices, Dict: rep.Dict}, true)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, t := range o.Trace {
		fmt.Println(" ", t)
	}
	if o.Viol == nil {
		fmt.Println("not reproduced: the property holds on this history")
		return 0
	}
	same := o.Viol.Class == rep.Class && (rep.Hash == "" || rep.Hash == fmt.Sprintf("%016x", o.Hash))
	fmt.Printf("%s: %s\nidentical to the recorded execution: %v\nVIOLATION property=%s replay=%s\n", o.Viol.Class, o.Viol.Detail, same, c.prop, path)
	return 1
}
