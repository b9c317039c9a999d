package core

import (
	"container/heap"
	"fmt"
	"runtime/debug"
	"sort"
	"sync"

	"verifsim/hook"
)

// Sched runs tasks one at a time. Which task runs next, and for how many library statements before it
// may be preempted, is decided by the run's choice source; time is virtual.
type Sched struct {
	r        *R
	tasks    []*Task
	cur      *Task
	now      int64
	events   eventHeap
	seq      int
	park     chan struct{}
	wg       sync.WaitGroup
	quantum  func() int64 // nil: never preempt inside library code
	stop     bool
	MaxSteps int
}

// Task is a simulated thread of control.
type Task struct {
	s      *Sched
	Name   string
	resume chan struct{}
	done   bool
	cond   func() bool // blocked until true
	viol   *Violation
	boom   interface{}
	blockN int
}

type taskStop struct{}

type event struct {
	at  int64
	seq int
	f   func()
}
type eventHeap []event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	return h[i].at < h[j].at || h[i].at == h[j].at && h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x interface{}) { *h = append(*h, x.(event)) }
func (h *eventHeap) Pop() interface{} {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

func NewSched(r *R) *Sched { return &Sched{r: r, park: make(chan struct{}), MaxSteps: 2_000_000} }

// Preempt makes library statements preemption points; q chooses how many run before the next switch.
func (s *Sched) Preempt(q func() int64) { s.quantum = q }

// Cur is the task that is running.
//
//go:norace
func (s *Sched) Cur() *Task { return s.cur }

func (s *Sched) Now() int64 { return s.now }

// At schedules f after d units of virtual time.
func (s *Sched) At(d int64, f func()) {
	s.seq++
	heap.Push(&s.events, event{s.now + d, s.seq, f})
}

// Go adds a task.
func (s *Sched) Go(name string, f func(t *Task)) *Task {
	t := &Task{s: s, Name: name, resume: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		defer t.finish()
		t.await()
		f(t)
	}()
	return t
}

//go:norace
func (t *Task) await() {
	hook.HideBegin()
	<-t.resume
	hook.HideEnd()
	if t.s.stop {
		panic(taskStop{})
	}
}

//go:norace
func (t *Task) finish() {
	if x := recover(); x != nil {
		switch x := x.(type) {
		case Violation:
			t.viol = &x
		case taskStop:
		default:
			t.boom = x
			if _, hang := x.(hook.Hang); !hang && byLibrary(string(debug.Stack())) {
				t.viol, t.boom = &Violation{"panic", fmt.Sprintf("panic: %v\n%s", x, libStack())}, nil
			}
		}
	}
	t.done = true
	hook.HideBegin()
	t.s.park <- struct{}{}
	hook.HideEnd()
}

// switchOut is called by the hook inside library code.
//
//go:norace
func (s *Sched) switchOut(site uint32) {
	t := s.cur
	if site == ^uint32(0) {
		t.blockN++
	} else {
		t.blockN = 0
	}
	hook.HideBegin()
	s.park <- struct{}{}
	<-t.resume
	hook.HideEnd()
	if s.stop {
		panic(taskStop{})
	}
}

// Yield hands control to the scheduler.
//
//go:norace
func (t *Task) Yield() { t.s.switchOut(0) }

// Wait blocks the task until cond holds.
func (t *Task) Wait(cond func() bool) {
	if cond() {
		return
	}
	t.cond = cond
	t.Yield()
}

// Sleep blocks the task for d units of virtual time.
func (t *Task) Sleep(d int64) {
	woke := false
	t.s.At(d, func() { woke = true })
	t.Wait(func() bool { return woke })
}

// Run runs all tasks to completion. It returns the names of the tasks that can never continue.
//
//go:norace
func (s *Sched) Run() (stuck []string) {
	steps := 0
	for {
		run, alive := s.runnable()
		if len(run) == 0 {
			if !alive {
				break
			}
			if len(s.events) == 0 {
				for _, t := range s.tasks {
					if !t.done {
						stuck = append(stuck, t.Name)
					}
				}
				break
			}
			e := heap.Pop(&s.events).(event)
			s.now = e.at
			e.f()
			continue
		}
		if steps++; steps > s.MaxSteps {
			for _, t := range run {
				stuck = append(stuck, t.Name+" (running)")
			}
			break
		}
		// let pending arrivals race with the runnable tasks
		if len(s.events) > 0 && s.quantum == nil && s.r.Bool(1, 4) {
			e := heap.Pop(&s.events).(event)
			s.now = e.at
			e.f()
			continue
		}
		// those that wait for a lock come last, so that a lock is never waited for in vain
		sort.SliceStable(run, func(i, j int) bool { return run[i].blockN < run[j].blockN })
		t := run[s.r.N(len(run))]
		if t != s.cur {
			s.r.Switches++
		}
		s.cur = t
		if s.quantum != nil {
			q := s.quantum()
			if steps > 300_000 { // very many tasks: larger steps, or they do not come to an end
				q *= 64
			}
			hook.Arm(s.switchOut, q)
		}
		before, blocked := hook.Steps(), t.blockN
		hook.HideBegin()
		t.resume <- struct{}{}
		<-s.park
		hook.HideEnd()
		hook.Disarm()
		if t.done || hook.Steps() != before || t.blockN <= blocked {
			// something has happened: whoever waits for a lock may get it now
			now := 0
			if !t.done && t.blockN > blocked {
				now = 1
			}
			for _, u := range s.tasks {
				u.blockN = 0
			}
			t.blockN = now
		}
		s.r.hash = Mix(s.r.hash, uint64(len(t.Name)), hook.Steps())
		if t.viol != nil || t.boom != nil {
			break
		}
		if t.blockN > 0 && s.allBlocked() {
			for _, t := range s.tasks {
				if !t.done {
					stuck = append(stuck, t.Name+" (waiting for a lock)")
				}
			}
			break
		}
	}
	// end whatever is left, then join
	s.stop = true
	for _, t := range s.tasks {
		if !t.done {
			s.cur = t
			hook.HideBegin()
			t.resume <- struct{}{}
			<-s.park
			hook.HideEnd()
		}
	}
	s.wg.Wait()
	s.r.SimNs += s.now
	for _, t := range s.tasks {
		if t.viol != nil {
			panic(*t.viol)
		}
	}
	for _, t := range s.tasks {
		if t.boom != nil {
			panic(t.boom)
		}
	}
	return stuck
}

//go:norace
func (s *Sched) allBlocked() bool {
	for _, t := range s.tasks {
		if t.done || t.blockN >= 3 {
			continue
		}
		if t.cond != nil && len(s.events) == 0 && !t.cond() {
			continue // only another task could make it go on
		}
		return false
	}
	return true
}

//go:norace
func (s *Sched) runnable() (run []*Task, alive bool) {
	for _, t := range s.tasks {
		if t.done {
			continue
		}
		alive = true
		if t.cond != nil {
			if !t.cond() {
				continue
			}
			t.cond = nil
		}
		run = append(run, t)
	}
	return
}
