package main

import (
	"runtime"
	"time"
)

// Sched runs simulated tasks, each on a goroutine of its own, one at a time.
// At every yield point (a stream operation, or a step of an index search)
// the task hands control back to the scheduler, which draws from the run's
// tape who continues, and for how many yield points.
//
// Control passes through plain variables that only functions exempt from
// race instrumentation touch. It therefore creates no happens-before edges:
// under the race detector two accesses of different tasks that nothing in the
// code under test orders are reported, whatever order they were executed in.
type Sched struct {
	w     *World
	tasks []*task
	slots []slot
	abort bool
	cur   int
	// clock, where the run has one: advance lets virtual time pass when no
	// task can run, and returns false if nothing is left to happen.
	advance func() bool
	mixed   bool // a task was stuck: others went on meanwhile
}

type task struct {
	id   int
	wait func() bool // blocked until it returns true (never in race runs)
	done bool
	dead chan struct{}
	// tooLong: the task gave up because its run takes too many decisions.
	tooLong bool
	w       *World
}

type slot struct {
	grant   bool // may run
	parked  bool
	over    bool
	abort   bool
	quantum int
	_       [64]byte
}

//go:norace
//go:noinline
func (s *slot) granted() bool { return s.grant }

//go:norace
//go:noinline
func (s *slot) isParked() bool { return s.parked }

//go:norace
//go:noinline
func (s *slot) isOver() bool { return s.over }

//go:norace
//go:noinline
func (s *slot) isAbort() bool { return s.abort }

//go:norace
//go:noinline
func (s *slot) setAbort() { s.abort = true }

//go:norace
//go:noinline
func (s *slot) give(q int) { s.quantum = q; s.parked = false; s.grant = true }

//go:norace
//go:noinline
func (s *slot) park() { s.grant = false; s.parked = true }

//go:norace
//go:noinline
func (s *slot) finish() { s.grant = false; s.over = true; s.parked = true }

// spend uses up one yield point of the quantum and tells whether the task
// has to stop.
//
//go:norace
//go:noinline
func (s *slot) spend() bool {
	if s.quantum > 0 {
		s.quantum--
		return s.quantum == 0
	}
	return false
}

//go:norace
//go:noinline
func (s *Sched) setCur(i int) { s.cur = i }

//go:norace
//go:noinline
func (s *Sched) getCur() int { return s.cur }

//go:norace
//go:noinline
func (s *Sched) setMixed() { s.mixed = true }

//go:norace
//go:noinline
func (s *Sched) isMixed() bool { return s.mixed }

// yield is called by the running task.
func (s *Sched) yieldAs(i int) {
	if s.slots[i].spend() {
		s.stop(i)
	}
}

func (s *Sched) stop(i int) {
	sl := &s.slots[i]
	sl.park()
	for !sl.granted() {
		runtime.Gosched()
	}
	if sl.isAbort() {
		panic(abortTask{})
	}
}

// block parks the running task until cond holds.
func (s *Sched) block(i int, cond func() bool) {
	s.tasks[i].wait = cond
	s.stop(i)
}

// Run executes the bodies as tasks until all are finished. Each body gets
// its own world.
func (s *Sched) Run(worlds []*World, bodies []func(w *World)) {
	n := len(bodies)
	s.slots = make([]slot, n)
	for i := range bodies {
		tk := &task{id: i, w: worlds[i], dead: make(chan struct{})}
		s.tasks = append(s.tasks, tk)
	}
	for i := range bodies {
		i := i
		tk := s.tasks[i]
		tk.w.yield = func() { s.yieldAs(i) }
		s.slots[i].park()
		go func() {
			defer close(tk.dead)
			defer s.slots[i].finish()
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case abortTask:
					case tapeTooLong:
						tk.tooLong = true
					case *Violation:
						_ = x
					default:
						if tk.w.viol == nil {
							tk.w.viol = &Violation{Class: "panic", Msg: tk.w.call + ": " + sprint(r)}
						}
					}
				}
			}()
			for !s.slots[i].granted() {
				runtime.Gosched()
			}
			if s.slots[i].isAbort() {
				return
			}
			bodies[i](tk.w)
		}()
	}
	w := s.w
	stuck := make([]bool, n)
	var ready []int
	for {
		// Who can go on?
		ready = ready[:0]
		over := 0
		failed := false
		for i, tk := range s.tasks {
			if s.slots[i].isOver() {
				over++
				if !tk.done {
					tk.done = true
					<-tk.dead
					w.ev("task-over", int64(i), 0)
				}
				if tk.w.viol != nil && w.stopOnViol {
					failed = true
				}
				continue
			}
			if !s.slots[i].isParked() {
				continue // stuck in the code under test
			}
			stuck[i] = false
			if tk.wait != nil && !tk.wait() {
				continue
			}
			ready = append(ready, i)
		}
		if over == n {
			return
		}
		if failed || w.viol != nil {
			s.kill()
			return
		}
		if len(ready) == 0 {
			if s.advance != nil && s.advance() {
				continue
			}
			busy := false
			for i := range s.tasks {
				if stuck[i] {
					busy = true
				}
			}
			if busy {
				time.Sleep(time.Millisecond)
				w.steps++
				if w.steps > 3000 {
					w.viol = &Violation{Class: "deadlock", Msg: "all tasks are stuck in the code under test"}
					return
				}
				continue
			}
			for _, tk := range s.tasks {
				if tk.done && tk.tooLong { // nothing to conclude from
					s.kill()
					panic(tapeTooLong{})
				}
			}
			w.viol = &Violation{Class: "deadlock", Msg: "no task can continue"}
			s.kill()
			return
		}
		// 0, the simplest choice, is: the first task, to its end.
		i := ready[w.T.N(len(ready))]
		q := quanta[w.T.N(len(quanta))]
		w.sched = mix(w.sched ^ uint64(i)<<8 ^ uint64(q))
		w.switches++
		s.tasks[i].wait = nil
		s.setCur(i)
		s.slots[i].give(q)
		if !s.await(i) {
			stuck[i] = true
		}
	}
}

var quanta = []int{0, 1, 1, 1, 1, 2, 2, 3, 5, 9, 20}

// await waits until task i hands control back. All goroutines share one
// processor, so if giving way many thousand times does not bring that about,
// the task is not running but waits for something in the code under test,
// such as a lock which another task holds; others go on meanwhile.
func (s *Sched) await(i int) bool {
	for n := 1; !s.slots[i].isParked(); n++ {
		runtime.Gosched()
		if n > 20000 {
			s.setMixed()
			return false
		}
	}
	return true
}

func (s *Sched) kill() {
	for i, tk := range s.tasks {
		if tk.done || !s.slots[i].isParked() {
			continue
		}
		s.slots[i].setAbort()
		s.slots[i].give(0)
		if s.await(i) && s.slots[i].isOver() {
			<-tk.dead
			tk.done = true
		}
	}
}
