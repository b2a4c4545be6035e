// Package rt is the part of the simulator the instrumented code calls: S() in
// front of every statement of the code under test. It counts steps (bounded
// progress), and decides which caller task runs next.
package rt

import (
	"runtime"
	"sync"
)

// StepLimit is the panic value raised when a run exceeds its step budget.
type StepLimit struct{}

// Crashed is the panic value that unwinds a process that was killed.
type Crashed struct{}

var (
	steps  int
	limit  int
	active bool
	dead   bool
	multi  *Sched
	owner  uint64 // the goroutine the simulated process was started on
)

// Begin starts counting steps for a run with the given budget.
//
//go:norace
func Begin(budget int) {
	steps, limit, active, dead = 0, budget, true, false
	owner = runtime.SimGoid()
}

// Foreign says whether the caller is a goroutine that the code under test
// started itself. Nobody catches a panic there: when the process is killed its
// system calls just fail until the others are gone.
//
//go:norace
func Foreign() bool {
	g := runtime.SimGoid()
	if g == owner {
		return false
	}
	if multi != nil {
		for _, t := range multi.tasks {
			if t.goid == g {
				return false
			}
		}
	}
	return true
}

// Allow raises the budget: the code under test has got somewhere.
//
//go:norace
func Allow(n int) { limit += n }

// End stops counting and returns the number of steps taken.
//
//go:norace
func End() int { active = false; dead = false; return steps }

// Steps returns the steps taken so far.
//
//go:norace
func Steps() int { return steps }

// Kill marks the simulated process as dead: no further statement of it runs.
//
//go:norace
func Kill() { dead = true }

// Dead reports whether the simulated process was killed.
//
//go:norace
func Dead() bool { return dead }

// S is a step of the code under test.
//
//go:norace
func S() {
	if !active {
		return
	}
	if dead {
		if Foreign() {
			return
		}
		panic(Crashed{})
	}
	steps++
	if steps > limit {
		panic(StepLimit{})
	}
	if multi != nil {
		multi.step()
	}
}

// Yield is a scheduling point outside the code under test (a read, a system
// call).
//
//go:norace
func Yield() {
	if active && multi != nil && !dead {
		multi.step()
	}
}

// Block is called when the running task cannot go on (a lock is held). Another
// task must run. It panics when there is none.
//
//go:norace
func Block() {
	if multi == nil || !active {
		runtime.Gosched()
		return
	}
	multi.block()
}

// Switch is one scheduling decision: after the At'th scheduling point of the
// run, hand over to the To'th live task (modulo their number).
type Switch struct{ At, To int }

type task struct {
	goid uint64
	wake chan struct{}
	done bool
	on   bool // its own stream of random numbers
	rand uint64
}

// Sched runs several tasks, exactly one at a time, and switches between them
// only where the plan says so.
type Sched struct {
	plan   []Switch
	next   int
	points int
	tasks  []*task
	cur    int
	main   chan struct{}
	blocks int
	since  int
	wg     sync.WaitGroup

	// Every, if not 0, hands over to the next task after so many scheduling
	// points without a switch.
	Every int
	Trace []int // task that ran after each switch
}

// Deadlock is raised when every task is blocked.
type Deadlock struct{}

// Run executes the functions as tasks under the given switch plan. Each task
// draws its random numbers from its own seed.
//
//go:norace
func Run(plan []Switch, every int, seed uint64, fns []func()) *Sched {
	s := &Sched{plan: plan, Every: every, main: make(chan struct{}), Trace: make([]int, 0, 1024)}
	for i := range fns {
		s.tasks = append(s.tasks, &task{wake: make(chan struct{}), on: true, rand: TaskSeed(seed, i)})
	}
	s.wg.Add(len(fns))
	for i, fn := range fns {
		t := s.tasks[i]
		go taskMain(s, t, fn)
	}
	multi = s
	s.cur = 0
	on, state := runtime.SimRandState()
	runtime.SimRand(s.tasks[0].on, s.tasks[0].rand)
	s.handoff(s.tasks[0].wake, s.main)
	multi = nil
	runtime.SimRand(on, state)
	s.wg.Wait() // what the tasks did happened before this, for the race detector too
	return s
}

// SameSeeds makes all tasks draw the same random numbers.
var SameSeeds bool

// TaskSeed is the seed of the random numbers of a task.
func TaskSeed(seed uint64, i int) uint64 {
	if SameSeeds {
		i = 0
	}
	return seed ^ uint64(i+1)*0x9e3779b97f4a7c15
}

// to makes another task the current one.
//
//go:norace
func (s *Sched) to(j int) {
	me := s.tasks[s.cur]
	me.on, me.rand = runtime.SimRandState()
	s.cur = j
	s.since = 0
	if len(s.Trace) < cap(s.Trace) {
		s.Trace = append(s.Trace, s.points<<4|j)
	}
	runtime.SimRand(s.tasks[j].on, s.tasks[j].rand)
}

// Points returns how many scheduling points the run passed.
func (s *Sched) Points() int { return s.points }

//go:norace
func taskMain(s *Sched, t *task, fn func()) {
	raceOff()
	<-t.wake
	raceOn()
	t.goid = runtime.SimGoid()
	fn()
	t.done = true
	s.wg.Done()
	for i := range s.tasks {
		j := (s.cur + 1 + i) % len(s.tasks)
		if !s.tasks[j].done {
			s.to(j)
			w := s.tasks[j].wake
			raceOff()
			w <- struct{}{}
			raceOn()
			return
		}
	}
	raceOff()
	s.main <- struct{}{}
	raceOn()
}

// handoff passes the baton. The synchronisation is hidden from the race
// detector, so that the only happens-before edges it sees are the ones the
// code under test makes.
//
//go:norace
func (s *Sched) handoff(to, wait chan struct{}) {
	raceOff()
	to <- struct{}{}
	<-wait
	raceOn()
}

//go:norace
func (s *Sched) step() {
	t := s.tasks[s.cur]
	if t.goid != runtime.SimGoid() {
		return // a goroutine the code under test started itself
	}
	s.points++
	s.blocks = 0
	if s.next < len(s.plan) && s.points >= s.plan[s.next].At {
		to := s.plan[s.next].To
		s.next++
		s.switchTo(to)
		return
	}
	if s.since++; s.Every > 0 && s.since >= s.Every {
		s.since = 0
		s.after()
	}
}

// after hands over to the next live task.
//
//go:norace
func (s *Sched) after() {
	for i := range s.tasks {
		j := (s.cur + 1 + i) % len(s.tasks)
		if !s.tasks[j].done && j != s.cur {
			me := s.tasks[s.cur]
			s.to(j)
			s.handoff(s.tasks[j].wake, me.wake)
			return
		}
	}
}

//go:norace
func (s *Sched) switchTo(to int) {
	live := 0
	for _, t := range s.tasks {
		if !t.done {
			live++
		}
	}
	if to < 0 {
		to = -to
	}
	to %= live
	for i, t := range s.tasks {
		if t.done {
			continue
		}
		if to == 0 {
			to = i
			break
		}
		to--
	}
	if to == s.cur {
		return
	}
	me := s.tasks[s.cur]
	s.to(to)
	s.handoff(s.tasks[to].wake, me.wake)
	if dead {
		panic(Crashed{})
	}
}

//go:norace
func (s *Sched) block() {
	s.blocks++
	live := 0
	for _, t := range s.tasks {
		if !t.done {
			live++
		}
	}
	if s.blocks > 4*live {
		panic(Deadlock{})
	}
	if s.tasks[s.cur].goid != runtime.SimGoid() {
		runtime.Gosched()
		return
	}
	s.after()
}
