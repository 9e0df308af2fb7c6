// Package vs is a controlled scheduler. The instrumented copy of the code
// under test calls P at every point where a thread may be preempted, and
// uses the locks and pools of this package in place of those of sync.
//
// Exactly one thread runs at a time (the process runs with GOMAXPROCS=1).
// The hand-over from one thread to the next is hidden from the race
// detector, so that two accesses are ordered for it only if the code under
// test orders them by its own locks.
package vs

const (
	maxThreads = 6
	// MaxSteps bounds one execution.
	MaxSteps = 1 << 16
	spin     = 20000 // steps in a row after which the thread gives way
)

type thread struct {
	wake    chan struct{}
	parked  int  // goroutines of this thread which wait for wake
	live    bool // started and not ended
	m       *Mutex
	rw      *RWMutex
	kind    byte // 'r', 'w' (not the only writer), 'W' (waits for the readers)
	granted bool
}

// Pt is a scheduling point which was passed.
type Pt struct {
	Alt    uint8 // the other threads which could run there
	Thread uint8
	Forced bool // the running thread blocked or ended
}

// FPt is a forced scheduling point.
type FPt struct {
	Step int
	Alt  uint8
}

var (
	on       bool
	rec      bool
	cur      int
	nthreads int
	threads  [maxThreads]thread
	step     int
	row      int
	nextStep int
	at       int
	plan     []int // step, thread, step, thread, ...
	pts      [MaxSteps]Pt
	fpts     [4096]FPt // the forced ones
	nf       int
	dead     bool
	gen      int
	mainCh   chan struct{}
)

// P is a preemption point.
//
//go:norace
func P() {
	if !on {
		return
	}
	point()
}

//go:norace
func point() {
	s := step
	step++
	row++
	if rec && s < MaxSteps {
		pts[s] = Pt{Alt: alternatives(cur), Thread: uint8(cur)}
	}
	if s == nextStep {
		to := plan[at+1]
		advance()
		if to != cur && to < nthreads && enabled(to) {
			switchTo(to, true)
		}
	} else if row > spin {
		for i := 1; i < nthreads; i++ {
			if to := (cur + i) % nthreads; enabled(to) {
				switchTo(to, true)
				return
			}
		}
		row = 0
	}
}

//go:norace
func advance() {
	at += 2
	if at+1 < len(plan) {
		nextStep = plan[at]
	} else {
		nextStep = -1
	}
}

//go:norace
func enabled(i int) bool {
	t := &threads[i]
	if !t.live {
		return false
	}
	switch {
	case t.m != nil:
		return !t.m.held
	case t.rw != nil:
		switch t.kind {
		case 'r':
			return t.granted
		case 'w':
			return !t.rw.w
		default:
			return t.rw.readers == 0
		}
	}
	return true
}

//go:norace
func alternatives(self int) (mask uint8) {
	for i := 0; i < nthreads; i++ {
		if i != self && enabled(i) {
			mask |= 1 << i
		}
	}
	return
}

// switchTo hands the control over; the calling goroutine waits for its turn.
//
//go:norace
func switchTo(to int, wait bool) {
	self := cur
	cur, row = to, 0
	raceOff()
	t := &threads[to]
	n := t.parked
	t.parked = 0
	if wait {
		threads[self].parked++
	}
	for ; n > 0; n-- {
		t.wake <- struct{}{}
	}
	if wait {
		<-threads[self].wake
	}
	raceOn()
}

// forced picks another thread at a point where the current one can't go on.
//
//go:norace
func forced(self int, wait bool) {
	mask := alternatives(self)
	s := step
	step++
	note(s, mask, self)
	to := -1
	for i := 0; i < nthreads && to < 0; i++ {
		if mask&(1<<i) != 0 {
			to = i
		}
	}
	if s == nextStep {
		if want := plan[at+1]; want < nthreads && mask&(1<<want) != 0 {
			to = want
		}
		advance()
	}
	if to < 0 {
		// nobody can run
		for i := 0; i < nthreads; i++ {
			if threads[i].live {
				dead = true
			}
		}
		raceOff()
		mainCh <- struct{}{}
		if wait {
			select {} // deadlock: the process is given up
		}
		raceOn()
		return
	}
	switchTo(to, wait)
}

//go:norace
func note(s int, mask uint8, self int) {
	if s < MaxSteps {
		pts[s] = Pt{Alt: mask, Thread: uint8(self), Forced: true}
	}
	if nf < len(fpts) {
		fpts[nf] = FPt{s, mask}
		nf++
	}
}

// block waits until the current thread is enabled again.
//
//go:norace
func block() {
	for !enabled(cur) {
		forced(cur, true)
	}
}

// Result of an execution.
type Result struct {
	Steps    int
	Deadlock bool
	Pts      []Pt  // if recorded
	Forced   []FPt // always
}

// Run executes the threads by the plan: at step plan[2i] switch to thread plan[2i+1].
//
//go:norace
func Run(p []int, record bool, fs []func()) Result {
	nthreads = len(fs)
	plan, at, step, row, dead, rec = p, -2, 0, 0, false, record
	advance()
	mainCh = make(chan struct{}, 1)
	fin := make(chan struct{}, len(fs))
	for i := range fs {
		threads[i] = thread{wake: make(chan struct{}, 64), parked: 1, live: true}
	}
	for i, f := range fs {
		go body(i, f, fin)
	}
	on = true
	cur = -1
	// the first thread is a choice, too
	first(nthreads)
	raceOff()
	<-mainCh
	raceOn()
	on = false
	r := Result{Steps: min(step, MaxSteps), Deadlock: dead, Pts: pts[:min(step, MaxSteps)], Forced: fpts[:nf]}
	if !dead {
		for range fs {
			<-fin // orders the results before the end, for the race detector, too
		}
	}
	return r
}

//go:norace
func first(n int) {
	to := 0
	nf = 0
	note(0, uint8(1<<n-1), 0xff)
	if nextStep == 0 {
		to = plan[at+1]
		advance()
	}
	step = 1
	cur, row = to, 0
	raceOff()
	t := &threads[to]
	t.parked = 0
	t.wake <- struct{}{}
	raceOn()
}

//go:norace
func body(i int, f func(), fin chan struct{}) {
	raceOff()
	<-threads[i].wake
	raceOn()
	f()
	fin <- struct{}{}
	threads[i].live = false
	forced(i, false)
}

// Reset empties the pools.
//
//go:norace
func Reset() { gen++ }
