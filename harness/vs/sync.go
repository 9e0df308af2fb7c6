package vs

import (
	"runtime"
	"sync"
)

type (
	// WaitGroup and the following ones are those of sync.
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

// Mutex is a sync.Mutex.
type Mutex struct {
	held bool
	sem  byte
}

//go:norace
func (m *Mutex) Lock() {
	P()
	for m.held {
		if on {
			threads[cur].m = m
			block()
			threads[cur].m = nil
		} else {
			runtime.Gosched()
		}
	}
	m.held = true
	acquire(&m.sem)
}

//go:norace
func (m *Mutex) TryLock() bool {
	P()
	if m.held {
		return false
	}
	m.held = true
	acquire(&m.sem)
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	release(&m.sem)
	m.held = false
	P()
}

// RWMutex is a sync.RWMutex: a waiting writer holds off new readers, and
// the readers which wait for a writer go first when it is done.
type RWMutex struct {
	w       bool // a writer holds it, or waits for the readers
	wheld   bool
	readers int
	waiting int
	rsem    byte
	wsem    byte
}

//go:norace
func (m *RWMutex) RLock() {
	P()
	if m.w {
		if on {
			t := &threads[cur]
			t.rw, t.kind, t.granted = m, 'r', false
			m.waiting++
			block()
			t.rw = nil
			acquire(&m.rsem)
			return
		}
		for m.w {
			runtime.Gosched()
		}
	}
	m.readers++
	acquire(&m.rsem)
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	P()
	if m.w {
		return false
	}
	m.readers++
	acquire(&m.rsem)
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(&m.wsem)
	m.readers--
	P()
}

//go:norace
func (m *RWMutex) Lock() {
	P()
	for m.w {
		if on {
			t := &threads[cur]
			t.rw, t.kind = m, 'w'
			block()
			threads[cur].rw = nil
		} else {
			runtime.Gosched()
		}
	}
	m.w = true
	for m.readers > 0 {
		if on {
			t := &threads[cur]
			t.rw, t.kind = m, 'W'
			block()
			threads[cur].rw = nil
		} else {
			runtime.Gosched()
		}
	}
	m.wheld = true
	acquire(&m.rsem)
	acquire(&m.wsem)
}

//go:norace
func (m *RWMutex) TryLock() bool {
	P()
	if m.w || m.readers > 0 {
		return false
	}
	m.w, m.wheld = true, true
	acquire(&m.rsem)
	acquire(&m.wsem)
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.wheld {
		panic("sync: Unlock of unlocked RWMutex")
	}
	release(&m.rsem)
	m.w, m.wheld = false, false
	for i := 0; i < nthreads; i++ {
		if t := &threads[i]; t.rw == m && t.kind == 'r' && !t.granted {
			t.granted = true
			m.readers++
		}
	}
	m.waiting = 0
	P()
}

// RLocker is that of sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a sync.Once.
type Once struct {
	m    Mutex
	done bool
	sem  byte
}

//go:norace
func (o *Once) Do(f func()) {
	P()
	if o.done {
		acquire(&o.sem)
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	release(&o.sem)
	o.done = true
}

// Pool is a sync.Pool which keeps everything, the last one put is the next one got.
type Pool struct {
	New func() any
	x   [64]any
	sem [64]byte
	n   int
	gen int
}

//go:norace
func (p *Pool) sync() {
	if p.gen != gen {
		p.gen, p.n = gen, 0
	}
}

//go:norace
func (p *Pool) Get() any {
	P()
	p.sync()
	if p.n > 0 {
		p.n--
		acquire(&p.sem[p.n])
		x := p.x[p.n]
		p.x[p.n] = nil
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x any) {
	P()
	p.sync()
	if x == nil || p.n == len(p.x) {
		return
	}
	p.x[p.n] = x
	releaseMerge(&p.sem[p.n])
	p.n++
}
