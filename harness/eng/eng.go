// Package eng is the exploration engine: it drives the real code and the
// reference model in lockstep through every behaviour within given bounds.
//
//   - DFS: stateless, all operation sequences of a length (no state matching,
//     so that hidden states of the implementation cannot be missed);
//   - BFS: explicit-state, with state matching on a canonical form of the
//     implementation's and the model's state, up to a fixpoint or a bound;
//   - Enum: all members of a finite, indexed input space.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/maphash"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Op is one operation on the world (implementation + model).
type Op[W any] struct {
	Name string
	Do   func(w *W) error
	En   func(w *W) bool // optional: enabled?
}

// Sys is a transition system to be explored.
type Sys[W any] struct {
	Name string
	New  func() *W
	Ops  []Op[W]
	Obs  func(w *W) error  // checked after every operation
	Key  func(w *W) string // canonical state, for BFS
	Fin  func(w *W)        // cleanup
	Wrap func(body func()) // optional: every execution runs within this
}

// Trace identifies one explored behaviour.
type Trace struct {
	Property string   `json:"property"`
	Sys      string   `json:"sys"`
	Ops      []int    `json:"ops"`
	Names    []string `json:"names,omitempty"`
	Message  string   `json:"message,omitempty"`
	Repro    string   `json:"reproduced,omitempty"`
}

type sysStat struct {
	Name        string `json:"name"`
	Mode        string `json:"mode"`
	Ops         int    `json:"ops,omitempty"`
	Depth       int    `json:"depth,omitempty"`
	States      int64  `json:"states"`
	Transitions int64  `json:"transitions"`
	Traces      int64  `json:"traces"`
	Complete    bool   `json:"complete"`
	Fixpoint    bool   `json:"fixpoint,omitempty"`
}

const slotSize = 4096

// Ctx is the context of one run of one check.
type Ctx struct {
	Property string
	Thorough bool
	Workers  int
	Deadline time.Time
	Replay   *Trace            // replay this only
	ReplayOK bool              // the replayed trace was found and run
	Known    map[string]string // the open entries of the known-findings file

	mu          sync.Mutex
	violation   *Trace
	stop        atomic.Bool
	Stats       []*sysStat
	Samples     []any
	Assumptions []string
	incomplete  atomic.Bool
	serial      bool

	beats []atomic.Int64
	busy  []atomic.Bool
	shm   []byte
}

// NewCtx makes a context; crumbs is the path of the file for crash breadcrumbs.
func NewCtx(property string, thorough bool, crumbs string, deadline time.Time) *Ctx {
	c := &Ctx{Property: property, Thorough: thorough, Workers: runtime.NumCPU(), Deadline: deadline}
	c.beats = make([]atomic.Int64, c.Workers)
	c.busy = make([]atomic.Bool, c.Workers)
	if crumbs != "" {
		if f, err := os.OpenFile(crumbs, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644); err == nil {
			_ = f.Truncate(int64(slotSize * c.Workers))
			if b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*c.Workers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED); err == nil {
				c.shm = b
			}
			_ = f.Close()
		}
	}
	go c.watchdog()
	return c
}

// HangAfter is the time without any progress of a worker which counts as a hang.
var HangAfter = 40 * time.Second

func (c *Ctx) watchdog() {
	last := make([]int64, c.Workers)
	since := make([]time.Time, c.Workers)
	for i := range since {
		since[i] = time.Now()
	}
	for {
		time.Sleep(500 * time.Millisecond)
		for i := range last {
			if n := c.beats[i].Load(); n != last[i] || !c.busy[i].Load() {
				last[i], since[i] = n, time.Now()
			} else if time.Since(since[i]) > HangAfter {
				fmt.Printf("HANG worker=%d\n", i)
				os.Exit(77)
			}
		}
	}
}

func (c *Ctx) crumb(worker int, sys string, ops []int, busy bool) {
	c.beats[worker].Add(1)
	c.busy[worker].Store(busy)
	if c.shm == nil {
		return
	}
	b := c.shm[worker*slotSize : (worker+1)*slotSize]
	if !busy {
		b[0] = 0
		return
	}
	// sys '\n' op op op '\n' 0
	n := 1
	n += copy(b[n:256], sys)
	b[n] = '\n'
	n++
	for _, o := range ops {
		if n > slotSize-16 {
			break
		}
		n += putInt(b[n:], o)
		b[n] = ' '
		n++
	}
	b[n] = 0
	b[0] = 1
}

func putInt(b []byte, v int) int {
	if v == 0 {
		b[0] = '0'
		return 1
	}
	var t [20]byte
	i := len(t)
	for v > 0 {
		i--
		t[i] = byte('0' + v%10)
		v /= 10
	}
	return copy(b, t[i:])
}

// Expired tells whether the time budget of the run is used up.
func (c *Ctx) Expired() bool { return time.Now().After(c.Deadline) }

// Violation returns the violation found, if any.
func (c *Ctx) Violation() *Trace {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.violation
}

// Stopped tells whether a violation was found already.
func (c *Ctx) Stopped() bool { return c.stop.Load() }

// Exhaustive tells whether all of the spaces were enumerated completely.
func (c *Ctx) Exhaustive() bool { return !c.incomplete.Load() }

func (c *Ctx) report(t *Trace) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.violation == nil {
		c.violation = t
	}
	c.stop.Store(true)
}

// Report records a violation of a special purpose exploration.
func (c *Ctx) Report(sys string, ops []int, names []string, msg string) {
	c.report(&Trace{Property: c.Property, Sys: sys, Ops: ops, Names: names, Message: msg})
}

// Incomplete marks the exploration as not exhaustive.
func (c *Ctx) Incomplete() { c.incomplete.Store(true) }

// AddStat adds the statistics of a special purpose exploration.
func (c *Ctx) AddStat(name, mode string, states, transitions, traces int64, complete bool) {
	c.mu.Lock()
	c.Stats = append(c.Stats, &sysStat{Name: name, Mode: mode, States: states, Transitions: transitions, Traces: traces, Complete: complete})
	c.mu.Unlock()
	if !complete {
		c.incomplete.Store(true)
	}
}

// Sample records a sample for evidence.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.Samples) < 24 {
		c.Samples = append(c.Samples, v)
	}
	c.mu.Unlock()
}

func guard(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i > 0 {
				st = st[i:]
			}
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", e, st)
		}
	}()
	return f()
}

// run executes a whole trace, with an observation after every op from obsFrom on.
// It returns the position of the failing op, or -1.
func (s *Sys[W]) run(ops []int, obsFrom int, key *string) (at int, err error) {
	if s.Wrap == nil {
		return s.run1(ops, obsFrom, key)
	}
	if e := guard(func() error {
		s.Wrap(func() { at, err = s.run1(ops, obsFrom, key) })
		return nil
	}); e != nil && err == nil {
		at, err = len(ops)-1, e
	}
	return
}

func (s *Sys[W]) run1(ops []int, obsFrom int, key *string) (at int, err error) {
	var w *W
	if err = guard(func() error { w = s.New(); return nil }); err != nil {
		return 0, err
	}
	if s.Fin != nil {
		defer func() {
			if e := guard(func() error { s.Fin(w); return nil }); e != nil && err == nil {
				at, err = len(ops)-1, e
			}
		}()
	}
	for i, o := range ops {
		if e := guard(func() error {
			if s.Ops[o].En != nil && !s.Ops[o].En(w) {
				return errDisabled
			}
			if err := s.Ops[o].Do(w); err != nil {
				return err
			}
			if i >= obsFrom && s.Obs != nil {
				return s.Obs(w)
			}
			return nil
		}); e != nil {
			return i, e
		}
	}
	if key != nil {
		if e := guard(func() error { *key = s.Key(w); return nil }); e != nil {
			return len(ops) - 1, e
		}
	}
	return -1, nil
}

var errDisabled = fmt.Errorf("disabled")

func (s *Sys[W]) names(ops []int) (ret []string) {
	for _, o := range ops {
		ret = append(ret, s.Ops[o].Name)
	}
	return
}

// fail shrinks a failing trace, re-runs it and records the violation.
func (s *Sys[W]) fail(c *Ctx, ops []int, err error) {
	if c.stop.Load() {
		return
	}
	cur := append([]int(nil), ops...)
	msg := err.Error()
	again := func(t []int) (bool, []int, string) {
		for k := 0; k < 3; k++ {
			if at, e := s.run(t, 0, nil); e != nil && e != errDisabled {
				return true, t[:at+1], e.Error()
			}
		}
		return false, nil, ""
	}
	repro := 0
	for k := 0; k < 5; k++ {
		if at, e := s.run(cur, 0, nil); e != nil && e != errDisabled {
			repro++
			cur = cur[:at+1]
			msg = e.Error()
		}
	}
	if repro > 0 {
		for changed := true; changed; {
			changed = false
			for i := range cur {
				t := append(append([]int(nil), cur[:i]...), cur[i+1:]...)
				if ok, tt, m := again(t); ok {
					cur, msg, changed = append([]int(nil), tt...), m, true
					break
				}
			}
		}
	}
	c.report(&Trace{Property: c.Property, Sys: s.Name, Ops: cur, Names: s.names(cur), Message: msg, Repro: fmt.Sprintf("%d/5", repro)})
}

func (s *Sys[W]) replay(c *Ctx) bool {
	if c.Replay == nil {
		return false
	}
	if c.Replay.Sys == s.Name && !c.ReplayOK {
		c.ReplayOK = true
		for k := 0; k < 20 && !c.stop.Load(); k++ {
			c.crumb(0, s.Name, c.Replay.Ops, true)
			if at, err := s.run(c.Replay.Ops, 0, nil); err != nil && err != errDisabled {
				c.report(&Trace{Property: c.Property, Sys: s.Name, Ops: c.Replay.Ops[:at+1], Names: s.names(c.Replay.Ops[:at+1]), Message: err.Error()})
			}
		}
		c.crumb(0, "", nil, false)
	}
	return true
}

func (c *Ctx) parallel(n int, f func(worker, task int) bool) (complete bool) {
	workers := c.Workers
	if c.serial {
		workers = 1
	}
	var next atomic.Int64
	var cut atomic.Bool
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer c.crumb(k, "", nil, false)
			for {
				t := int(next.Add(1) - 1)
				if t >= n || c.stop.Load() {
					return
				}
				if c.Expired() {
					cut.Store(true)
					return
				}
				if !f(k, t) {
					cut.Store(true)
					return
				}
			}
		}()
	}
	wg.Wait()
	return !cut.Load()
}

// Serial runs f with one worker only (for systems with process wide states).
func (c *Ctx) Serial(f func()) {
	c.serial = true
	defer func() { c.serial = false }()
	f()
}

// DFS explores all operation sequences of the given length.
func DFS[W any](c *Ctx, s *Sys[W], depth int) {
	if s.replay(c) || c.stop.Load() {
		return
	}
	n := len(s.Ops)
	pre := 1
	total := n
	for pre < depth && pre < 3 && total < 64 {
		pre++
		total *= n
	}
	if depth < pre {
		pre = depth
	}
	st := &sysStat{Name: s.Name, Mode: "dfs", Ops: n, Depth: depth}
	var traces, trans atomic.Int64
	complete := c.parallel(total, func(worker, task int) bool {
		ops := make([]int, depth)
		t := task
		for i := pre - 1; i >= 0; i-- {
			ops[i] = t % n
			t /= n
		}
		from := 0
		var lt, ltr int64
		defer func() { traces.Add(lt); trans.Add(ltr) }()
		for {
			c.crumb(worker, s.Name, ops, true)
			at, err := s.run(ops, from, nil)
			adv := depth - 1
			if err == errDisabled {
				// skip all sequences with this prefix
				adv = at
				ltr += int64(max(at-from, 0))
				for i := at + 1; i < depth; i++ {
					ops[i] = 0
				}
			} else if err != nil {
				s.fail(c, ops[:at+1], err)
				return true
			} else {
				lt++
				ltr += int64(depth - from)
			}
			// next sequence
			i := adv
			for i >= pre {
				ops[i]++
				if ops[i] < n {
					break
				}
				ops[i] = 0
				i--
			}
			if i < pre {
				return true
			}
			from = i
			if c.stop.Load() {
				return true
			}
			if lt&63 == 0 && c.Expired() {
				return false
			}
		}
	})
	st.Traces, st.Transitions, st.Complete = traces.Load(), trans.Load(), complete
	c.mu.Lock()
	c.Stats = append(c.Stats, st)
	c.mu.Unlock()
	if !complete {
		c.incomplete.Store(true)
	}
	ops := make([]int, depth)
	for i := range ops {
		ops[i] = (i*7 + 1) % n
	}
	c.Sample(map[string]any{"sys": s.Name, "mode": "dfs", "trace": s.names(ops)})
}

var seed = maphash.MakeSeed()

type h128 [2]uint64

func hash(s string) h128 {
	return h128{maphash.String(seed, s), maphash.String(seed, s+"\x00#")}
}

type shard struct {
	mu sync.Mutex
	m  map[h128]struct{}
}

// BFS explores the reachable states up to maxDepth operations (0: until the fixpoint)
// or until maxStates states are known.
func BFS[W any](c *Ctx, s *Sys[W], maxDepth, maxStates int) {
	if s.replay(c) || c.stop.Load() {
		return
	}
	st := &sysStat{Name: s.Name, Mode: "bfs", Ops: len(s.Ops)}
	var shards [64]shard
	for i := range shards {
		shards[i].m = make(map[h128]struct{})
	}
	var states, trans, leafs atomic.Int64
	add := func(k string) bool {
		h := hash(k)
		sh := &shards[h[0]&63]
		sh.mu.Lock()
		defer sh.mu.Unlock()
		if _, ok := sh.m[h]; ok {
			return false
		}
		sh.m[h] = struct{}{}
		states.Add(1)
		return true
	}
	var k0 string
	if _, err := s.run(nil, 0, &k0); err != nil {
		s.fail(c, nil, err)
		return
	}
	add(k0)
	frontier := [][]uint16{nil}
	complete, fix := true, false
	depth := 0
	var deepest []uint16
	for len(frontier) > 0 && complete && !c.stop.Load() {
		if maxDepth > 0 && depth >= maxDepth {
			break
		}
		var mu sync.Mutex
		var next [][]uint16
		chunk := 16
		complete = c.parallel((len(frontier)+chunk-1)/chunk, func(worker, task int) bool {
			var found [][]uint16
			for f := task * chunk; f < len(frontier) && f < (task+1)*chunk; f++ {
				base := frontier[f]
				ops := make([]int, len(base)+1)
				for i, o := range base {
					ops[i] = int(o)
				}
				known := len(found)
				for o := range s.Ops {
					ops[len(base)] = o
					c.crumb(worker, s.Name, ops, true)
					var key string
					_, err := s.run(ops, len(base), &key)
					if err == errDisabled {
						continue
					}
					if err != nil {
						s.fail(c, ops, err)
						return true
					}
					trans.Add(1)
					if add(key) {
						t := make([]uint16, len(ops))
						for i, o := range ops {
							t[i] = uint16(o)
						}
						found = append(found, t)
					}
				}
				if len(found) == known {
					leafs.Add(1) // a maximal trace in the search tree
				}
				if c.stop.Load() {
					return true
				}
				if c.Expired() || int(states.Load()) > maxStates {
					return false
				}
			}
			mu.Lock()
			next = append(next, found...)
			mu.Unlock()
			return true
		})
		frontier = next
		if len(frontier) > 0 {
			deepest = frontier[len(frontier)-1]
		}
		depth++
		if len(frontier) == 0 && complete {
			fix = true
		}
	}
	st.Depth, st.States, st.Transitions, st.Complete, st.Fixpoint = depth, states.Load(), trans.Load(), complete, fix
	st.Traces = leafs.Load()
	c.mu.Lock()
	c.Stats = append(c.Stats, st)
	c.mu.Unlock()
	if !complete {
		c.incomplete.Store(true)
	}
	ops := make([]int, len(deepest))
	for i, o := range deepest {
		ops[i] = int(o)
	}
	c.Sample(map[string]any{"sys": s.Name, "mode": "bfs", "trace": s.names(ops)})
}

// Enum checks all members of an input space of n members. f returns the number
// of operations which it executed on the implementation.
func Enum(c *Ctx, name string, n int, desc func(i int) string, f func(i int) (int, error)) {
	one := func(i int) (steps int, err error) {
		err = guard(func() (e error) { steps, e = f(i); return })
		return
	}
	if c.Replay != nil {
		if c.Replay.Sys == name && !c.ReplayOK && len(c.Replay.Ops) == 1 {
			c.ReplayOK = true
			i := c.Replay.Ops[0]
			for k := 0; k < 20 && !c.stop.Load(); k++ {
				c.crumb(0, name, []int{i}, true)
				if _, err := one(i); err != nil {
					c.report(&Trace{Property: c.Property, Sys: name, Ops: []int{i}, Names: []string{desc(i)}, Message: err.Error()})
				}
			}
			c.crumb(0, "", nil, false)
		}
		return
	}
	if c.stop.Load() || n == 0 {
		return
	}
	var done, steps atomic.Int64
	var dmu sync.Mutex
	distinct := make(map[h128]struct{})
	const chunk = 8
	complete := c.parallel((n+chunk-1)/chunk, func(worker, task int) bool {
		for i := task * chunk; i < n && i < (task+1)*chunk; i++ {
			c.crumb(worker, name, []int{i}, true)
			n, err := one(i)
			h := hash(desc(i))
			dmu.Lock()
			distinct[h] = struct{}{}
			dmu.Unlock()
			steps.Add(int64(n))
			if err != nil {
				if !c.stop.Load() {
					repro := 0
					for k := 0; k < 5; k++ {
						if _, e := one(i); e != nil {
							repro++
						}
					}
					c.report(&Trace{Property: c.Property, Sys: name, Ops: []int{i}, Names: []string{desc(i)}, Message: err.Error(), Repro: fmt.Sprintf("%d/5", repro)})
				}
				return true
			}
			done.Add(1)
			if c.stop.Load() {
				return true
			}
			if c.Expired() {
				return false
			}
		}
		return true
	})
	c.mu.Lock()
	c.Stats = append(c.Stats, &sysStat{Name: name, Mode: "enum", Ops: n, States: int64(len(distinct)), Transitions: steps.Load(), Traces: done.Load(), Complete: complete})
	c.mu.Unlock()
	if !complete {
		c.incomplete.Store(true)
	}
	for _, i := range []int{0, n / 2, n - 1} {
		c.Sample(map[string]any{"sys": name, "mode": "enum", "case": desc(i)})
		if n < 3 {
			break
		}
	}
}

// Evidence builds the evidence document.
func (c *Ctx) Evidence(level string, seed int, wall float64) []byte {
	var states, trans, traces int64
	for _, s := range c.Stats {
		states += s.States
		trans += s.Transitions
		traces += s.Traces
	}
	tier := "quick"
	if c.Thorough {
		tier = "thorough"
	}
	v := 0
	if c.violation != nil {
		v = 1
	}
	samples := c.Samples
	if samples == nil {
		samples = []any{}
	}
	doc := map[string]any{
		"property": c.Property, "tier": tier, "seed": seed, "level": level, "wall_s": wall, "violations": v,
		"assumptions": c.Assumptions,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": traces,
			"exhaustive": c.Exhaustive(), "systems": c.Stats, "samples": samples,
			"explanation": "Every behaviour was executed on the real code rebuilt from /repo, in lockstep with the reference model. bfs: states are distinct canonical states (implementation structure + model), transitions are executed operations; dfs: all sequences of the given length without state matching (states are not matched, so not counted), transitions count the operations whose prefix had not been executed before; enum: all members of an indexed input space, states are the distinct members, transitions are the operations executed. traces: complete dfs sequences + enum members + maximal paths of the bfs tree.",
		},
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	return b
}
