package checks

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C14", runC14,
		"testing/synctest: virtual time, the process is quiescent before every observation",
		"time-to-lives are due at different instants, and nobody else uses the store at that very moment (C24 covers readers)",
		"a time-to-live set by a view is cancelled by closing that view",
		"durations of less than a microsecond are not claimed")
}

type ttlJob struct {
	id      int
	due     time.Duration // since the start
	key     string        // leaf: the key, and its incarnation
	inc     int
	section string
	view    int
	act     string // what the callback does: "none" (no callback), "remove", "again"
	full    string
}

type ttlWorld struct {
	world
	views []store.Store
	start time.Time
	now   time.Duration
	seq   int
	inc   map[string]int // incarnation of a key: counts its creations
	jobs  []ttlJob
	fired []string // by the callbacks
	want  []string
	nodes map[string]radix.Node[any]
	ninc  map[string]int
}

func (w *ttlWorld) setK(k string) {
	w.step++
	n, _ := w.st.Set(k, w.step)
	if !w.r.isKey(k) {
		w.inc[k]++
	}
	w.r.set(k, w.step)
	w.r.m[k].mod = true
	w.nodes[k], w.ninc[k] = n, w.inc[k]
}

func (w *ttlWorld) ttl(view int, full, rel string, d time.Duration, fast bool, act ...string) error {
	w.seq++
	id := w.seq
	d += time.Duration(id) * time.Microsecond
	job := ttlJob{id: id, due: w.now + d, view: view, full: full}
	if len(act) > 0 {
		job.act = act[0]
	}
	want := 0
	wantKey := ""
	switch {
	case w.r.isKey(full):
		job.key, job.inc, wantKey = full, w.inc[full], full
	case w.r.isSection(full):
		job.section = full
	default:
		want = -1
	}
	cb := func(s *radix.TTL[any], nd radix.Node[any]) {
		k := "?"
		if nd != nil && (wantKey == "" || nd.Key() == wantKey) {
			k = wantKey
		}
		w.fired = append(w.fired, fmt.Sprintf("%d %q", id, k))
		switch job.act {
		case "remove":
			w.views[view].Remove(rel)
		case "again":
			w.views[view].SetTTL(rel, 7*time.Millisecond+time.Duration(id)*10*time.Microsecond, nil)
		}
	}
	if job.act == "none" {
		cb = nil
	}
	var got int
	if fast {
		job.key, job.inc, wantKey, want = full, w.ninc[full], full, 0
		job.section = ""
		got = w.st.SetTTLFast(w.nodes[full], d, cb)
	} else {
		got = w.views[view].SetTTL(rel, d, cb)
	}
	if got != want {
		return errf("SetTTL(%q) = %d, want %d; keys: %v", rel, got, want, w.r.keys())
	}
	if want == 0 {
		w.jobs = append(w.jobs, job)
	}
	return nil
}

// setEx is the documented use of SetEx: the time-to-live is set by its callback.
func (w *ttlWorld) setEx(k string, byNode bool) error {
	w.step++
	w.seq++
	id := w.seq
	d := 5*time.Millisecond + time.Duration(id)*time.Microsecond
	ring := func(_ *radix.TTL[any], nd radix.Node[any]) {
		name := "?"
		if nd != nil && nd.Key() == k {
			name = k
		}
		w.fired = append(w.fired, fmt.Sprintf("%d %q", id, name))
	}
	calls := 0
	w.st.SetEx(k, w.step, func(path string, _ any, node radix.Node[any], trie radix.Trie[any]) {
		calls++
		w.nodes[k] = node
		if byNode {
			node.SetTTL(d, trie, ring)
		} else {
			trie.SetTTLFast(node, d, ring)
		}
	})
	if calls != 1 {
		return errf("SetEx(%q) called its callback %d times", k, calls)
	}
	if !w.r.isKey(k) {
		w.inc[k]++
	}
	w.r.set(k, w.step)
	w.ninc[k] = w.inc[k]
	w.jobs = append(w.jobs, ttlJob{id: id, due: w.now + d, key: k, inc: w.inc[k]})
	return nil
}

func (w *ttlWorld) advance(d time.Duration) error {
	w.now += d
	time.Sleep(w.now - time.Since(w.start))
	synctest.Wait()
	for {
		sort.Slice(w.jobs, func(i, j int) bool { return w.jobs[i].due < w.jobs[j].due })
		if len(w.jobs) == 0 || w.jobs[0].due > w.now {
			break
		}
		j := w.jobs[0]
		w.jobs = w.jobs[1:]
		if j.act != "none" {
			w.want = append(w.want, fmt.Sprintf("%d %q", j.id, j.key))
		}
		switch j.act {
		case "remove":
			w.r.remove(j.full)
		case "again":
			n := ttlJob{due: j.due + 7*time.Millisecond + time.Duration(j.id)*10*time.Microsecond, view: j.view, act: "none", full: j.full}
			switch {
			case w.r.isKey(j.full):
				n.key, n.inc = j.full, w.inc[j.full]
				w.jobs = append(w.jobs, n)
			case w.r.isSection(j.full):
				n.section = j.full
				w.jobs = append(w.jobs, n)
			}
		}
		if j.section != "" {
			w.r.remove(j.section)
		} else if e, ok := w.r.m[j.key]; ok && w.inc[j.key] == j.inc {
			e.val, e.tag = nil, nil
		}
	}
	return nil
}

func (w *ttlWorld) closeView(v int) {
	w.views[v].Close()
	var rest []ttlJob
	for _, j := range w.jobs {
		if j.view != v {
			rest = append(rest, j)
		}
	}
	w.jobs = rest
}

// durationsC14: one time-to-live of any length is due at its instant, not before.
func durationsC14(c *eng.Ctx) {
	var ds []time.Duration
	for d := time.Microsecond; d < 20*365*24*time.Hour; d *= 10 {
		ds = append(ds, d, d+1, 2*d, 5*d-1)
	}
	ds = append(ds, 24*time.Hour, 7*24*time.Hour)
	keys := []string{"a", "a.b", "s"} // s: a section
	ways := []string{"SetTTL", "view.SetTTL", "SetTTLFast", "node.SetTTL", "Trie.SetTTL"}
	ns := len(ds) * len(keys) * len(ways)
	delims := []rune{'.', '/', '→'}
	n := ns * len(delims)
	eng.Enum(c, "durations", n, func(i int) string {
		return fmt.Sprintf("%s(%q, %v) of a store with the delimiter %q", ways[i%len(ways)], keys[i/len(ways)%len(keys)], ds[i%ns/len(ways)/len(keys)], delims[i/ns])
	}, func(i int) (steps int, err error) {
		way, k, d := i%len(ways), keys[i/len(ways)%len(keys)], ds[i%ns/len(ways)/len(keys)]
		delim := delims[i/ns]
		X := func(s string) string { return strings.ReplaceAll(s, ".", string(delim)) }
		if k != "a.b" && way == 1 {
			return 0, nil
		}
		synctest.Test(testingT, func(*testing.T) {
			rang := 0
			cb := func(s *radix.TTL[any], nd radix.Node[any]) { rang++ }
			var get func(string) (any, bool)
			var done func()
			var state int
			if way == 4 {
				t := radix.NewTrieBy[any](delim)
				for _, x := range []string{"a", "a.b", "s.x", "s.y", "t"} {
					t.Set(X(x), x)
				}
				state = t.SetTTL(X(k), d, cb)
				get, done = t.Get, t.Close
			} else {
				st := store.New(store.WithDelimiter(delim))
				for _, x := range []string{"a", "a.b", "s.x", "s.y", "t"} {
					st.Set(X(x), x)
				}
				get, done = st.Get, st.Close
				v := st.WithPrefix("a")
				switch way {
				case 0:
					state = st.SetTTL(X(k), d, cb)
				case 1:
					state = v.SetTTL("b", d, cb)
					done = v.Close
				case 2:
					nd, _, _, _ := st.Locate(X(k), nil)
					state = st.SetTTLFast(nd, d, cb)
				case 3:
					if k == "s" {
						nd, _, _, _ := st.Locate(X(k), nil)
						st.SetEx("t", "t", func(_ string, _ any, _ radix.Node[any], trie radix.Trie[any]) { nd.SetTTL(d, trie, cb) })
						break
					}
					st.SetEx(X(k), k, func(_ string, _ any, nd radix.Node[any], trie radix.Trie[any]) { nd.SetTTL(d, trie, cb) })
				}
			}
			defer func() { done(); synctest.Wait() }()
			check := func(due bool) {
				synctest.Wait()
				if err != nil {
					return
				}
				want := 0
				if due {
					want = 1
				}
				if state != 0 || rang != want {
					err = errf("state %d, rang %d times, want %d (due %v)", state, rang, want, due)
				}
				for _, x := range []string{"a", "a.b", "s.x", "s.y", "t"} {
					v, ok := get(X(x))
					gone := due && strings.HasPrefix(x, "s.") && k == "s"
					var w any = x
					if due && (x == k || gone) {
						w = nil
					}
					if v != w || ok == gone {
						err = errf("%q is %v, %v (due %v)", x, v, ok, due)
					}
				}
			}
			check(false)
			time.Sleep(d - 1)
			check(false)
			time.Sleep(1)
			check(true)
			time.Sleep(time.Hour)
			check(true)
		})
		return 4, err
	})
}

// manyC14: many keys with a time-to-live each, set in all of some orders, some closed meanwhile.
func manyC14(c *eng.Ctx) {
	counts := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 257}
	orders := []string{"rising", "falling", "mixed", "same"}
	ways := []string{"SetTTL", "SetTTLFast", "one key", "sections"}
	n := len(counts) * len(orders) * len(ways) * 2
	eng.Enum(c, "many", n, func(i int) string {
		return fmt.Sprintf("%d by %s, %s, closed half-way: %v", counts[i/2%len(counts)], ways[i/2/len(counts)%len(ways)], orders[i/2/len(counts)/len(ways)], i%2 == 1)
	}, func(i int) (steps int, err error) {
		cnt, way, order, closing := counts[i/2%len(counts)], ways[i/2/len(counts)%len(ways)], orders[i/2/len(counts)/len(ways)], i%2 == 1
		if way == "sections" && (order == "same" || order == "mixed" && cnt%7 == 0) {
			return 0, nil // sections which are dropped at the same time: see section-ttl in known_findings.md
		}
		synctest.Test(testingT, func(*testing.T) {
			st := store.New()
			rang := make([]int, cnt)
			due := make([]int, cnt) // in seconds
			key := func(j int) string {
				if way == "sections" {
					return fmt.Sprintf("s%d.x", j)
				}
				return fmt.Sprintf("k.%d.%d", j/16, j)
			}
			for j := 0; j < cnt; j++ {
				st.Set(key(j), j)
			}
			for j := 0; j < cnt; j++ {
				switch order {
				case "rising":
					due[j] = j + 1
				case "falling":
					due[j] = cnt - j
				case "mixed":
					due[j] = (j*7)%cnt + 1
				case "same":
					due[j] = 5
				}
				at := key(j)
				if way == "one key" {
					at = key(0)
				} else if way == "sections" {
					at = fmt.Sprint("s", j)
				}
				d, cb := time.Duration(due[j])*time.Second, func(s *radix.TTL[any], nd radix.Node[any]) { rang[j]++ }
				state := 0
				if way == "SetTTLFast" {
					nd, _, _, _ := st.Locate(at, nil)
					state = st.SetTTLFast(nd, d, cb)
				} else {
					state = st.SetTTL(at, d, cb)
				}
				if state != 0 && err == nil {
					err = errf("setting the time-to-live of %q gave %d", at, state)
				}
			}
			steps = 2 * cnt
			end := cnt + 6
			closed := end + 1
			for t := 0; t <= end && err == nil; t++ {
				synctest.Wait()
				for j := 0; j < cnt && err == nil; j++ {
					over := due[j] <= t && due[j] < closed
					if way == "sections" && over && rang[j] == 1 && st.Has(key(j)) {
						err = errf("the section of %q is there, %d s after it was due", key(j), t-due[j])
					}
					want := 0
					if over {
						want = 1
					}
					if way == "sections" && rang[j] == want && st.Has(key(j)) == over || rang[j] != want {
						err = errf("after %d s, %q rang %d times, want %d, there: %v", t, key(j), rang[j], want, st.Has(key(j)))
					}
					if v, ok := st.Get(key(j)); way != "sections" && way != "one key" && err == nil && (!ok || (v == nil) != over) {
						err = errf("after %d s, %q is %v, %v, due after %d s", t, key(j), v, ok, due[j])
					}
				}
				if closing && t == cnt/2 {
					st.Close()
					closed = t + 1
				}
				time.Sleep(time.Second)
				steps++
			}
			st.Close()
			synctest.Wait()
		})
		return
	})
}

func runC14(c *eng.Ctx) {
	durationsC14(c)
	manyC14(c)
	type op = eng.Op[ttlWorld]
	for _, cfg := range []struct {
		name string
		pre  []string // set before
		keys []string // set and removed
		ttl  []string // paths for the time-to-live
		view []string // paths relative to the view "a"
	}{
		{"leaf", []string{"a.b", "a.bc", "x"}, []string{"a.b", "a.bc", "a.b.c"}, []string{"a.b", "a.bc", "absent", "a.bcd"}, []string{"b"}},
		{"section", []string{"a.b.c", "a.b.d", "a.bc", "x"}, []string{"a.b.c", "a.b", "a.bcd"}, []string{"a.b", "a.b.c", "a", "a.", "x"}, []string{"b"}},
		{"split", []string{"app.log", "x"}, []string{"app.logging", "app.lo", "app.log.f", "app.log"}, []string{"app.log", "app", "app.lo"}, nil},
	} {
		var ops []op
		for _, k := range cfg.keys {
			ops = append(ops, op{Name: fmt.Sprintf("Set(%q)", k), Do: func(w *ttlWorld) error { w.setK(k); return nil }},
				op{Name: fmt.Sprintf("Remove(%q)", k), Do: func(w *ttlWorld) error { return w.remove(k) }})
		}
		for _, p := range cfg.ttl {
			for _, ms := range []time.Duration{5, 15} {
				if ms == 15 && (p == "absent" || p == "a." || p == "x") {
					continue
				}
				ops = append(ops, op{Name: fmt.Sprintf("SetTTL(%q,%dms)", p, ms), Do: func(w *ttlWorld) error { return w.ttl(0, p, p, ms*time.Millisecond, false) }})
			}
		}
		for _, p := range cfg.view {
			ops = append(ops, op{Name: fmt.Sprintf("view.SetTTL(%q,5ms)", p), Do: func(w *ttlWorld) error { return w.ttl(1, "a."+p, p, 5*time.Millisecond, false) }})
		}
		k0 := cfg.pre[0]
		ops = append(ops,
			op{Name: fmt.Sprintf("SetTTLFast(node of %q,5ms)", k0), Do: func(w *ttlWorld) error { return w.ttl(0, k0, k0, 5*time.Millisecond, true) }},
			op{Name: fmt.Sprintf("SetTTL(%q,5ms) without a callback", k0), Do: func(w *ttlWorld) error { return w.ttl(0, k0, k0, 5*time.Millisecond, false, "none") }},
			op{Name: fmt.Sprintf("SetTTL(%q,5ms) whose callback removes it", k0), Do: func(w *ttlWorld) error { return w.ttl(0, k0, k0, 5*time.Millisecond, false, "remove") }},
			op{Name: fmt.Sprintf("SetTTL(%q,5ms) whose callback sets one again", k0), Do: func(w *ttlWorld) error { return w.ttl(0, k0, k0, 5*time.Millisecond, false, "again") }},
			op{Name: fmt.Sprintf("SetEx(%q) with a time-to-live of 5ms by its callback", k0), Do: func(w *ttlWorld) error { return w.setEx(k0, false) }},
			op{Name: fmt.Sprintf("SetEx(%q) with a node.SetTTL of 5ms by its callback", k0), Do: func(w *ttlWorld) error { return w.setEx(k0, true) }},
			op{Name: "Remove(a) and Set it again", En: func(w *ttlWorld) bool { return w.r.isKey(k0) }, Do: func(w *ttlWorld) error {
				if err := w.remove(k0); err != nil {
					return err
				}
				w.setK(k0)
				return nil
			}},
			op{Name: "10ms pass", Do: func(w *ttlWorld) error { return w.advance(10 * time.Millisecond) }},
			op{Name: "Close()", Do: func(w *ttlWorld) error { w.closeView(0); return nil }},
			op{Name: "view.Close()", Do: func(w *ttlWorld) error { w.closeView(1); return nil }})
		s := &eng.Sys[ttlWorld]{Name: "ttl/" + cfg.name, Ops: ops,
			Wrap: func(body func()) { synctest.Test(testingT, func(*testing.T) { body() }) },
			New: func() *ttlWorld {
				w := &ttlWorld{world: *newWorld(family{}, "."), start: time.Now(), inc: map[string]int{}, nodes: map[string]radix.Node[any]{}, ninc: map[string]int{}}
				w.views = []store.Store{w.st, w.st.WithPrefix("a")}
				for _, k := range cfg.pre {
					w.setK(k)
				}
				w.st.SetComment(cfg.pre[0], "D", "C")
				w.st.SetTag(cfg.pre[0], "T")
				e := w.r.m[cfg.pre[0]]
				e.desc, e.comment, e.tag = "D", "C", "T"
				return w
			},
			Obs: func(w *ttlWorld) error {
				synctest.Wait()
				if a, b := strings.Join(w.fired, ","), strings.Join(w.want, ","); a != b {
					return errf("the callbacks are %s, want %s", a, b)
				}
				return w.r.same(w.st, w.st)
			},
			Fin: func(w *ttlWorld) {
				for _, v := range w.views {
					v.Close()
				}
				synctest.Wait()
				fired := len(w.fired)
				time.Sleep(time.Hour)
				if len(w.fired) != fired {
					panic(fmt.Sprintf("a time-to-live rang after closing: %v", w.fired))
				}
				if err := w.r.same(w.st, w.st); err != nil {
					panic(fmt.Sprintf("after closing: %v", err))
				}
			},
			Key: func(w *ttlWorld) string {
				k := w.key()
				for _, j := range w.jobs {
					k += fmt.Sprintf("|%v %s %v %s %d %s %s", (j.due-w.now)/time.Millisecond, j.key, w.inc[j.key] == j.inc, j.section, j.view, j.act, j.full)
				}
				if n := w.nodes[k0]; n != nil {
					k += fmt.Sprint(w.ninc[k0] == w.inc[k0])
				}
				return k
			}}
		eng.DFS(c, s, pick(c, 4, 5))
		s2 := *s
		s2.Name += " bfs"
		s2.Key = s.Key
		eng.BFS(c, &s2, pick(c, 5, 7), 4000000)
	}
}
