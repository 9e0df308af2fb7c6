// Package sched decides C24: it runs the real code (instrumented, see
// package instrument) under a controlled scheduler, and explores all of
// the schedules of small sets of threads up to a bound of preemptions.
package sched

import (
	"fmt"
	"sort"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/vs"
)

const ttl = time.Second

// scenario is a set of threads over one store.
type scenario struct {
	name    string
	bound   int
	ttl     []string // the keys, or sections, with a time-to-live: an extra thread lets it expire
	ringing bool     // the expiry has a callback, which reads the store
	readers [][]op
	known   string // the finding which the scenario shows
	owner   []op   // what the only other thread does: it may change the store
}

type op struct {
	name string
	do   func(s, routes store.Store) any
}

func world() (s, routes store.Store) {
	s = store.New()
	s.Set("app.a", 1)
	s.Set("app.ab", "x y")
	s.Set("app.b.k1", []string{"u", "v"})
	s.Set("app.b.k2", 2.5)
	s.Set("app.b.ttl", "alive")
	s.SetComment("app.b.ttl", "desc", "note")
	s.SetTag("app.b.ttl", 77)
	s.Set("app.d", "3s")
	s.Set("app.b2", true)
	s.Set("lib.n.m", map[string]any{"q": 1})
	s.Set("lib.ttl", 42)
	routes = store.New(store.WithDelimiter('/'))
	routes.Set("/h/:name/x", 1)
	routes.Set("/h/:name", 2)
	routes.Set("/f/*rest", 3)
	routes.Set("/h/bob/x", 4)
	return
}

type kv struct {
	k string
	v any
}

func walked(f func(cb func(path, fragment string, node radix.Node[any]))) any {
	var ret []kv
	f(func(path, fragment string, node radix.Node[any]) {
		ret = append(ret, kv{path, fragment}, kv{"", node.Data()}, kv{"leaf", node.IsLeaf()})
	})
	return ret
}

func two[A, B any](a A, b B) any { return []any{a, b} }

func flat(m map[string]any, err error) any {
	return []any{m, err}
}

var ops = []op{
	{"Get(app.a)", func(s, _ store.Store) any { return two(s.Get("app.a")) }},
	{"Get(app.b.ttl)", func(s, _ store.Store) any { return two(s.Get("app.b.ttl")) }},
	{"MustGet(lib.n.m)", func(s, _ store.Store) any { return s.MustGet("lib.n.m") }},
	{"Get(app.zz)", func(s, _ store.Store) any { return two(s.Get("app.zz")) }},
	{"Has", func(s, _ store.Store) any { return []bool{s.Has("app.b"), s.Has("app.b.k"), s.Has("app.b.ttl")} }},
	{"Query", func(s, _ store.Store) any {
		d, b, f, e := s.(interface {
			Query(string, radix.KVPair) (any, bool, bool, error)
		}).Query("app.b.ttl", nil)
		return []any{d, b, f, e}
	}},
	{"Locate", func(s, _ store.Store) any {
		n, b, p, f := s.Locate("app.b.ttl", nil)
		return []any{n.Key(), n.Data(), n.Comment(), n.Description(), b, p, f}
	}},
	{"view.Get", func(s, _ store.Store) any { return two(s.WithPrefix("app", "b").Get("ttl")) }},
	{"view.view.MustGet", func(s, _ store.Store) any {
		return s.WithPrefix("app").WithPrefix("b").MustGet("k2")
	}},
	{"view replaced", func(s, _ store.Store) any {
		v := s.WithPrefix("app").WithPrefixReplaced("lib")
		return []any{v.Prefix(), v.MustGet("ttl"), v.Has("n.m")}
	}},
	{"GetString(ttl)", func(s, _ store.Store) any { return two(s.GetString("app.b.ttl", "dflt")) }},
	{"MustInt(lib.ttl)", func(s, _ store.Store) any { return s.MustInt("lib.ttl", 5) }},
	{"MustDuration", func(s, _ store.Store) any { return s.MustDuration("app.d") }},
	{"MustStringSlice", func(s, _ store.Store) any { return s.MustStringSlice("app.b.k1") }},
	{"MustBool", func(s, _ store.Store) any { return s.MustBool("app.b2") }},
	{"MustFloat64", func(s, _ store.Store) any { return s.MustFloat64("app.b.k2") }},
	{"GetM(app.b)", func(s, _ store.Store) any { return flat(s.GetM("app.b")) }},
	{"GetM()", func(s, _ store.Store) any { return flat(s.GetM("")) }},
	{"GetR(app)", func(s, _ store.Store) any { return flat(s.GetR("app")) }},
	{"Walk()", func(s, _ store.Store) any {
		return walked(func(cb func(path, fragment string, node radix.Node[any])) { s.Walk("", cb) })
	}},
	{"Walk(app.b.)", func(s, _ store.Store) any {
		return walked(func(cb func(path, fragment string, node radix.Node[any])) { s.Walk("app.b.", cb) })
	}},
	{"Walk tags", func(s, _ store.Store) any {
		var ret []kv
		s.Walk("", func(path, fragment string, node radix.Node[any]) { ret = append(ret, kv{node.Key(), node.Tag()}) })
		return ret
	}},
	{"Dump", func(s, _ store.Store) any { return s.Dump() }},
	{"Dup", func(s, _ store.Store) any {
		c := s.Dup()
		return []any{c.MustGet("app.b.ttl"), c.MustGet("app.a"), c.Has("lib.n")}
	}},
	{"BR", func(s, _ store.Store) any { return two(s.BR().Get("app.b.zz.ttl")) }},
	{"GetEx", func(s, _ store.Store) any {
		var ret []any
		s.GetEx("app.b.ttl", func(n radix.Node[any], d any, b bool, kv radix.KVPair) { ret = append(ret, n.Key(), d, b, len(kv)) })
		return ret
	}},
	{"GetTag", func(s, _ store.Store) any { return two(s.GetTag("app.b.ttl")) }},
	{"GetDesc", func(s, _ store.Store) any {
		return []any{s.MustGetDesc("app.b.ttl"), s.MustGetComment("app.b.ttl")}
	}},
	{"String", func(s, _ store.Store) any {
		b, err := s.WithPrefix("lib").(interface{ MarshalJSON() ([]byte, error) }).MarshalJSON()
		return []any{s.WithPrefix("app").(fmt.Stringer).String(), string(b), err}
	}},
	{"route :name", func(_, r store.Store) any {
		kv := radix.KVPair{}
		_, _, p, f := r.Locate("/h/al/x", kv)
		return []any{kv, p, f, r.MustGet("/h/eve"), r.MustGet("/h/bob/x")}
	}},
	{"route *rest", func(_, r store.Store) any {
		kv := radix.KVPair{}
		_, _, p, f := r.Locate("/f/u/v", kv)
		return []any{kv, p, f}
	}},
}

var final = []op{find("Dump"), find("GetM()")}

func find(name string) op {
	for _, o := range ops {
		if o.name == name {
			return o
		}
	}
	panic("no op " + name)
}

// exec runs a scenario once, and judges it.
func (sc *scenario) exec(t *testing.T, plan []int, record bool, exp *expect) (r vs.Result, err error) {
	if len(sc.ttl) == 0 {
		return sc.exec1(plan, record, exp)
	}
	synctest.Test(t, func(*testing.T) {
		f := sc.exec1
		if sc.owner != nil {
			f = sc.exec2
		}
		if r, err = f(plan, record, exp); err != nil {
			failed(r, err) // does not return: the bubble may be deadlocked
		}
	})
	return
}

var failed func(r vs.Result, err error)

// expect holds what each op yields alone: before, and after the expiry.
type expect struct {
	before, after map[string]string
	serial        map[string]string // of an owner: results and final state -> where the expiry was
}

func text(v any) string { return fmt.Sprintf("%#v", v) }

func call(o op, s, r store.Store) (ret any) {
	defer func() {
		if e := recover(); e != nil {
			ret = fmt.Sprintf("panic: %v", e)
		}
	}()
	return o.do(s, r)
}

func (sc *scenario) exec1(plan []int, record bool, exp *expect) (r vs.Result, err error) {
	vs.Reset()
	s, routes := world()
	rang := make([]atomic.Int32, len(sc.ttl))
	for i, key := range sc.ttl {
		var cb radix.OnTTLRinging[any]
		if sc.ringing {
			cb = func(_ *radix.TTL[any], nd radix.Node[any]) {
				rang[i].Add(1)
				_ = nd.Data()
				_ = s.MustGet(key)
			}
		}
		if st := s.SetTTL(key, ttl+time.Duration(i)*time.Microsecond, cb); st != 0 {
			return r, fmt.Errorf("SetTTL(%q) = %d", key, st)
		}
	}
	res := make([][]any, len(sc.readers))
	var fs []func()
	for i, list := range sc.readers {
		res[i] = make([]any, len(list))
		fs = append(fs, func() {
			for j, o := range list {
				res[i][j] = call(o, s, routes)
			}
		})
	}
	if len(sc.ttl) > 0 {
		synctest.Wait()
		fs = append(fs, func() { time.Sleep(ttl + time.Millisecond) })
	}
	r = vs.Run(plan, record, fs)
	if r.Deadlock {
		return r, fmt.Errorf("deadlock: every thread waits for a lock")
	}
	for i, list := range sc.readers {
		done := false
		for j, o := range list {
			got := text(res[i][j])
			b, a := exp.before[o.name], exp.after[o.name]
			switch {
			case got == b && got == a:
			case got == b && !(done && len(sc.ttl) == 1):
			case got == a && len(sc.ttl) > 0:
				done = true
			case len(sc.ttl) == 0:
				return r, fmt.Errorf("thread %d: %s yields %s, alone it yields %s", i, o.name, got, b)
			case got == b:
				return r, fmt.Errorf("thread %d: %s sees the value of before the expiry after the expiry has been seen", i, o.name)
			case len(sc.ttl) > 1 && exp.mixed(sc, s, o, got):
			default:
				return r, fmt.Errorf("thread %d: %s yields %s: neither that of before the expiry, %s, nor that of after it, %s", i, o.name, got, b, a)
			}
		}
	}
	if len(sc.ttl) > 0 {
		// it has expired, nothing else has changed
		for _, o := range final {
			if got := text(call(o, s, routes)); got != exp.after[o.name] {
				return r, fmt.Errorf("at the end: %s yields %s, after an undisturbed expiry it yields %s", o.name, got, exp.after[o.name])
			}
		}
		for i := range rang {
			if n := rang[i].Load(); sc.ringing && n != 1 {
				return r, fmt.Errorf("the callback of %s was called %d times", sc.ttl[i], n)
			}
		}
	}
	s.Close()
	routes.Close()
	return r, nil
}

// mixed: with several expiries, a reader may see any subset of them.
func (e *expect) mixed(sc *scenario, s store.Store, o op, got string) bool {
	for mask := 0; mask < 1<<len(sc.ttl); mask++ {
		w, r := world()
		for i, k := range sc.ttl {
			if mask&(1<<i) != 0 {
				n, _, _, _ := w.Locate(k, nil)
				n.SetEmpty()
			}
		}
		if text(call(o, w, r)) == got {
			return true
		}
	}
	return false
}

// alone runs every op alone.
func (sc *scenario) alone(t *testing.T) *expect {
	e := &expect{before: map[string]string{}, after: map[string]string{}}
	if sc.owner != nil {
		e.serial = sc.serial(t)
		return e
	}
	s, r := world()
	for _, o := range ops {
		e.before[o.name] = text(call(o, s, r))
	}
	if len(sc.ttl) == 0 {
		e.after = e.before
		return e
	}
	synctest.Test(t, func(*testing.T) {
		s, r := world()
		for _, k := range sc.ttl {
			s.SetTTL(k, ttl, nil)
		}
		time.Sleep(ttl + time.Millisecond)
		synctest.Wait()
		for _, o := range ops {
			e.after[o.name] = text(call(o, s, r))
		}
		s.Close()
	})
	return e
}

var long = map[string]bool{"Dup": true, "Dump": true, "Has": true, "BR": true, "view replaced": true, "GetDesc": true, "route :name": true, "Walk()": true, "GetM()": true}

var brief = map[string]bool{"Get(app.a)": true, "Get(app.b.ttl)": true, "GetTag": true, "MustBool": true}

func iif(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func scenarios(thorough bool) (ret []*scenario) {
	b1, b2 := 1, 2
	if thorough {
		b1, b2 = 2, 3
	}
	defer func() { // the long ones first
		sort.SliceStable(ret, func(i, j int) bool { return ret[i].bound > ret[j].bound })
	}()
	// readers with readers
	for i, x := range ops {
		for _, y := range ops[i:] {
			b := b1
			if long[x.name] && long[y.name] || (x.name == "Dup" || y.name == "Dup") && !brief[x.name] && !brief[y.name] {
				b = 1
			}
			ret = append(ret, &scenario{name: "read " + x.name + " | " + y.name, bound: b, readers: [][]op{{x}, {y}}})
		}
	}
	deep := [][]string{{"Get(app.a)", "Get(app.b.ttl)"}, {"view.Get", "view.view.MustGet"}, {"route :name", "route *rest"}, {"String", "view.Get"}}
	if thorough {
		deep = [][]string{{"Get(app.a)", "Get(app.b.ttl)"}}
	}
	for _, p := range deep {
		ret = append(ret, &scenario{name: "read deep " + strings.Join(p, " | "), bound: b2, readers: [][]op{{find(p[0])}, {find(p[1])}}})
	}
	for _, p := range [][]string{
		{"Get(app.a)", "view.Get", "Has"}, {"route :name", "Get(app.a)", "view.view.MustGet"}, {"GetTag", "MustInt(lib.ttl)", "Get(app.zz)"},
	} {
		ret = append(ret, &scenario{name: "read three " + strings.Join(p, " | "), bound: 1, readers: [][]op{{find(p[0])}, {find(p[1])}, {find(p[2])}}})
	}
	// readers with an expiry
	for _, x := range ops {
		if strings.HasPrefix(x.name, "route") {
			continue
		}
		b := b2
		switch x.name {
		case "Dup", "Dump", "Has":
			b = b1
		case "Get(app.b.ttl)":
		default:
			b = 2
		}
		ret = append(ret, &scenario{name: "expiry " + x.name + " twice", bound: b, ttl: []string{"app.b.ttl"}, readers: [][]op{{x, x}}})
		ret = append(ret, &scenario{name: "expiry " + x.name + " | Get", bound: 1, ttl: []string{"app.b.ttl"}, ringing: true, readers: [][]op{{x}, {find("Get(app.b.ttl)")}}})
	}
	for _, n := range []string{"GetM()", "Dump", "Get(app.b.ttl)", "MustInt(lib.ttl)"} {
		ret = append(ret, &scenario{name: "two expiries " + n, bound: 1, ttl: []string{"app.b.ttl", "lib.ttl"}, ringing: true, readers: [][]op{{find(n)}, {find("view replaced")}}})
	}
	return append(ret, ownerScenarios(thorough)...)
}

// knownScenarios show the open findings.
func knownScenarios(thorough bool) (ret []*scenario) {
	return []*scenario{{name: "section expiry | Get", bound: 1, ttl: []string{"app.b"}, readers: [][]op{{find("Get(app.a)")}}, known: "section-ttl"}}
}
