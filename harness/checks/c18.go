package checks

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

type watchStreamProv struct{ streamProv }

func (p *watchStreamProv) Watch(ctx context.Context, cb func(event any, err error)) error {
	return p.watchImpl(ctx, cb)
}
func (p *watchStreamProv) Close() { p.closed++ }

type watchSrc struct {
	base    *provBase
	prov    store.Provider
	at      string
	watched bool
	ctx     context.Context
}

type watchWorld struct {
	world
	src    []*watchSrc
	closed bool
	log    *[]string
}

type ctxKey struct{}

func (w *watchWorld) load(kind, at string, view bool, noWatch string, enabled bool, watchErr, loadErr bool) error {
	s := &watchSrc{at: at, ctx: context.WithValue(bg, ctxKey{}, len(w.src))}
	doc := map[string]any{"s": "src", "n": map[string]any{"k": "src"}}
	switch kind {
	case "read":
		p := &watchReadProv{readProv{m: map[string]store.ValPkg{"s": {Value: "src"}, "n.k": {Value: "src"}}}}
		s.prov, s.base = p, &p.provBase
	case "bytes":
		p := &watchBytesProv{bytesProv{b: mustJSON(doc), provBase: provBase{codec: &jsonCodec{}}}}
		s.prov, s.base = p, &p.provBase
	case "stream":
		p := &watchStreamProv{*newStream(map[string]any{"s": "src", "n.k": "src"})}
		s.prov, s.base = p, &p.provBase
	case "unwatchable":
		p := &readProv{m: map[string]store.ValPkg{"s": {Value: "src"}, "n.k": {Value: "src"}}}
		s.prov, s.base = p, &p.provBase
	}
	if watchErr {
		s.base.watchErr = errors.New("cannot watch")
	}
	if loadErr {
		s.base.fault = func(string) error { return errFault }
	}
	opts := []store.LoadOpt{store.WithProvider(s.prov)}
	switch noWatch {
	case "true":
		opts = append(opts, store.WithoutWatch(true))
	case "false":
		opts = append(opts, store.WithoutWatch(false))
	case "true,false":
		opts = append(opts, store.WithoutWatch(true), store.WithoutWatch(false))
	}
	st := w.st
	if view {
		st = st.WithPrefix(at)
	} else if at != "" {
		opts = append(opts, store.WithStorePrefix(at))
	}
	_, err := st.Load(s.ctx, opts...)
	if (err != nil) != loadErr {
		return errf("Load: %v", err)
	}
	w.src = append(w.src, s)
	if !loadErr {
		w.r.set(joinD(".", at, "s"), "src")
		w.r.set(joinD(".", at, "n.k"), "src")
	}
	s.watched = enabled && noWatch != "true" && !watchErr && !loadErr && kind != "unwatchable"
	want := 0
	if s.watched {
		want = 1
	}
	if s.base.watched != want {
		return errf("the source is watched %d times, want %d", s.base.watched, want)
	}
	if s.watched && s.base.ctx != s.ctx {
		return errf("the source is watched with another context")
	}
	return nil
}

// manyEvents: events of all kinds with many keys, in sources of all kinds at all places.
func manyEvents(c *eng.Ctx) {
	counts := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000}
	kinds := []string{"read", "bytes", "stream"}
	places := []string{"", "app", "app.n"}
	names := []string{"create", "write", "remove", "write then remove", "create then write"}
	eng.Enum(c, "many keys", len(counts)*len(kinds)*len(places)*len(names), func(i int) string {
		return fmt.Sprintf("%s of %d keys, %s at %q", names[i/len(counts)/len(kinds)/len(places)], counts[i%len(counts)], kinds[i/len(counts)%len(kinds)], places[i/len(counts)/len(kinds)%len(places)])
	}, func(i int) (int, error) {
		n, kind, at, name := counts[i%len(counts)], kinds[i/len(counts)%len(kinds)], places[i/len(counts)/len(kinds)%len(places)], names[i/len(counts)/len(kinds)/len(places)]
		w := &watchWorld{world: *newWorld(family{}, ".", store.WithWatchEnable(true))}
		if err := w.load(kind, at, false, "", true, false, false); err != nil {
			return 1, err
		}
		s := w.src[0]
		steps := 1
		for round, part := range strings.Split(name, " then ") {
			op := map[string]store.Op{"create": store.OpCreate, "write": store.OpWrite, "remove": store.OpRemove}[part]
			ch := &change{op: op, p: s.prov}
			for j := 0; j < n; j++ {
				k := fmt.Sprintf("m.%d.%d", j/16, j)
				if part == "remove" && round == 0 { // there is something to be removed
					w.st.Set(joinD(".", at, k), j)
					w.r.set(joinD(".", at, k), j)
				}
				ch.keys, ch.vals = append(ch.keys, k), append(ch.vals, any(j+round))
			}
			for j, k := range ch.keys {
				if op == store.OpRemove {
					w.r.remove(joinD(".", at, k))
				} else {
					w.r.set(joinD(".", at, k), ch.vals[j])
				}
			}
			s.base.cb(ch, nil)
			steps++
			got, dup := leaves(w.st, "")
			if want := w.r.values(w.r.keys()); dup != "" || !sameMap(got, want) {
				return steps, errf("after the event the store has %d keys, want %d (or others)", len(got), len(want))
			}
		}
		w.st.Close()
		if s.base.closed != 1 {
			return steps, errf("the source is closed %d times", s.base.closed)
		}
		return steps, nil
	})
	// many sources, each at a place of its own
	eng.Enum(c, "many sources", 40*2, func(i int) string { return fmt.Sprintf("%d sources, views %v", i/2+1, i%2 == 1) }, func(i int) (int, error) {
		w := &watchWorld{world: *newWorld(family{}, ".", store.WithWatchEnable(true))}
		for j := 0; j <= i/2; j++ {
			if err := w.load(kinds[j%3], fmt.Sprint("p", j), i%2 == 1, "", true, false, false); err != nil {
				return j, err
			}
		}
		for j := len(w.src) - 1; j >= 0; j-- {
			s := w.src[j]
			s.base.cb(&change{op: store.OpWrite, keys: []string{"s"}, vals: []any{j}, p: s.prov}, nil)
			w.r.set(joinD(".", s.at, "s"), j)
		}
		got, dup := leaves(w.st, "")
		if want := w.r.values(w.r.keys()); dup != "" || !sameMap(got, want) {
			return 2 * len(w.src), errf("after the events the store holds %v, want %v", got, want)
		}
		w.st.Close()
		for j, s := range w.src {
			if s.base.closed != 1 || s.base.watched != 1 {
				return 2 * len(w.src), errf("source %d is closed %d times, watched %d times", j, s.base.closed, s.base.watched)
			}
		}
		return 2*len(w.src) + 1, nil
	})
	// a source which is empty now is watched as well
	eng.Enum(c, "empty source", 3*len(places), func(i int) string { return fmt.Sprintf("an empty source (%s) at %q", kinds[i%3], places[i/3]) }, func(i int) (int, error) {
		var base *provBase
		var prov store.Provider
		switch kinds[i%3] {
		case "read":
			p := &watchReadProv{readProv{m: map[string]store.ValPkg{}}}
			prov, base = p, &p.provBase
		case "bytes":
			p := &watchBytesProv{bytesProv{b: []byte("{}"), provBase: provBase{codec: &jsonCodec{}}}}
			prov, base = p, &p.provBase
		default:
			p := &watchStreamProv{*newStream(map[string]any{})}
			prov, base = p, &p.provBase
		}
		at := places[i/3]
		st := store.New(store.WithWatchEnable(true))
		st.Set("q", "q")
		opts := []store.LoadOpt{store.WithProvider(prov)}
		if at != "" {
			opts = append(opts, store.WithStorePrefix(at))
		}
		if _, err := st.Load(bg, opts...); err != nil {
			return 1, err
		}
		if base.watched != 1 {
			return 1, errf("the source is watched %d times", base.watched)
		}
		base.cb(&change{op: store.OpCreate, keys: []string{"n.k"}, vals: []any{"v"}, p: prov}, nil)
		if got, _ := leaves(st, ""); !sameMap(got, map[string]any{"q": "q", joinD(".", at, "n.k"): "v"}) {
			return 2, errf("after the event the store holds %v", got)
		}
		st.Close()
		if base.closed != 1 {
			return 3, errf("the source is closed %d times", base.closed)
		}
		return 3, nil
	})
}

func runC18(c *eng.Ctx) {
	fileWatch(c)
	manyEvents(c)
	type op = eng.Op[watchWorld]
	for _, enabled := range []bool{true, false} {
		var ops []op
		add := func(kind, at string, view bool, noWatch string, watchErr, loadErr bool) {
			ops = append(ops, op{Name: fmt.Sprintf("Load(%s) at %q view=%v noWatch=%q watchErr=%v loadErr=%v", kind, at, view, noWatch, watchErr, loadErr),
				En: func(w *watchWorld) bool { return !w.closed && len(w.src) < 2 },
				Do: func(w *watchWorld) error {
					return w.load(kind, at, view, noWatch, enabled, watchErr, loadErr)
				}})
		}
		for _, kind := range []string{"read", "bytes", "stream"} {
			add(kind, "", false, "", false, false)
			add(kind, "app", false, "", false, false)
			add(kind, "app", true, "", false, false)
			add(kind, "app.n", false, "", false, false)
			add(kind, "", false, "true", false, false)
			add(kind, "app", false, "true", false, false)
			add(kind, "app", false, "", true, false)
			if kind != "stream" {
				add(kind, "", false, "", false, true)
			}
		}
		add("unwatchable", "app", false, "", false, false)
		add("read", "app", false, "false", false, false)
		add("bytes", "", false, "true,false", false, false)
		type ev struct {
			name string
			op   store.Op
			keys []string
			err  bool
		}
		evs := []ev{
			{"create", store.OpCreate, []string{"new"}, false},
			{"create2", store.OpCreate, []string{"s", "n.k", "n.new"}, false},
			{"write", store.OpWrite, []string{"s"}, false},
			{"write2", store.OpWrite, []string{"n.k", "s", "n.k"}, false},
			{"create+write", store.OpCreate | store.OpWrite, []string{"n.k", "new"}, false},
			{"write+chmod", store.OpWrite | store.OpChmod, []string{"s", "n.new"}, false},
			{"remove", store.OpRemove, []string{"n.k"}, false},
			{"remove2", store.OpRemove, []string{"s", "absent", "n"}, false},
			{"remove+chmod+rename", store.OpRemove | store.OpChmod | store.OpRename, []string{"s", "n.k"}, false},
			{"write nil", store.OpWrite, []string{"s", "n.new"}, false},
			{"create nil", store.OpCreate, []string{"s", "new"}, false},
			{"rename", store.OpRename, []string{"s", "n.k"}, false},
			{"chmod", store.OpChmod, []string{"s"}, false},
			{"none", 0, []string{"s"}, false},
			{"nothing", store.OpWrite, nil, false},
			{"error", store.OpWrite, []string{"s"}, true},
			{"error-remove", store.OpRemove, []string{"s"}, true},
		}
		for i := 0; i < 2 && enabled; i++ {
			en := func(w *watchWorld) bool { return !w.closed && i < len(w.src) && w.src[i].watched }
			for _, e := range evs {
				ops = append(ops, op{Name: fmt.Sprintf("event %s of source %d", e.name, i), En: en, Do: func(w *watchWorld) error {
					s := w.src[i]
					w.step++
					ch := &change{op: e.op, keys: e.keys, p: s.prov}
					for j := range e.keys {
						v := any(fmt.Sprint(e.name, w.step%2, j))
						if strings.HasSuffix(e.name, "nil") && j == 0 {
							v = nil
						}
						ch.vals = append(ch.vals, v)
						k := joinD(".", s.at, e.keys[j])
						switch {
						case e.err:
						case e.op&(store.OpCreate|store.OpWrite) != 0:
							w.r.set(k, v)
						case e.op&store.OpRemove != 0:
							w.r.remove(k)
						}
					}
					var err error
					if e.err {
						err = errors.New("watch error")
					}
					s.base.cb(ch, err)
					return nil
				}})
			}
			ops = append(ops, op{Name: fmt.Sprintf("foreign event of source %d", i), En: en, Do: func(w *watchWorld) error {
				w.src[i].base.cb("something else", nil)
				w.src[i].base.cb(nil, nil)
				w.src[i].base.cb(nil, errors.New("watch error"))
				return nil
			}})
		}
		ops = append(ops,
			op{Name: "Set(app.s)", Do: func(w *watchWorld) error { w.st.Set("app.s", "user"); w.r.set("app.s", "user"); return nil }},
			op{Name: "Set(s)", Do: func(w *watchWorld) error { w.st.Set("s", "user"); w.r.set("s", "user"); return nil }},
			op{Name: "Remove(app.n)", Do: func(w *watchWorld) error { w.st.Remove("app.n"); w.r.remove("app.n"); return nil }},
			op{Name: "Dup().Close()", Do: func(w *watchWorld) error { w.st.Dup().Close(); return nil }},
			op{Name: "Close()", En: func(w *watchWorld) bool { return !w.closed }, Do: func(w *watchWorld) error { w.closed = true; w.st.Close(); return nil }})
		s := &eng.Sys[watchWorld]{Name: fmt.Sprintf("watch enabled=%v", enabled), Ops: ops,
			New: func() *watchWorld {
				w := &watchWorld{world: *newWorld(family{}, ".", store.WithWatchEnable(enabled))}
				for _, k := range []string{"q", "app.q"} {
					w.st.Set(k, "q")
					w.r.set(k, "q")
				}
				return w
			},
			Obs: func(w *watchWorld) error {
				got, dup := leaves(w.st, "")
				if want := w.r.values(w.r.keys()); dup != "" || !sameMap(got, want) {
					return errf("the store holds %v, want %v", got, want)
				}
				for i, s := range w.src {
					want, ww := 0, 0
					if s.watched {
						ww = 1
						if w.closed {
							want = 1
						}
					}
					if s.base.closed != want {
						return errf("source %d is closed %d times, want %d", i, s.base.closed, want)
					}
					if s.base.watched != ww {
						return errf("source %d is watched %d times, want %d", i, s.base.watched, ww)
					}
				}
				return nil
			},
			Key: func(w *watchWorld) string {
				k := w.key() + fmt.Sprint(w.closed, w.step%2)
				for _, s := range w.src {
					k += fmt.Sprintf("|%T%s%v%v", s.prov, s.at, s.watched, s.base.watchErr)
				}
				return k
			}}
		eng.DFS(c, s, pick(c, 3, 4))
		s2 := *s
		s2.Name += " bfs"
		eng.BFS(c, &s2, pick(c, 5, 8), 3000000)
	}
}

// ---- C19: programs of nested loading functions

// token of a program
type ldTok struct {
	kind byte // s: Set, f: Set by a fresh view, m: Merge, r: Remove, d: Set on a clone, p: panic, w: WithinLoading {, l: Load {, }: end
	at   int  // which store: 0 root, 1 view of 0, 2 view of 1, 3 view of 0
}

var ldToks = []ldTok{{'s', 0}, {'s', 1}, {'s', 2}, {'s', 3}, {'w', 0}, {'w', 1}, {'w', 2}, {'l', 0}, {'l', 1}, {'l', 3}, {'f', 0}, {'f', 1}, {'m', 0}, {'m', 2}, {'r', 0}, {'r', 1}, {'d', 0}, {'p', 0}, {'}', 0}}

func ldName(p string) (s string) {
	for i := 0; i < len(p); i++ {
		t := ldToks[p[i]]
		x := []string{"root", "view", "view.view", "view2"}[t.at]
		switch t.kind {
		case 's':
			s += x + ".Set; "
		case 'f':
			s += x + ".WithPrefix.Set; "
		case 'm':
			s += x + ".Merge; "
		case 'r':
			s += x + ".Remove; "
		case 'd':
			s += x + ".Dup.Set; "
		case 'p':
			s += "panic; "
		case 'w':
			s += x + ".WithinLoading{ "
		case 'l':
			s += x + ".Load{ "
		default:
			s += "} "
		}
	}
	return
}

type ldWorld struct {
	evWorld
	sts   []store.Store
	pre   []string
	own   [4]bool // the loading flag of each
	n     int
	prog  string
	err   error
	steps int
}

func (w *ldWorld) loading(i int) bool {
	switch i {
	case 0:
		return w.own[0]
	case 1, 3:
		return w.own[i] || w.own[0]
	default:
		return w.own[2] || w.own[1] || w.own[0]
	}
}

func (w *ldWorld) fail(err error) {
	if w.err == nil {
		w.err = err
	}
}

// wrote checks what a write did.
func (w *ldWorld) wrote(k string, v any, loading, flag bool, ordered bool) {
	w.steps++
	n, _, partial, found := w.st.Locate(k, nil)
	if !found || partial || n.Key() != k || !eq(n.Data(), v) {
		w.fail(errf("the key %q is not there", k))
		return
	}
	if n.Modified() == loading {
		w.fail(errf("the key %q: Modified = %v though loading = %v", k, n.Modified(), loading))
	}
	if err := w.check(ordered, evNew(k, v, flag)); err != nil {
		w.fail(err)
	}
}

// skip returns the position after the block which begins at i (after its opening token).
func (w *ldWorld) skip(i int) int {
	for d := 1; i < len(w.prog); i++ {
		switch ldToks[w.prog[i]].kind {
		case 'w', 'l':
			d++
		case '}':
			if d--; d == 0 {
				return i + 1
			}
		}
	}
	return i
}

type ldPanic struct{}

// exec executes from position i on until the end of the block.
func (w *ldWorld) exec(i int) {
	for i < len(w.prog) {
		t := ldToks[w.prog[i]]
		i++
		st, pre := w.sts[t.at], w.pre[t.at]
		w.n++
		k := fmt.Sprintf("k%d", w.n)
		switch t.kind {
		case 's':
			n, _ := st.Set(k, w.n)
			w.wrote(joinD(".", pre, k), w.n, w.loading(t.at), w.loading(t.at), true)
			if n == nil {
				w.fail(errf("Set returned no node"))
			}
		case 'f':
			st.WithPrefix("fresh").Set(k, w.n)
			w.wrote(joinD(".", pre, "fresh", k), w.n, w.loading(t.at), w.loading(t.at), true)
		case 'm':
			_ = st.Merge("", map[string]any{k: w.n})
			w.wrote(joinD(".", pre, k), w.n, w.loading(t.at), true, false)
		case 'r':
			w.sts[0].Set(joinD(".", pre, k), w.n)
			*w.log = nil
			st.Remove(k)
			if err := w.check(true, evDelete(joinD(".", pre, k), w.n, w.loading(t.at))); err != nil {
				w.fail(err)
			}
		case 'd':
			d := st.Dup()
			n, _ := d.Set(k, w.n)
			if !n.Modified() {
				w.fail(errf("a set on a clone made while loading=%v is not flagged as modified", w.loading(t.at)))
			}
			if err := w.check(true); err != nil {
				w.fail(err)
			}
		case 'p':
			panic(ldPanic{})
		case '}':
			return
		default:
			ran := 0
			body := func() {
				ran++
				w.own[t.at] = true
				defer func() { w.own[t.at] = false }()
				w.exec(i)
				if t.kind == 'l' {
					w.own[t.at] = true
				}
			}
			was := w.own[t.at]
			if t.kind == 'w' {
				st.WithinLoading(body)
			} else {
				id := w.n
				p := &readProv{m: map[string]store.ValPkg{k: {Value: id}}}
				p.fault = func(string) error { body(); return nil }
				var wr store.Writeable
				var err error
				wr, err = st.Load(bg, store.WithProvider(p))
				if err != nil || (wr != nil) == was {
					w.fail(errf("Load = %v, %v; was loading = %v", wr, err, was))
				}
				if !was && ran == 1 {
					w.wrote(joinD(".", pre, k), id, true, true, false)
				}
			}
			want := 1
			if was {
				want = 0
			}
			if ran != want {
				w.fail(errf("a loading function ran %d times, want %d", ran, want))
			}
			i = w.skip(i)
		}
		if w.err != nil {
			panic(ldPanic{})
		}
	}
}

// top executes the statements at the top level, each of them survives a panic.
func (w *ldWorld) top() error {
	i := 0
	for i < len(w.prog) {
		next := i + 1
		if k := ldToks[w.prog[i]].kind; k == 'w' || k == 'l' {
			next = w.skip(i + 1)
		}
		full := w.prog
		w.prog = full[:next]
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(ldPanic); !ok && w.err == nil {
						w.err = errf("panic: %v", e)
					}
				}
			}()
			w.exec(i)
		}()
		w.prog = full
		if w.err != nil {
			return w.err
		}
		w.own = [4]bool{}
		i = next
	}
	// the loading state has ended everywhere
	for i, st := range w.sts {
		ran := false
		st.WithinLoading(func() { ran = true })
		if !ran {
			return errf("store %d is still loading", i)
		}
		*w.log = nil
		k := fmt.Sprintf("end%d", i)
		st.Set(k, i)
		if w.wrote(joinD(".", w.pre[i], k), i, false, false, true); w.err != nil {
			return w.err
		}
	}
	return nil
}

func runC19(c *eng.Ctx) {
	depth := pick(c, 5, 6)
	var progs []string
	var gen func(p []byte, open int)
	gen = func(p []byte, open int) {
		if open == 0 && len(p) > 0 {
			progs = append(progs, string(p))
		}
		if len(p)+open >= depth {
			if open > 0 {
				gen(append(p, byte(len(ldToks)-1)), open-1)
			}
			return
		}
		for i, t := range ldToks {
			switch t.kind {
			case '}':
				if open > 0 {
					gen(append(p, byte(i)), open-1)
				}
			case 'w', 'l':
				if len(p)+open+2 <= depth {
					gen(append(p, byte(i)), open+1)
				}
			default:
				gen(append(p, byte(i)), open)
			}
		}
	}
	gen(nil, 0)
	eng.Enum(c, "nested loading programs", len(progs), func(i int) string { return ldName(progs[i]) }, func(i int) (int, error) {
		w := &ldWorld{evWorld: *newEvWorld(), prog: progs[i]}
		v1 := w.st.WithPrefix("v")
		w.sts = []store.Store{w.st, v1, v1.WithPrefix("v"), w.st.WithPrefix("u")}
		w.pre = []string{"", "v", "v.v", "u"}
		err := w.top()
		return w.steps, err
	})
}
