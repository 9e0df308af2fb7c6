package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C11", runC11, "the path is the absolute one for the changes made through views, merges and loads", "the order of the notifications within one merge or load is unspecified")
}

// evWorld: the store with two handlers of each kind.
type evWorld struct {
	world
	log   *[]string
	views []store.Store
}

func evNew(path string, v any, flag bool) string {
	return fmt.Sprintf("new %q %s %v", path, show(v), flag)
}
func evChange(path string, v, old any, flag bool) string {
	return fmt.Sprintf("change %q %s <- %s %v", path, show(v), show(old), flag)
}
func evDelete(path string, v any, flag bool) string {
	return fmt.Sprintf("delete %q %s %v", path, show(v), flag)
}

func newEvWorld(opts ...store.Opt) *evWorld {
	w := &evWorld{log: &[]string{}}
	log := w.log
	add := func(s string) { *log = append(*log, s) }
	opts = append(opts, store.WithOnNewHandlers(nil, func(p string, v any, f bool) { add("1 " + evNew(p, v, f)) }),
		store.WithOnChangeHandlers(func(p string, v, o any, f bool) { add("1 " + evChange(p, v, o, f)) }, nil),
		store.WithOnDeleteHandlers(func(p string, v any, f bool) { add("1 " + evDelete(p, v, f)) }),
		store.WithOnNewHandlers(func(p string, v any, f bool) { add("2 " + evNew(p, v, f)) }),
		store.WithOnChangeHandlers(func(p string, v, o any, f bool) { add("2 " + evChange(p, v, o, f)) }),
		store.WithOnDeleteHandlers(func(p string, v any, f bool) { add("2 " + evDelete(p, v, f)) }))
	w.world = *newWorld(family{}, ".", opts...)
	w.views = []store.Store{w.st, w.st.WithPrefix("app"), w.st.WithPrefix("app").WithPrefix("log"), w.st.WithPrefix("zz").WithPrefixReplaced("app.log"), w.st.N(), w.st.BR().N()}
	return w
}

var evPrefixes = []string{"", "app", "app.log", "app.log", "", ""}

// expect the notification of a set, and apply it to the model.
func (w *evWorld) doSet(k string, v any, flag bool) string {
	if e, ok := w.r.m[k]; ok {
		old := e.val
		w.r.set(k, v)
		return evChange(k, v, old, flag)
	}
	w.r.set(k, v)
	return evNew(k, v, flag)
}

// check compares the received notifications with the wanted ones.
func (w *evWorld) check(ordered bool, want ...string) error {
	var all []string
	for _, x := range want {
		all = append(all, "1 "+x, "2 "+x)
	}
	got := *w.log
	*w.log = nil
	if len(got) == len(all) {
		if ordered {
			if strings.Join(got, "\n") == strings.Join(all, "\n") {
				return nil
			}
		} else {
			cnt := map[string]int{}
			for i := range got {
				cnt[got[i]]++
				cnt[all[i]]--
			}
			ok := true
			for _, n := range cnt {
				ok = ok && n == 0
			}
			for i := 0; i+1 < len(got); i += 2 { // both of the handlers in turn
				ok = ok && got[i][0] == '1' && got[i+1][0] == '2' && got[i][1:] == got[i+1][1:]
			}
			if ok {
				return nil
			}
		}
	}
	return errf("the handlers got %q, want %q", got, all)
}

func runC11(c *eng.Ctx) {
	eventValues(c)
	type op = eng.Op[evWorld]
	keys := []string{"app", "app.log", "app.log.x", "app.logx", "x"}
	vals := []any{1, nil}
	var ops []op
	for vi, pre := range evPrefixes {
		rels := []string{"x", "log"}
		if vi == 0 {
			rels = keys
		}
		for _, rel := range rels {
			full := joinD(".", pre, rel)
			for _, v := range vals {
				if v == nil && vi != 0 && vi != 1 {
					continue
				}
				ops = append(ops, op{Name: fmt.Sprintf("view#%d.Set(%q,%v)", vi, rel, v), Do: func(w *evWorld) error {
					want := w.doSet(full, v, false)
					w.views[vi].Set(rel, v)
					return w.check(true, want)
				}})
			}
			if vi < 4 {
				ops = append(ops, op{Name: fmt.Sprintf("view#%d.Remove(%q)", vi, rel), Do: func(w *evWorld) error {
					var want []string
					if e, ok := w.r.m[full]; ok {
						want = []string{evDelete(full, e.val, false)}
					} else if w.r.isSection(full) {
						want = []string{evDelete(full, nil, false)}
					}
					w.r.remove(full)
					w.views[vi].Remove(rel)
					return w.check(true, want...)
				}})
			}
		}
		if vi < 4 {
			ops = append(ops, op{Name: fmt.Sprintf("view#%d.Merge", vi), Do: func(w *evWorld) error {
				m := map[string]any{"x": "m", "log": map[string]any{"x": "n"}}
				fl := map[string]any{}
				for k, v := range m {
					flat(fl, joinD(".", pre, k), ".", v, false)
				}
				var want []string
				for _, k := range sorted(fl) {
					want = append(want, w.doSet(k, fl[k], true))
				}
				if err := w.views[vi].Merge("", m); err != nil {
					return err
				}
				return w.check(false, want...)
			}})
			ops = append(ops, op{Name: fmt.Sprintf("view#%d.Merge(log)", vi), Do: func(w *evWorld) error {
				k := joinD(".", pre, "log", "x")
				want := w.doSet(k, "mm", true)
				if err := w.views[vi].Merge("log", map[string]any{"x": "mm"}); err != nil {
					return err
				}
				return w.check(false, want)
			}})
			ops = append(ops, op{Name: fmt.Sprintf("view#%d.WithinLoading(Set,Remove)", vi), Do: func(w *evWorld) error {
				k := joinD(".", pre, "x")
				want := []string{w.doSet(k, "wl", true)}
				if vi == 0 {
					if e, ok := w.r.m["app"]; ok {
						want = append(want, evDelete("app", e.val, true))
					} else if w.r.isSection("app") {
						want = append(want, evDelete("app", nil, true))
					}
					w.r.remove("app")
				}
				w.views[vi].WithinLoading(func() {
					w.views[vi].Set("x", "wl")
					if vi == 0 {
						w.st.Remove("app")
					}
				})
				return w.check(true, want...)
			}})
		}
	}
	for _, at := range []string{"", "app", "app.log"} {
		for _, kind := range []string{"read", "bytes", "stream"} {
			ops = append(ops, op{Name: fmt.Sprintf("Load(%s,%q)", kind, at), Do: func(w *evWorld) error {
				m := map[string]any{"x": "l", "log.x": "k"}
				var want []string
				for _, k := range sorted(m) {
					want = append(want, w.doSet(joinD(".", at, k), m[k], true))
				}
				var prov store.Provider
				switch kind {
				case "read":
					prov = &readProv{m: map[string]store.ValPkg{"x": {Value: "l"}, "log.x": {Value: "k"}}}
				case "bytes":
					prov = &bytesProv{b: mustJSON(map[string]any{"x": "l", "log": map[string]any{"x": "k"}}), provBase: provBase{codec: &jsonCodec{}}}
				default:
					prov = newStream(m)
				}
				opts := []store.LoadOpt{store.WithProvider(prov)}
				if at != "" {
					opts = append(opts, store.WithStorePrefix(at))
				}
				if _, err := w.st.Load(bg, opts...); err != nil {
					return err
				}
				return w.check(false, want...)
			}})
		}
	}
	// what changes no value
	ops = append(ops, op{Name: "reads", Do: func(w *evWorld) error {
		for _, k := range keys {
			w.st.Get(k)
			w.st.Has(k)
			w.st.MustString(k)
			_, _ = w.st.GetM(k)
		}
		w.st.Dump()
		w.st.Walk("", func(path, fragment string, node radix.Node[any]) {})
		w.st.Dup().Set("x", 99)
		w.st.Dup().Remove("app")
		w.st.Remove("nosuch")
		w.st.Remove("app.lo")
		w.st.SetComment("app", "", "")
		_ = w.st.Merge("", nil)
		_ = w.st.Merge("q", map[string]any{"e": map[string]any{}})
		return w.check(true)
	}}, op{Name: "RemoveEx(app.log)", Do: func(w *evWorld) error {
		var want []string
		if e, ok := w.r.m["app.log"]; ok {
			want = []string{evDelete("app.log", e.val, false)}
		} else if w.r.isSection("app.log") {
			want = []string{evDelete("app.log", nil, false)}
		}
		w.r.remove("app.log")
		w.st.(trieAPI).RemoveEx("app.log")
		return w.check(true, want...)
	}})
	s := &eng.Sys[evWorld]{Name: "events", New: func() *evWorld { return newEvWorld() }, Ops: ops,
		Key: func(w *evWorld) string { return w.key() },
		Obs: func(w *evWorld) error { return w.obsGet(append(keys, "app.log.log", "app.log.log.x", "log.x")) }}
	eng.DFS(c, s, pick(c, 3, 3))
	s2 := *s
	s2.Name = "events-bfs"
	eng.BFS(c, &s2, pick(c, 4, 5), pick(c, 200000, 1500000))
	// the families: all states, the notifications of sets and removals
	for _, f := range families {
		var ops []op
		for i, k := range f.keys {
			ops = append(ops, op{Name: fmt.Sprintf("Set(%q)", k), Do: func(w *evWorld) error {
				w.step++
				want := w.doSet(k, i, false)
				w.st.Set(k, i)
				return w.check(true, want)
			}}, op{Name: fmt.Sprintf("Remove(%q)", k), Do: func(w *evWorld) error {
				var want []string
				if e, ok := w.r.m[k]; ok {
					want = []string{evDelete(k, e.val, false)}
				} else if w.r.isSection(k) {
					want = []string{evDelete(k, nil, false)}
				}
				w.r.remove(k)
				w.st.Remove(k)
				return w.check(true, want...)
			}})
		}
		s := &eng.Sys[evWorld]{Name: "events/" + f.name, Ops: ops, New: func() *evWorld {
			w := newEvWorld()
			for i, k := range f.pre {
				w.st.Set(k, i)
				w.r.set(k, i)
			}
			*w.log = nil
			return w
		}, Key: func(w *evWorld) string { return w.key() }}
		eng.BFS(c, s, pick(c, 5, 8), pick(c, 6000, 300000))
	}
	// a handler which changes the store itself
	reentrant(c)
	watchedEvents(c)
	manyHandlers(c)
	modeEvents(c)
}

// modeEvents: what is new depends on the very key only, not on what a lookup of its path finds: a key of the same
// name in an enclosing section (in the recursive modes), or a pattern which matches the path.
func modeEvents(c *eng.Ctx) {
	type op = eng.Op[evWorld]
	for _, cfg := range []struct {
		name, d string
		keys    []string
		views   func(st store.Store) ([]store.Store, []string)
	}{
		{"modes", ".", []string{"k", "a.k", "a.b.k", "a.b.c.k", "a.b"}, func(st store.Store) ([]store.Store, []string) {
			return []store.Store{st, st.BR(), st.R(), st.WithPrefix("a").BR(), st.BR().WithPrefix("a.b")}, []string{"", "", "", "a.", "a.b."}
		}},
		{"patterns", "/", []string{"/a/:id", "/a/b", "/a/c", "/a/:id/c", "/a/b/c", "/*f", "/z"}, func(st store.Store) ([]store.Store, []string) {
			return []store.Store{st, st.WithPrefix("/a"), st.BR()}, []string{"", "/a/", ""}
		}},
	} {
		_, pres := cfg.views(store.New())
		var ops []op
		for vi, pre := range pres {
			for _, k := range cfg.keys {
				rel, ok := strings.CutPrefix(k, pre)
				if !ok || rel == "" {
					continue
				}
				ops = append(ops, op{Name: fmt.Sprintf("view#%d.Set(%q)", vi, rel), Do: func(w *evWorld) error {
					want := w.doSet(k, "s", false)
					w.views[vi].Set(rel, "s")
					return w.check(true, want)
				}}, op{Name: fmt.Sprintf("view#%d.Remove(%q)", vi, rel), En: func(w *evWorld) bool { return cfg.d == "." || w.r.isKey(k) }, Do: func(w *evWorld) error {
					var want []string
					if e, ok := w.r.m[k]; ok {
						want = []string{evDelete(k, e.val, false)}
					} else if w.r.isSection(k) {
						want = []string{evDelete(k, nil, false)}
					}
					w.r.remove(k)
					w.views[vi].Remove(rel)
					return w.check(true, want...)
				}}, op{Name: fmt.Sprintf("view#%d.Merge(%q)", vi, rel), Do: func(w *evWorld) error {
					want := w.doSet(k, "m", true)
					at, last := "", rel
					if i := strings.LastIndex(rel, cfg.d); i > 0 {
						at, last = rel[:i], rel[i+1:]
					}
					if err := w.views[vi].Merge(at, map[string]any{last: "m"}); err != nil {
						return err
					}
					return w.check(true, want)
				}}, op{Name: fmt.Sprintf("view#%d.Load(%q)", vi, rel), Do: func(w *evWorld) error {
					want := w.doSet(k, "l", true)
					if _, err := w.views[vi].Load(bg, store.WithProvider(&readProv{m: map[string]store.ValPkg{rel: {Value: "l"}}})); err != nil {
						return err
					}
					return w.check(true, want)
				}})
			}
		}
		s := &eng.Sys[evWorld]{Name: "events-" + cfg.name, Ops: ops, New: func() *evWorld {
			w := newEvWorld(store.WithDelimiter([]rune(cfg.d)[0]))
			w.r = newRef(cfg.d)
			w.views, _ = cfg.views(w.st)
			return w
		}, Key: func(w *evWorld) string { return w.key() }}
		eng.DFS(c, s, pick(c, 2, 3))
		s2 := *s
		s2.Name += "-bfs"
		eng.BFS(c, &s2, pick(c, 3, 0), pick(c, 20000, 400000))
	}
}

// watchedEvents: the changes of a watched source are notified like sets and removals (whether they are
// flagged as loading is not claimed).
func watchedEvents(c *eng.Ctx) {
	type ww struct {
		evWorld
		prov *watchReadProv
	}
	type op = eng.Op[ww]
	for _, at := range []string{"", "app", "app.log"} {
		var ops []op
		check := func(w *ww, want ...string) error {
			for i, x := range *w.log {
				(*w.log)[i] = strings.TrimSuffix(strings.TrimSuffix(x, " false"), " true")
			}
			for i, x := range want {
				want[i] = strings.TrimSuffix(x, " false")
			}
			return w.check(true, want...)
		}
		send := func(w *ww, o store.Op, keys []string) {
			ch := &change{op: o, keys: keys, p: w.prov}
			for range keys {
				ch.vals = append(ch.vals, fmt.Sprint("e", w.step))
			}
			w.prov.cb(ch, nil)
		}
		for _, keys := range [][]string{{"s"}, {"n.k"}, {"s", "n.k"}, {"n.k", "new"}, {"n"}} {
			full := func(k string) string { return joinD(".", at, k) }
			ops = append(ops, op{Name: fmt.Sprintf("created %v", keys), En: func(w *ww) bool {
				for _, k := range keys {
					if w.r.exists(full(k)) {
						return false
					}
				}
				return true
			}, Do: func(w *ww) error {
				w.step++
				var want []string
				for _, k := range keys {
					want = append(want, w.doSet(full(k), fmt.Sprint("e", w.step), false))
				}
				send(w, store.OpCreate, keys)
				return check(w, want...)
			}}, op{Name: fmt.Sprintf("written %v", keys), En: func(w *ww) bool {
				for _, k := range keys {
					if !w.r.isKey(full(k)) {
						return false
					}
				}
				return true
			}, Do: func(w *ww) error {
				w.step++
				var want []string
				for _, k := range keys {
					want = append(want, w.doSet(full(k), fmt.Sprint("e", w.step), false))
				}
				send(w, store.OpWrite, keys)
				return check(w, want...)
			}}, op{Name: fmt.Sprintf("removed %v", keys), Do: func(w *ww) error {
				w.step++
				var want []string
				for _, k := range keys {
					if e, ok := w.r.m[full(k)]; ok {
						want = append(want, evDelete(full(k), e.val, false))
					} else if w.r.isSection(full(k)) {
						want = append(want, evDelete(full(k), nil, false))
					}
					w.r.remove(full(k))
				}
				send(w, store.OpRemove, keys)
				return check(w, want...)
			}}, op{Name: fmt.Sprintf("renamed %v", keys), Do: func(w *ww) error {
				send(w, store.OpRename, keys)
				send(w, store.OpChmod, keys)
				w.prov.cb(&change{op: store.OpWrite, keys: keys, vals: make([]any, len(keys)), p: w.prov}, errFault)
				return check(w)
			}})
		}
		ops = append(ops, op{Name: "Set(app.log.s)", Do: func(w *ww) error {
			w.step++
			want := w.doSet("app.log.s", w.step, false)
			w.st.Set("app.log.s", w.step)
			return check(w, want)
		}})
		s := &eng.Sys[ww]{Name: "events-watch@" + at, Ops: ops, New: func() *ww {
			w := &ww{evWorld: *newEvWorld(store.WithWatchEnable(true))}
			w.prov = &watchReadProv{readProv{m: map[string]store.ValPkg{"s": {Value: "src"}, "n.k": {Value: "src"}}}}
			opts := []store.LoadOpt{store.WithProvider(w.prov)}
			if at != "" {
				opts = append(opts, store.WithStorePrefix(at))
			}
			if _, err := w.st.Load(bg, opts...); err != nil || w.prov.cb == nil {
				panic(fmt.Sprint("the source is not watched: ", err))
			}
			w.r.setAll(map[string]any{joinD(".", at, "s"): "src", joinD(".", at, "n.k"): "src"}, false)
			*w.log = nil
			return w
		}, Obs: func(w *ww) error {
			got, _ := leaves(w.st, "")
			if want := w.r.values(w.r.keys()); !sameMap(got, want) {
				return errf("the store has %v, want %v", got, want)
			}
			return nil
		}}
		eng.DFS(c, s, pick(c, 3, 4))
	}
}

// manyHandlers: any number of handlers, of views of any depth, each of them is called once and in turn.
func manyHandlers(c *eng.Ctx) {
	const maxH, maxV = 9, 7
	eng.Enum(c, "many-handlers", (maxH+1)*(maxV+1)*2, func(i int) string {
		return fmt.Sprintf("%d handlers of each kind, %d nested views, one option each: %v", i%(maxH+1), i/(maxH+1)%(maxV+1), i/(maxH+1)/(maxV+1) == 1)
	}, func(i int) (int, error) {
		nh, nv, each := i%(maxH+1), i/(maxH+1)%(maxV+1), i/(maxH+1)/(maxV+1) == 1
		var got []string
		var ns []store.OnNewHandler
		var cs []store.OnChangeHandler
		var ds []store.OnDeleteHandler
		for h := 0; h < nh; h++ {
			ns = append(ns, func(p string, v any, f bool) { got = append(got, fmt.Sprint(h, " ", evNew(p, v, f))) })
			cs = append(cs, func(p string, v, o any, f bool) { got = append(got, fmt.Sprint(h, " ", evChange(p, v, o, f))) })
			ds = append(ds, func(p string, v any, f bool) { got = append(got, fmt.Sprint(h, " ", evDelete(p, v, f))) })
		}
		var opts []store.Opt
		if each {
			for h := range ns {
				opts = append(opts, store.WithOnNewHandlers(ns[h]), store.WithOnChangeHandlers(cs[h]), store.WithOnDeleteHandlers(ds[h]))
			}
		} else {
			opts = append(opts, store.WithOnNewHandlers(ns...), store.WithOnChangeHandlers(cs...), store.WithOnDeleteHandlers(ds...))
		}
		var st store.Store = store.New(opts...)
		pre := ""
		for v := 0; v < nv; v++ {
			st = st.WithPrefix(fmt.Sprint("p", v))
			pre += fmt.Sprint("p", v, ".")
		}
		var want []string
		all := func(x string) {
			for h := 0; h < nh; h++ {
				want = append(want, fmt.Sprint(h, " ", x))
			}
		}
		all(evNew(pre+"a.b", 1, false))
		st.Set("a.b", 1)
		all(evChange(pre+"a.b", 2, 1, false))
		st.Set("a.b", 2)
		all(evChange(pre+"a.b", 3, 2, true))
		if err := st.Merge("a", map[string]any{"b": 3}); err != nil {
			return 3, err
		}
		all(evChange(pre+"a.b", nil, 3, true))
		st.WithinLoading(func() { st.Set("a.b", nil) })
		all(evDelete(pre+"a", nil, false))
		st.Remove("a")
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			return 5, errf("the handlers got %q, want %q", got, want)
		}
		return 5, nil
	})
}

// reentrant: a handler sets or removes another key; both changes are notified.
func reentrant(c *eng.Ctx) {
	type rw struct {
		st  store.Store
		got []string
		m   *ref
	}
	keys := []string{"a", "a.b", "ab"}
	var ops []eng.Op[rw]
	for i, k := range keys {
		ops = append(ops, eng.Op[rw]{Name: fmt.Sprintf("Set(%q)", k), Do: func(w *rw) error {
			w.got = nil
			var want []string
			// the handler of k sets k+"-log"
			one := func(k string, v any) {
				if e, ok := w.m.m[k]; ok {
					want = append(want, evChange(k, v, e.val, false))
				} else {
					want = append(want, evNew(k, v, false))
				}
				w.m.set(k, v)
			}
			one(k, i)
			one(k+"-log", i)
			w.st.Set(k, i)
			if strings.Join(w.got, "\n") != strings.Join(want, "\n") {
				return errf("the handlers got %q, want %q", w.got, want)
			}
			return nil
		}}, eng.Op[rw]{Name: fmt.Sprintf("Remove(%q)", k), Do: func(w *rw) error {
			w.st.Remove(k)
			w.m.remove(k)
			return nil
		}})
	}
	s := &eng.Sys[rw]{Name: "reentrant", Ops: ops, New: func() *rw {
		w := &rw{m: newRef(".")}
		w.st = store.New(store.WithOnNewHandlers(func(p string, v any, f bool) {
			w.got = append(w.got, evNew(p, v, f))
			if !strings.HasSuffix(p, "-log") {
				w.st.Set(p+"-log", v)
			}
		}), store.WithOnChangeHandlers(func(p string, v, o any, f bool) {
			w.got = append(w.got, evChange(p, v, o, f))
			if !strings.HasSuffix(p, "-log") {
				w.st.Set(p+"-log", v)
			}
		}))
		return w
	}, Obs: func(w *rw) error {
		got, _ := leaves(w.st, "")
		if want := w.m.values(w.m.keys()); !sameMap(got, want) {
			return errf("the store has %v, want %v", got, want)
		}
		return nil
	}}
	eng.DFS(c, s, pick(c, 4, 5))
}
