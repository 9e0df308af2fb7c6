package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C08", runC08, "values are copied deeply through maps, slices, arrays, pointers, interfaces and exported struct fields; channels, functions and unexported fields are shared")
}

type box struct {
	N    int
	In   map[string]any
	List []int
	P    *int
}

type dupWorld struct {
	st, cl          store.Store
	rs, rc          *ref
	calls           int
	step            int
	prefix, prefix2 string
}

// deepCopy of the values used in this check (independent of the code under test).
func deepCopy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = deepCopy(e)
		}
		return m
	case []any:
		a := make([]any, len(x))
		for i, e := range x {
			a[i] = deepCopy(e)
		}
		return a
	case []string:
		return append([]string{}, x...)
	case []int:
		return append([]int{}, x...)
	case map[string]int:
		m := map[string]int{}
		for k, e := range x {
			m[k] = e
		}
		return m
	case []map[string]any:
		a := make([]map[string]any, len(x))
		for i, e := range x {
			a[i] = deepCopy(e).(map[string]any)
		}
		return a
	case *box:
		b := *x
		b.In = deepCopy(x.In).(map[string]any)
		b.List = append([]int{}, x.List...)
		p := *x.P
		b.P = &p
		return &b
	case box:
		return *(deepCopy(&x).(*box))
	}
	return v
}

// values, and how they are changed in place.
var mutables = []struct {
	name string
	mk   func() any
	mut  func(v any, n int)
}{
	{"map", func() any { return map[string]any{"a": 1} }, func(v any, n int) { v.(map[string]any)["a"] = n }},
	{"mapmap", func() any { return map[string]any{"a": map[string]any{"b": 1}} }, func(v any, n int) { v.(map[string]any)["a"].(map[string]any)["b"] = n }},
	{"mapslice", func() any { return map[string]any{"a": []any{1, map[string]any{"z": 1}}} }, func(v any, n int) {
		v.(map[string]any)["a"].([]any)[1].(map[string]any)["z"] = n
	}},
	{"[]any", func() any { return []any{1, "x", []any{2}} }, func(v any, n int) { v.([]any)[2].([]any)[0] = n }},
	{"[]string", func() any { return []string{"a", "b"} }, func(v any, n int) { v.([]string)[1] = fmt.Sprint(n) }},
	{"[]int", func() any { return []int{1, 2} }, func(v any, n int) { v.([]int)[0] = n }},
	{"map[string]int", func() any { return map[string]int{"a": 1} }, func(v any, n int) { v.(map[string]int)["b"] = n }},
	{"[]map", func() any { return []map[string]any{{"a": 1}, {"b": 2}} }, func(v any, n int) { v.([]map[string]any)[1]["b"] = n }},
	{"*struct", func() any { p := 5; return &box{1, map[string]any{"i": 1}, []int{1}, &p} }, func(v any, n int) { v.(*box).N = n }},
	{"*struct.In", func() any { p := 5; return &box{1, map[string]any{"i": 1}, []int{1}, &p} }, func(v any, n int) { v.(*box).In["i"] = n }},
	{"*struct.List", func() any { p := 5; return &box{1, map[string]any{"i": 1}, []int{1}, &p} }, func(v any, n int) { v.(*box).List[0] = n }},
	{"*struct.P", func() any { p := 5; return &box{1, map[string]any{"i": 1}, []int{1}, &p} }, func(v any, n int) { *v.(*box).P = n }},
	{"struct", func() any { p := 5; return box{1, map[string]any{"i": 1}, []int{1}, &p} }, func(v any, n int) { v.(box).In["i"] = n; *v.(box).P = n }},
}

func (r *ref) deep() *ref {
	n := r.clone()
	for _, e := range n.m {
		e.val = deepCopy(e.val)
	}
	return n
}

// content renders what is observable of a store.
func content(st store.Store) string {
	var sb strings.Builder
	st.Walk("", func(path, fragment string, n radix.Node[any]) {
		if n.IsLeaf() {
			fmt.Fprintf(&sb, "%q %v %q %q %v %v;", n.Key(), deref(n.Data()), n.Description(), n.Comment(), n.Tag(), n.Modified())
		}
	})
	return sb.String()
}

func deref(v any) any {
	if b, ok := v.(*box); ok {
		return fmt.Sprintf("&{%d %v %v %d}", b.N, b.In, b.List, *b.P)
	}
	if b, ok := v.(box); ok {
		return fmt.Sprintf("{%d %v %v %d}", b.N, b.In, b.List, *b.P)
	}
	return v
}

// same compares a store with a model, all of the observable state.
func (r *ref) same(st store.Store, raw store.Store) error {
	got := map[string]bool{}
	var err error
	raw.Walk("", func(path, fragment string, n radix.Node[any]) {
		if !n.IsLeaf() {
			return
		}
		got[n.Key()] = true
		e, ok := r.m[n.Key()]
		if !ok {
			err = errf("the key %q should not exist", n.Key())
		} else if !eq(deref(n.Data()), deref(e.val)) || n.Description() != e.desc || n.Comment() != e.comment || !eq(n.Tag(), e.tag) || n.Modified() != e.mod {
			err = errf("%q has value %v, desc %q, comment %q, tag %v, modified %v, want %v %q %q %v %v", n.Key(), deref(n.Data()), n.Description(), n.Comment(), n.Tag(), n.Modified(),
				deref(e.val), e.desc, e.comment, e.tag, e.mod)
		}
	})
	if err != nil {
		return err
	}
	for k := range r.m {
		if !got[k] {
			return errf("the key %q is lost", k)
		}
		if v, ok := raw.Get(k); !ok || !eq(deref(v), deref(r.m[k].val)) {
			return errf("Get(%q) = %v, %v, want %v", k, deref(v), ok, deref(r.m[k].val))
		}
	}
	return nil
}

func runC08(c *eng.Ctx) {
	scaleMerge(c, "clone")
	cloneValues(c)
	cloneBig(c)
	cloneKinds(c)
	for _, f := range smallFamilies {
		keys := f.keys[:4]
		type dop = eng.Op[dupWorld]
		mk := func(val func(i int) any) []dop {
			var ops []dop
			both := func(name string, do func(st store.Store, r *ref, n int)) {
				ops = append(ops, dop{Name: "origin." + name, Do: func(w *dupWorld) error { w.step++; do(w.st, w.rs, w.step); return nil }},
					dop{Name: "clone." + name, En: func(w *dupWorld) bool { return w.cl != nil }, Do: func(w *dupWorld) error {
						w.step++
						before := w.calls
						do(w.cl, w.rc, w.step)
						if w.calls != before {
							return errf("clone.%s called a handler of the origin", name)
						}
						return nil
					}})
			}
			for i, k := range keys {
				both(fmt.Sprintf("Set(%q)", k), func(st store.Store, r *ref, n int) { st.Set(k, i); r.set(k, i); r.m[k].mod = true })
				both(fmt.Sprintf("Remove(%q)", k), func(st store.Store, r *ref, n int) { st.Remove(k); r.remove(k) })
			}
			k := keys[1]
			both(fmt.Sprintf("SetComment(%q)", k), func(st store.Store, r *ref, n int) {
				if st.SetComment(k, "d", "c") && r.isKey(k) {
					r.m[k].desc, r.m[k].comment = "d", "c"
				}
			})
			both(fmt.Sprintf("SetTag(%q)", k), func(st store.Store, r *ref, n int) {
				if st.SetTag(k, "t") && r.isKey(k) {
					r.m[k].tag = "t"
				}
			})
			both(fmt.Sprintf("load(%q)", keys[0]), func(st store.Store, r *ref, n int) {
				st.WithinLoading(func() { st.Set(keys[0], "loaded") })
				r.set(keys[0], "loaded")
			})
			ops = append(ops, dop{Name: "Dup", Do: func(w *dupWorld) error { w.cl, w.rc = w.st.Dup(), w.rs.deep(); return nil }},
				dop{Name: "Clone of clone", En: func(w *dupWorld) bool { return w.cl != nil }, Do: func(w *dupWorld) error { w.cl = w.cl.Clone(); return nil }})
			return ops
		}
		s := &eng.Sys[dupWorld]{Name: "dup/" + f.name, Ops: mk(nil),
			New: func() *dupWorld {
				w := &dupWorld{rs: newRef(".")}
				cnt := func() { w.calls++ }
				w.st = store.New(store.WithOnNewHandlers(func(string, any, bool) { cnt() }), store.WithOnChangeHandlers(func(string, any, any, bool) { cnt() }),
					store.WithOnDeleteHandlers(func(string, any, bool) { cnt() }))
				return w
			},
			Obs: func(w *dupWorld) error {
				if err := w.rs.same(w.st, w.st); err != nil {
					return errf("origin: %v", err)
				}
				if w.cl != nil {
					if err := w.rc.same(w.cl, w.cl); err != nil {
						return errf("clone: %v", err)
					}
				}
				return nil
			},
			Key: func(w *dupWorld) string {
				k := structure(w.st) + w.rs.String()
				if w.cl != nil {
					k += "##" + structure(w.cl) + w.rc.String()
				}
				return k
			}}
		eng.BFS(c, s, pick(c, 6, 7), pick(c, 60000, 1500000))
		s2 := *s
		s2.Name = "dup-dfs/" + f.name
		eng.DFS(c, &s2, pick(c, 4, 5))
	}
	// changing nested values in place, through either of them
	for _, m := range mutables {
		keys := []string{"a.b", "a"}
		type dop = eng.Op[dupWorld]
		var ops []dop
		mutate := func(st store.Store, r *ref, k string, n int) {
			if r.isKey(k) {
				m.mut(st.MustGet(k), n)
				m.mut(r.m[k].val, n)
			}
		}
		for _, k := range keys {
			ops = append(ops,
				dop{Name: fmt.Sprintf("origin.Set(%q,%s)", k, m.name), Do: func(w *dupWorld) error {
					v := m.mk()
					w.st.Set(k, v)
					w.rs.set(k, deepCopy(v))
					w.rs.m[k].mod = true
					return nil
				}},
				dop{Name: fmt.Sprintf("origin.mutate(%q)", k), Do: func(w *dupWorld) error { w.step++; mutate(w.st, w.rs, k, 100+w.step); return nil }},
				dop{Name: fmt.Sprintf("clone.mutate(%q)", k), En: func(w *dupWorld) bool { return w.cl != nil }, Do: func(w *dupWorld) error {
					w.step++
					mutate(w.cl, w.rc, k, 100+w.step)
					return nil
				}})
		}
		ops = append(ops, dop{Name: "Dup", Do: func(w *dupWorld) error { w.cl, w.rc = w.st.Dup(), w.rs.deep(); return nil }},
			dop{Name: "swap", En: func(w *dupWorld) bool { return w.cl != nil }, Do: func(w *dupWorld) error {
				w.st, w.cl, w.rs, w.rc = w.cl, w.st, w.rc, w.rs
				return nil
			}})
		s := &eng.Sys[dupWorld]{Name: "mutate/" + m.name, Ops: ops,
			New: func() *dupWorld { return &dupWorld{rs: newRef("."), st: store.New()} },
			Obs: func(w *dupWorld) error {
				if err := w.rs.same(w.st, w.st); err != nil {
					return errf("origin: %v", err)
				}
				if w.cl != nil {
					if err := w.rc.same(w.cl, w.cl); err != nil {
						return errf("clone: %v", err)
					}
				}
				return nil
			}}
		eng.DFS(c, s, pick(c, 4, 6))
	}
	dupConfig(c)
}

// dupConfig: the prefix, the delimiter, the mode and the other settings.
func dupConfig(c *eng.Ctx) {
	prefixes := []string{"", "app", "app.log"}
	delims := []rune{'.', '/', '→'}
	modes := []string{"N", "R", "BR"}
	n := len(prefixes) * len(delims) * len(modes) * 2
	eng.Enum(c, "dup-config", n, func(i int) string {
		return fmt.Sprintf("prefix %q delimiter %q mode %s flatten %v", prefixes[i%3], delims[i/3%3], modes[i/9%3], i/27 == 1)
	}, func(i int) (int, error) {
		pre, d, mode, flat := prefixes[i%3], delims[i/3%3], modes[i/9%3], i/27 == 1
		pre = strings.ReplaceAll(pre, ".", string(d))
		st := store.New(store.WithPrefix(pre), store.WithDelimiter(d), store.WithFlattenSlice(flat))
		switch mode {
		case "R":
			st = st.R()
		case "BR":
			st = st.BR()
		}
		st.Set("k", 1)
		for _, cl := range []store.Store{st.Dup(), st.Clone()} {
			if cl.Prefix() != pre || cl.Delimiter() != d || cl.RecursiveMode() != st.RecursiveMode() {
				return 3, errf("the clone has prefix %q delimiter %q mode %v", cl.Prefix(), cl.Delimiter(), cl.RecursiveMode())
			}
			if cl.MustGet("k") != 1 {
				return 3, errf("the clone: Get(k) = %v", cl.MustGet("k"))
			}
			if err := cl.Merge("s", map[string]any{"l": []any{7, 8}}); err != nil {
				return 3, err
			}
			key := "s" + string(d) + "l" + string(d) + "1"
			if _, ok := cl.Get(key); ok != flat {
				return 3, errf("slice flattening of the clone: Has(%q) = %v, want %v", key, ok, flat)
			}
			cl.SetPrefix("zz")
			cl.SetDelimiter('#')
			if st.Prefix() != pre || st.Delimiter() != d || st.Has("s") {
				return 3, errf("the clone affects its origin: prefix %q, delimiter %q, Has(s) = %v", st.Prefix(), st.Delimiter(), st.Has("s"))
			}
		}
		return 12, nil
	})
}
