package checks

import (
	"fmt"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C01", runC01, "keys are non-empty dotted paths without blanks, empty segments, and segments beginning with ':' or '*' (blanks are rewritten, ':' and '*' are patterns)")
	register("C02", runC02, "queried paths have no empty segments, except of one trailing delimiter")
	register("C03", runC03)
}

var oddValues = []any{nil, 0, false, "", "x", 1.5, []any{1, "b"}, map[string]any{"k": 1}, []string{}, struct{ A int }{3}}

// C01: the store is a map, whatever the history and the shape of the tree.
func runC01(c *eng.Ctx) {
	for _, f := range families {
		probes := probesOf(append(append([]string{}, f.keys...), f.pre...), ".")
		// 1. all histories of writes with distinct values, no state matching
		s := &eng.Sys[world]{Name: "set/" + f.name,
			New: func() *world { return newWorld(f, ".") },
			Obs: func(w *world) error { return w.obsGet(probes) },
			Key: (*world).key,
		}
		for _, k := range f.keys {
			s.Ops = append(s.Ops, opSetS(k))
		}
		eng.DFS(c, s, pick(c, 5, 7))
	}
	// 2. all reachable states by writes and removals, with state matching
	for _, f := range families {
		probes := probesOf(append(append([]string{}, f.keys...), f.pre...), ".")
		s := &eng.Sys[world]{Name: "setrm/" + f.name,
			New: func() *world { return newWorld(f, ".") },
			Obs: func(w *world) error { return w.obsGet(probes) },
			Key: (*world).key,
		}
		for _, k := range f.keys {
			s.Ops = append(s.Ops, opSet(k, 1), opRemove(k))
		}
		if len(f.pre) > 0 {
			s.Ops = append(s.Ops, opRemove(f.pre[0]), opSet(f.pre[0], 2))
		}
		bfs(c, f, s, pick(c, 12000, 400000))
	}
	// 3. odd values: nil, zero values, slices, maps
	{
		keys := []string{"a.b", "a"}
		probes := probesOf(keys, ".")
		s := &eng.Sys[world]{Name: "values",
			New: func() *world { return newWorld(family{}, ".") },
			Obs: func(w *world) error { return w.obsGet(probes) },
			Key: (*world).key,
		}
		for _, k := range keys {
			for _, v := range oddValues {
				s.Ops = append(s.Ops, opSet(k, v))
			}
		}
		eng.DFS(c, s, pick(c, 3, 5))
	}
	valuesWorld(c, "get", 0, func(w *world, keys []string) error { return w.obsGet(probesOf(keys, ".")) })
	// 4. the typed stores
	typedC01(c, "int", func(i int) int { return i })
	typedC01(c, "string", func(i int) string { return fmt.Sprint("v", i) })
	typedC01(c, "struct", func(i int) struct{ N int } { return struct{ N int }{i} })
	typedC01(c, "ptr", func(i int) *int { return &i })
	scaleWorld(c, "get", func(w *world, keys []string) error { return w.obsGet(fewProbes(keys)) })
	// 5. the trie API: Insert, Set, SetEx, SetNode, Update/SetData
	for _, f := range smallFamilies {
		trieC01(c, f)
	}
}

func pick[T any](c *eng.Ctx, quick, thorough T) T {
	if c.Thorough {
		return thorough
	}
	return quick
}

type typedWorld[T any] struct {
	st   store.MinimalStoreT[T]
	m    *ref
	step int
}

func typedC01[T comparable](c *eng.Ctx, name string, mk func(i int) T) {
	f := families[0]
	probes := probesOf(f.keys, ".")
	var zero T
	s := &eng.Sys[typedWorld[T]]{Name: "typed/" + name,
		New: func() *typedWorld[T] { return &typedWorld[T]{st: store.NewStoreT[T](), m: newRef(".")} },
		Obs: func(w *typedWorld[T]) error {
			for _, p := range probes {
				v, found := w.st.Get(p)
				mv := w.st.MustGet(p)
				want, ok := zero, w.m.exists(p)
				if e, is := w.m.m[p]; is {
					want = e.val.(T)
				}
				if found != ok || v != want || mv != want || w.st.Has(p) != ok {
					return errf("Get(%q) = (%v, %v), MustGet = %v, Has = %v, want (%v, %v); keys: %v", p, v, found, mv, w.st.Has(p), want, ok, w.m.keys())
				}
			}
			return nil
		},
	}
	for _, k := range f.keys {
		s.Ops = append(s.Ops, eng.Op[typedWorld[T]]{Name: fmt.Sprintf("Set(%q)", k), Do: func(w *typedWorld[T]) error {
			w.step++
			v := mk(w.step)
			w.m.set(k, v)
			n, _ := w.st.Set(k, v)
			if n == nil || n.Data() != v || n.Key() != k {
				return errf("Set(%q, %v) returned node %v", k, v, n)
			}
			return nil
		}})
	}
	eng.DFS(c, s, pick(c, 4, 6))
}

type trieWorld struct {
	t    radix.Trie[any]
	m    *ref
	step int
}

func trieC01(c *eng.Ctx, f family) {
	probes := probesOf(f.keys, ".")
	s := &eng.Sys[trieWorld]{Name: "trie/" + f.name,
		New: func() *trieWorld { return &trieWorld{t: radix.NewTrie[any](), m: newRef(".")} },
		Obs: func(w *trieWorld) error {
			for _, p := range probes {
				v, found := w.t.Get(p)
				var want any
				if e, ok := w.m.m[p]; ok {
					want = e.val
				}
				if found != w.m.exists(p) || !eq(v, want) || !eq(w.t.MustGet(p), want) {
					return errf("Get(%q) = (%s, %v), want %s; keys: %v", p, show(v), found, show(want), w.m.keys())
				}
			}
			return nil
		},
	}
	add := func(name, k string, do func(w *trieWorld, v any) (old any, err error)) {
		s.Ops = append(s.Ops, eng.Op[trieWorld]{Name: fmt.Sprintf("%s(%q)", name, k), Do: func(w *trieWorld) error {
			w.step++
			v := 1000 + w.step
			was := w.m.isKey(k)
			want, _ := w.m.set(k, v)
			old, err := do(w, v)
			if err != nil {
				return err
			}
			if !was {
				want = nil
			}
			if !eq(old, want) {
				return errf("%s(%q) returned the old value %s, want %s", name, k, show(old), show(want))
			}
			return nil
		}})
	}
	for i, k := range f.keys {
		switch i % 4 {
		case 0:
			add("Insert", k, func(w *trieWorld, v any) (any, error) { return w.t.Insert(k, v), nil })
		case 1:
			add("SetEx", k, func(w *trieWorld, v any) (old any, err error) {
				n := 0
				var o2 any
				old = w.t.SetEx(k, v, func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) {
					n++
					o2 = oldData
					if path != k || node.Key() != k || !eq(node.Data(), v) {
						err = errf("SetEx(%q): callback got path %q, key %q, data %s", k, path, node.Key(), show(node.Data()))
					}
				})
				if n != 1 {
					err = errf("SetEx(%q): callback invoked %d times", k, n)
				}
				if !eq(o2, old) {
					err = errf("SetEx(%q): callback got the old value %s, want %s", k, show(o2), show(old))
				}
				return
			})
		case 2:
			add("SetNode", k, func(w *trieWorld, v any) (any, error) {
				n, old := w.t.SetNode(k, v, nil)
				if n.Key() != k || !eq(n.Data(), v) {
					return nil, errf("SetNode(%q) returned the node %q", k, n.Key())
				}
				return old, nil
			})
		case 3:
			add("Update", k, func(w *trieWorld, v any) (old any, err error) {
				w.t.Update(k, func(node radix.Node[any], o any) {
					old = o
					if node.Key() != k {
						err = errf("Update(%q) got the node %q", k, node.Key())
					}
					node.SetData(v)
				})
				return
			})
		}
	}
	eng.DFS(c, s, pick(c, 5, 7))
}

// C02: a path exists iff it is a key or a section, on segment boundaries.
func runC02(c *eng.Ctx) {
	for _, f := range families {
		probes := probesOf(append(append([]string{}, f.keys...), f.pre...), ".")
		s := &eng.Sys[world]{Name: "has/" + f.name,
			New: func() *world { return newWorld(f, ".") },
			Obs: func(w *world) error { return w.obsHas(probes) },
			Key: (*world).key,
		}
		for _, k := range f.keys {
			s.Ops = append(s.Ops, opSetS(k))
		}
		for _, k := range f.keys {
			s.Ops = append(s.Ops, opRemove(k))
		}
		eng.DFS(c, s, pick(c, 3, 4))
		s2 := *s
		s2.Name, s2.Ops = "has-bfs/"+f.name, nil
		for _, k := range f.keys {
			s2.Ops = append(s2.Ops, opSet(k, 1), opRemove(k))
		}
		bfs(c, f, &s2, pick(c, 12000, 400000))
	}
	valuesWorld(c, "has", 12, func(w *world, keys []string) error { return w.obsHas(probesOf(keys, ".")) })
	scaleWorld(c, "has", func(w *world, keys []string) error { return w.obsHas(fewProbes(keys)) })
	for _, d := range []string{"/", "→"} {
		for _, f := range smallFamilies {
			f = withDelim(f, d)
			probes := probesOf(f.keys, d)
			s := &eng.Sys[world]{Name: "has/" + f.name,
				New: func() *world { return newWorld(f, d) },
				Obs: func(w *world) error { return w.obsHas(probes) },
				Key: (*world).key,
			}
			for _, k := range f.keys {
				s.Ops = append(s.Ops, opSetS(k), opRemove(k))
			}
			eng.DFS(c, s, pick(c, 3, 4))
		}
	}
}

// C03: Remove removes exactly the key and what is below it.
func runC03(c *eng.Ctx) {
	for _, f := range families {
		all := append(append([]string{}, f.keys...), f.pre...)
		probes := probesOf(all, ".")
		obs := func(w *world) error {
			if err := w.obsGet(probes); err != nil {
				return err
			}
			return w.obsWalk()
		}
		secs := sections(all, ".")
		s := &eng.Sys[world]{Name: "rm/" + f.name,
			New: func() *world { return newWorld(f, ".") }, Obs: obs, Key: (*world).key}
		for _, k := range f.keys {
			s.Ops = append(s.Ops, opSetS(k))
		}
		for _, k := range f.keys {
			s.Ops = append(s.Ops, opRemove(k))
		}
		eng.DFS(c, s, pick(c, 4, 5))

		// every probed path as a victim, in every reachable state
		s2 := &eng.Sys[world]{Name: "rm-bfs/" + f.name,
			New: func() *world { return newWorld(f, ".") }, Obs: obs, Key: (*world).key}
		for _, k := range f.keys {
			s2.Ops = append(s2.Ops, opSet(k, 1))
		}
		seen := map[string]bool{}
		for _, p := range append(append([]string{}, secs...), probes...) {
			if !seen[p] && (len(p) < 20 || contains(all, p)) {
				seen[p] = true
				s2.Ops = append(s2.Ops, opRemove(p))
			}
		}
		bfs(c, f, s2, pick(c, 12000, 400000))
	}
	valuesWorld(c, "rm", 12, func(w *world, keys []string) error {
		if err := w.obsGet(probesOf(keys, ".")); err != nil {
			return err
		}
		return w.obsWalk()
	})
	scaleWorld(c, "rm", func(w *world, keys []string) error {
		if err := w.obsGet(fewProbes(keys)); err != nil {
			return err
		}
		return w.obsWalk()
	})
	for _, f := range smallFamilies {
		rmExC03(c, f)
	}
}

func contains(a []string, s string) bool {
	for _, x := range a {
		if x == s {
			return true
		}
	}
	return false
}

// sections returns the proper sections of the keys, without and with the trailing delimiter.
func sections(keys []string, d string) (ret []string) {
	seen := map[string]bool{}
	for _, k := range keys {
		for i := range k {
			if i > 0 && len(k) > i+len(d) && k[i:i+len(d)] == d && !seen[k[:i]] {
				seen[k[:i]] = true
				ret = append(ret, k[:i], k[:i]+d)
			}
		}
	}
	return
}

// rmExC03: RemoveEx reports the removed node.
func rmExC03(c *eng.Ctx, f family) {
	s := &eng.Sys[world]{Name: "rmex/" + f.name,
		New: func() *world { return newWorld(f, ".") },
		Obs: (*world).obsWalk, Key: (*world).key}
	for _, k := range f.keys {
		s.Ops = append(s.Ops, opSet(k, k))
	}
	for _, p := range append(sections(f.keys, "."), f.keys...) {
		s.Ops = append(s.Ops, eng.Op[world]{Name: fmt.Sprintf("RemoveEx(%q)", p), Do: func(w *world) error {
			rx, ok := w.st.(interface {
				RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any], removed bool)
			})
			if !ok {
				return nil
			}
			had, e := w.r.exists(p), w.r.m[p]
			w.r.remove(p)
			n, _, removed := rx.RemoveEx(p)
			if removed != had {
				return errf("RemoveEx(%q) = %v, want %v", p, removed, had)
			}
			if e != nil && (n == nil || n.Key() != p || !eq(n.Data(), e.val)) {
				return errf("RemoveEx(%q) returned a wrong node", p)
			}
			return nil
		}})
	}
	eng.BFS(c, s, 0, pick(c, 8000, 200000))
}
