package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C07", runC07, "Walk and Dump always cover the whole tree, so they are not part of the window")
}

type view struct {
	how    string
	prefix string
	mk     func(root store.Store) store.Store
}

func viewsOf(d string) []view {
	j := func(a ...string) string { return strings.Join(a, d) }
	return []view{
		{"WithPrefix(app)", "app", func(r store.Store) store.Store { return r.WithPrefix("app") }},
		{"WithPrefix(app).WithPrefix(log)", j("app", "log"), func(r store.Store) store.Store { return r.WithPrefix("app").WithPrefix("log") }},
		{"WithPrefix(app,log)", j("app", "log"), func(r store.Store) store.Store { return r.WithPrefix("app", "log") }},
		{"WithPrefix(zzz).WithPrefixReplaced(app.log)", j("app", "log"), func(r store.Store) store.Store { return r.WithPrefix("zzz").WithPrefixReplaced(j("app", "log")) }},
		{"WithPrefix(zzz).WithPrefixReplaced(app,log)", j("app", "log"), func(r store.Store) store.Store { return r.WithPrefix("zzz").WithPrefixReplaced("app", "log") }},
		{"N().SetPrefix(app,log)", j("app", "log"), func(r store.Store) store.Store { v := r.N(); v.SetPrefix("app", "log"); return v }},
		{"WithPrefix(q).SetPrefix(app)", "app", func(r store.Store) store.Store { v := r.WithPrefix("q"); v.SetPrefix("app"); return v }},
		{"R().WithPrefix(app).N()", "app", func(r store.Store) store.Store { return r.R().WithPrefix("app").N() }},
		{"WithPrefix()", "", func(r store.Store) store.Store { return r.WithPrefix() }},
		{"WithPrefix(app).WithPrefixReplaced()", "", func(r store.Store) store.Store { return r.WithPrefix("app").WithPrefixReplaced() }},
		{"WithPrefix(app,'',log)", j("app", "log"), func(r store.Store) store.Store { return r.WithPrefix("app", "", "log") }},
		{"WithPrefix('').WithPrefix(app)", "app", func(r store.Store) store.Store { return r.WithPrefix("").WithPrefix("app") }},
		{"WithPrefix(app).WithPrefix(log).WithPrefix(x)", j("app", "log", "x"), func(r store.Store) store.Store { return r.WithPrefix("app").WithPrefix("log").WithPrefix("x") }},
		{"WithPrefix(app).R()", "app", func(r store.Store) store.Store { return r.WithPrefix("app").R() }},
	}
}

type viewWorld struct {
	world
	views []store.Store
}

// C07: views.
func runC07(c *eng.Ctx) {
	scaleMerge(c, "view")
	for _, d := range []string{".", "/", "→"} {
		vs := viewsOf(d)
		j := func(a ...string) string { return strings.Join(a, d) }
		keys := []string{j("app", "log", "x"), j("app", "log"), j("app", "logx"), "app", j("app", "log", "x", "y"), "x", "log"}
		rels := []string{"x", "log", "logx", j("log", "x"), j("x", "y"), "y", "lo", "app", "a", j("log", "zz")}
		full := func(prefix, p string) string {
			if prefix == "" {
				return p
			}
			return prefix + d + p
		}
		obs := func(w *viewWorld) error {
			if got := w.st.Prefix(); got != "" {
				return errf("the prefix of the store became %q", got)
			}
			if err := w.obsGet(append(keys, rels...)); err != nil {
				return errf("by the store: %v", err)
			}
			for i, v := range w.views {
				pre := vs[i].prefix
				bad := func(format string, args ...any) error {
					return errf("view %s: %s; keys: %v", vs[i].how, fmt.Sprintf(format, args...), w.r.keys())
				}
				if v.Prefix() != pre {
					return bad("Prefix() = %q, want %q", v.Prefix(), pre)
				}
				if v.Delimiter() != []rune(d)[0] {
					return bad("Delimiter() = %q", v.Delimiter())
				}
				for _, p := range rels {
					k := full(pre, p)
					got, found := v.Get(p)
					has, must := v.Has(p), v.MustGet(p)
					var want any
					if w.r.isKey(k) {
						want = w.r.m[k].val
					}
					ex := w.r.exists(k)
					if found != ex || has != ex || !eq(got, want) || !eq(must, want) {
						return bad("Get(%q) = (%s,%v), MustGet = %s, Has = %v, want (%s,%v)", p, show(got), found, show(must), has, show(want), ex)
					}
					n, _, partial, lf := v.Locate(p, nil)
					if w.r.isKey(k) && (!lf || partial || n.Key() != k) {
						return bad("Locate(%q): found = %v, partialMatched = %v", p, lf, partial)
					}
					calls := 0
					v.GetEx(p, func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
						calls++
						if w.r.isKey(k) && (node.Key() != k || !eq(data, want)) {
							calls += 100
						}
					})
					if w.r.isKey(k) && calls != 1 || !ex && calls != 0 {
						return bad("GetEx(%q) called back %d times, or with a wrong node", p, calls)
					}
					// typed and extracting getters
					if w.r.isKey(k) || !ex {
						s1, e1 := v.GetString(p, "dflt")
						s2, e2 := w.st.GetString(k, "dflt")
						if s1 != s2 || (e1 == nil) != (e2 == nil) || v.MustString(p) != w.st.MustString(k) || v.MustInt(p, 77) != w.st.MustInt(k, 77) {
							return bad("GetString(%q) = %q,%v, but the store says %q,%v", p, s1, e1, s2, e2)
						}
					}
					m1, e1 := v.GetR(p)
					if flat := w.r.values(w.r.under(k)); e1 != nil || !sameMap(m1, flat) {
						return bad("GetR(%q) = %v,%v, want %v", p, m1, e1, flat)
					}
					if under := w.r.under(k); !w.r.conflict(under) {
						m1, e1 = v.GetM(p)
						if want := w.r.rel(under, k); e1 != nil || !sameMap(flatten(m1, "", d, nil), want) {
							return bad("GetM(%q) = %v,%v, want %v", p, m1, e1, want)
						}
					}
				}
				if err := w.obsMeta(v, pre, rels); err != nil {
					return bad("%v", err)
				}
				// the whole of the view
				wm, wr := map[string]any{}, map[string]any{}
				for _, k := range w.r.keys() {
					if pre == "" {
						wm[k], wr[k] = w.r.m[k].val, w.r.m[k].val
					} else if strings.HasPrefix(k, pre+d) {
						wm[k[len(pre)+len(d):]], wr[k] = w.r.m[k].val, w.r.m[k].val
					}
				}
				if m, err := v.GetM(""); err != nil || !sameMap(m, wm) {
					return bad("GetM(root) = %v,%v, want %v", m, err, wm)
				}
				if m, err := v.GetR(""); err != nil || !sameMap(m, wr) {
					return bad("GetR(root) = %v,%v, want %v", m, err, wr)
				}
			}
			return nil
		}
		mkNew := func(lazy bool) func() *viewWorld {
			return func() *viewWorld {
				w := &viewWorld{world: *newWorld(family{}, d)}
				for _, v := range vs {
					w.views = append(w.views, v.mk(w.st))
				}
				return w
			}
		}
		type vop = eng.Op[viewWorld]
		var ops []vop
		// by the store
		for i, k := range keys[:4] {
			ops = append(ops, vop{Name: fmt.Sprintf("store.Set(%q,%d)", k, i), Do: func(w *viewWorld) error { return w.set(k, i) }})
		}
		ops = append(ops, vop{Name: "store.Remove(app)", Do: func(w *viewWorld) error { return w.remove("app") }})
		add := func(i int, rel string, what string) {
			k := full(vs[i].prefix, rel)
			name := fmt.Sprintf("%s.%s(%q)", vs[i].how, what, rel)
			switch what {
			case "Set":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error {
					val := "by-" + vs[i].how
					old, had := any(nil), w.r.isKey(k)
					if had {
						old = w.r.m[k].val
					}
					n, o := w.views[i].Set(rel, val)
					w.r.set(k, val)
					if n == nil || n.Key() != k || !eq(n.Data(), val) || had && !eq(o, old) || !had && o != nil {
						return errf("%s returned (%v,%v)", name, n, o)
					}
					return nil
				}})
			case "Remove":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error {
					ex := w.r.exists(k)
					w.r.remove(k)
					if got := w.views[i].Remove(rel); got != ex {
						return errf("%s = %v, want %v", name, got, ex)
					}
					return nil
				}})
			case "SetComment":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error { return w.setComment(w.views[i], vs[i].prefix, rel, "vd", "vc") }})
			case "SetTag":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error { return w.setTag(w.views[i], vs[i].prefix, rel, "vt") }})
			case "Merge":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error {
					err := w.views[i].Merge(rel, map[string]any{"x": 5, "y": map[string]any{"z": 6}})
					b := vs[i].prefix
					if rel != "" {
						b = full(vs[i].prefix, rel)
					}
					w.r.set(full(b, "x"), 5)
					w.r.set(full(b, j("y", "z")), 6)
					return err
				}})
			case "SetEx":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error {
					calls := 0
					w.views[i].SetEx(rel, "ex", func(path string, oldData any, n radix.Node[any], trie radix.Trie[any]) {
						calls++
						if n.Key() != k || path != k {
							calls += 100
						}
					})
					w.r.set(k, "ex")
					if calls != 1 {
						return errf("%s: callback %d", name, calls)
					}
					return nil
				}})
			case "Update":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error {
					bad := false
					w.views[i].Update(rel, func(n radix.Node[any], old any) {
						bad = n.Key() != k
						n.SetData("upd")
					})
					w.r.set(k, "upd")
					if bad {
						return errf("%s: wrong node", name)
					}
					return nil
				}})
			case "SetNode":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error {
					w.views[i].(trieAPI).SetNode(rel, "node", "nt", "nd", "nc")
					w.r.set(k, "node")
					e := w.r.m[k]
					e.tag, e.desc, e.comment = "nt", "nd", "nc"
					return nil
				}})
			case "SetEmpty":
				ops = append(ops, vop{Name: name, Do: func(w *viewWorld) error {
					w.views[i].(trieAPI).SetEmpty(rel)
					w.r.set(k, nil)
					w.r.m[k].tag = nil
					return nil
				}})
			}
		}
		for i := range vs {
			add(i, "x", "Set")
			if i < 8 {
				add(i, "x", "Remove")
			}
		}
		for _, i := range []int{0, 1, 3, 5} {
			for _, what := range []string{"SetComment", "SetTag", "Merge", "SetEx", "Update", "SetNode", "SetEmpty"} {
				add(i, "x", what)
			}
			add(i, "log", "Remove")
			add(i, "", "Merge")
		}
		s := &eng.Sys[viewWorld]{Name: "views@" + d, New: mkNew(false), Ops: ops, Obs: obs,
			Key: func(w *viewWorld) string { return w.key() }}
		eng.DFS(c, s, pick(c, 2, 3))
		s2 := *s
		s2.Name = "views-bfs@" + d
		eng.BFS(c, &s2, pick(c, 3, 5), pick(c, 20000, 400000))
		// views made at any time, chains of view operations: the prefix algebra
		chain(c, d)
	}
	optPrefix(c)
}

type chainWorld struct {
	st     store.Store
	cur    store.Store
	prefix string
	origin store.Store
	opre   string
	d      string
}

// chain: all sequences of view operations.
func chain(c *eng.Ctx, d string) {
	args := [][]string{{}, {"a"}, {"b"}, {"a", "b"}, {"", "a"}, {"a" + d + "b"}}
	type cop = eng.Op[chainWorld]
	var ops []cop
	join := func(a ...string) string {
		var out []string
		for _, x := range a {
			if x != "" {
				out = append(out, x)
			}
		}
		return strings.Join(out, d)
	}
	for _, a := range args {
		ops = append(ops,
			cop{Name: fmt.Sprintf("WithPrefix(%q)", a), Do: func(w *chainWorld) error {
				w.origin, w.opre = w.cur, w.prefix
				w.cur, w.prefix = w.cur.WithPrefix(a...), join(append([]string{w.prefix}, a...)...)
				return nil
			}},
			cop{Name: fmt.Sprintf("WithPrefixReplaced(%q)", a), Do: func(w *chainWorld) error {
				w.origin, w.opre = w.cur, w.prefix
				w.cur, w.prefix = w.cur.WithPrefixReplaced(a...), join(a...)
				return nil
			}},
			cop{Name: fmt.Sprintf("SetPrefix(%q)", a), En: func(w *chainWorld) bool { return w.cur != w.st }, Do: func(w *chainWorld) error {
				w.cur.SetPrefix(a...)
				w.prefix = join(a...)
				return nil
			}})
	}
	for _, x := range []struct {
		name string
		f    func(s store.Store) store.Store
	}{{"N", store.Store.N}, {"R", store.Store.R}} {
		ops = append(ops, cop{Name: x.name, Do: func(w *chainWorld) error {
			w.origin, w.opre = w.cur, w.prefix
			w.cur = x.f(w.cur)
			return nil
		}})
	}
	s := &eng.Sys[chainWorld]{Name: "prefix-algebra@" + d, Ops: ops,
		New: func() *chainWorld {
			st := store.New(store.WithDelimiter([]rune(d)[0]))
			return &chainWorld{st: st, cur: st, origin: st, d: d}
		},
		Obs: func(w *chainWorld) error {
			if w.cur.Prefix() != w.prefix {
				return errf("Prefix() = %q, want %q", w.cur.Prefix(), w.prefix)
			}
			if w.origin != w.cur && w.origin.Prefix() != w.opre {
				return errf("the prefix of the origin became %q, want %q", w.origin.Prefix(), w.opre)
			}
			if w.st.Prefix() != "" {
				return errf("the prefix of the store became %q", w.st.Prefix())
			}
			k := join(w.prefix, "k")
			w.cur.Set("k", w.prefix)
			if v, ok := w.st.Get(k); !ok || v != w.prefix {
				return errf("Set(k) by the view with prefix %q: the store says Get(%q) = %v,%v", w.prefix, k, v, ok)
			}
			w.st.Set(k, "by-store")
			if v, ok := w.cur.Get("k"); !ok || v != "by-store" || w.cur.MustString("k") != "by-store" {
				return errf("the view with prefix %q: Get(k) = %v,%v", w.prefix, v, ok)
			}
			if ok := w.cur.Remove("k"); !ok || w.st.Has(k) {
				return errf("the view with prefix %q: Remove(k) = %v", w.prefix, ok)
			}
			return nil
		}}
	eng.DFS(c, s, pick(c, 3, 4))
}

// optPrefix: a store made with a prefix.
func optPrefix(c *eng.Ctx) {
	prefixes := []string{"app", "app.log", "", "x"}
	keys := []string{"a", "a.b", "log", "log.x"}
	eng.Enum(c, "option-prefix", len(prefixes)*(1<<len(keys)), func(i int) string {
		return fmt.Sprintf("New(WithPrefix(%q)), keys %04b", prefixes[i>>len(keys)], i&(1<<len(keys)-1))
	}, func(i int) (int, error) {
		pre, set := prefixes[i>>len(keys)], i&(1<<len(keys)-1)
		st := store.New(store.WithPrefix(pre))
		if st.Prefix() != pre {
			return 1, errf("Prefix() = %q, want %q", st.Prefix(), pre)
		}
		raw := st.WithPrefixReplaced("")
		steps := 0
		for b, k := range keys {
			if set&(1<<b) != 0 {
				st.Set(k, b)
				steps++
			}
		}
		for b, k := range keys {
			full := k
			if pre != "" {
				full = pre + "." + k
			}
			want := set&(1<<b) != 0
			v, ok := raw.Get(full)
			v2, ok2 := st.Get(k)
			if want && (!ok || !eq(v, b) || !ok2 || !eq(v2, b)) || !want && (v != nil || v2 != nil) {
				return steps, errf("prefix %q: Get(%q) = %v,%v, absolute: %v,%v", pre, k, v2, ok2, v, ok)
			}
		}
		return steps + 2*len(keys), nil
	})
}
