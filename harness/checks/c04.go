package checks

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C04", runC04)
	register("C05", runC05, "nested extraction is claimed for sections where no key is also a section (a nested map cannot hold both), flat extraction always")
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// stdOps: Set and Remove for each of the keys.
func stdOps(f family) (ops []eng.Op[world]) {
	for i, k := range f.keys {
		ops = append(ops, opSet(k, fmt.Sprintf("v%d", i)))
	}
	for _, k := range f.keys {
		ops = append(ops, opRemove(k))
	}
	return
}

// C04: the enumerations are complete and free of duplicates.
func runC04(c *eng.Ctx) {
	for _, f := range families {
		all := append(append([]string{}, f.keys...), f.pre...)
		secs := sections(all, ".")
		paths := append(append([]string{}, secs...), "zz.", "a.zz.", "app.lo.")
		obs := func(w *world) error {
			if err := w.obsWalk(); err != nil {
				return err
			}
			return w.obsEnum(paths)
		}
		s := &eng.Sys[world]{Name: "enum/" + f.name,
			New: func() *world { return newWorld(f, ".") }, Obs: obs, Key: (*world).key, Ops: stdOps(f)}
		bfs(c, f, s, pick(c, 12000, 400000))
		s2 := *s
		s2.Name = "enum-dfs/" + f.name
		eng.DFS(c, &s2, pick(c, 3, 4))
	}
	for _, d := range []string{"/", "→"} {
		for _, f := range smallFamilies {
			f = withDelim(f, d)
			secs := sections(f.keys, d)
			s := &eng.Sys[world]{Name: "enum/" + f.name,
				New: func() *world { return newWorld(f, d) },
				Obs: func(w *world) error {
					if err := w.obsWalk(); err != nil {
						return err
					}
					return w.obsEnum(secs)
				}, Key: (*world).key, Ops: stdOps(f)}
			eng.BFS(c, s, 0, 20000)
		}
	}
	longC04(c)
	valuesWorld(c, "enum", 12, func(w *world, keys []string) error {
		if err := w.obsWalk(); err != nil {
			return err
		}
		return w.obsEnum(sections(keys, "."))
	})
	scaleWorld(c, "enum", func(w *world, keys []string) error {
		if err := w.obsWalk(); err != nil {
			return err
		}
		return w.obsEnum(sections(keys, "."))
	})
	// the typed trie
	typedWalk(c)
}

// bfs explores to the fixpoint, or to a smaller depth for the wide family.
func bfs(c *eng.Ctx, f family, s *eng.Sys[world], maxStates int) {
	depth := 0
	if f.name == "wide" {
		depth = pick(c, 4, 5)
		maxStates = 4000000
	}
	eng.BFS(c, s, depth, maxStates)
}

func (w *world) obsEnum(paths []string) error {
	// Walk(section.)
	for _, p := range paths {
		if !strings.HasSuffix(p, w.r.d) {
			continue
		}
		got, dup := leaves(w.st, p)
		if dup != "" {
			return errf("Walk(%q) visits the key %q twice", p, dup)
		}
		want := w.r.values(w.r.under(p))
		if !sameMap(got, want) {
			return errf("Walk(%q) visits %v, want %v; keys: %v", p, got, want, w.r.keys())
		}
	}
	// Walk: the arguments are consistent, and each fragment is the tail of its path
	var bad error
	w.st.Walk("", func(path, fragment string, n radix.Node[any]) {
		if n.IsLeaf() == n.IsBranch() || !strings.HasSuffix(path, fragment) || n.IsLeaf() && path != n.Key() {
			bad = errf("Walk: inconsistent arguments path=%q fragment=%q key=%q leaf=%v branch=%v", path, fragment, n.Key(), n.IsLeaf(), n.IsBranch())
		}
	})
	if bad != nil {
		return bad
	}
	want := w.r.values(w.r.keys())
	for _, p := range []string{"", "(root)"} {
		m, err := w.st.GetR(p)
		if err != nil || !sameMap(m, want) {
			return errf("GetR(%q) = %v, %v, want %v", p, m, err, want)
		}
		m, err = w.st.GetM(p)
		if err != nil || !sameMap(m, want) {
			return errf("GetM(%q) = %v, %v, want %v", p, m, err, want)
		}
	}
	// Dump prints each key and its value exactly once
	lines := strings.Split(ansi.ReplaceAllString(w.st.Dump(), ""), "\n")
	var pairs []string
	for _, l := range lines {
		if i := strings.Index(l, " => "); i >= 0 {
			l = l[strings.LastIndex(l[:i], " ")+1:]
			pairs = append(pairs, strings.TrimRight(l, " "))
		}
	}
	var wp []string
	for k, v := range want {
		wp = append(wp, strings.TrimRight(fmt.Sprintf("%s => %v", k, v), " "))
	}
	sort.Strings(pairs)
	sort.Strings(wp)
	if strings.Join(pairs, "\n") != strings.Join(wp, "\n") {
		return errf("Dump prints %q, want %q", pairs, wp)
	}
	return nil
}

type typedTrie struct {
	t radix.Trie[string]
	m map[string]string
}

func typedWalk(c *eng.Ctx) {
	f := families[0]
	s := &eng.Sys[typedTrie]{Name: "typed-walk",
		New: func() *typedTrie { return &typedTrie{t: radix.NewTrie[string](), m: map[string]string{}} },
		Obs: func(w *typedTrie) error {
			got := map[string]string{}
			n := 0
			w.t.Walk("", func(path, fragment string, node radix.Node[string]) {
				if node.IsLeaf() {
					got[node.Key()] = node.Data()
					n++
				}
			})
			if n != len(w.m) || fmt.Sprint(got) != fmt.Sprint(w.m) {
				return errf("Walk visits %v (%d), want %v", got, n, w.m)
			}
			return nil
		}}
	for _, k := range f.keys {
		s.Ops = append(s.Ops, eng.Op[typedTrie]{Name: "Set " + k, Do: func(w *typedTrie) error {
			w.t.Set(k, k+"!")
			w.m[k] = k + "!"
			return nil
		}})
	}
	eng.DFS(c, s, pick(c, 4, 6))
}

// conflict tells whether some of the keys are sections too.
func (r *ref) conflict(keys []string) bool {
	for _, k := range keys {
		for _, l := range keys {
			if strings.HasPrefix(l, k+r.d) {
				return true
			}
		}
	}
	return false
}

// rel strips the section from the keys.
func (r *ref) rel(keys []string, p string) map[string]any {
	p = r.trim(p)
	m := map[string]any{}
	for _, k := range keys {
		if k == p {
			a := strings.Split(k, r.d)
			m[a[len(a)-1]] = r.m[k].val
		} else {
			m[k[len(p)+len(r.d):]] = r.m[k].val
		}
	}
	return m
}

// C05: a section is extracted exactly.
func runC05(c *eng.Ctx) {
	for _, d := range []string{".", "/"} {
		for _, f := range families {
			if d != "." {
				if f.name == "punct" || f.name == "wide" || f.name == "tall" {
					continue
				}
				f = withDelim(f, d)
			}
			all := append(append([]string{}, f.keys...), f.pre...)
			probes := probesOf(all, d)
			if len(probes) > 60 {
				probes = append(sections(all, d), all...)
			}
			s := &eng.Sys[world]{Name: "extract/" + f.name,
				New: func() *world { return newWorld(f, d) },
				Obs: func(w *world) error { return w.obsExtract(probes) },
				Key: (*world).key, Ops: stdOps(f)}
			bfs(c, f, s, pick(c, 6000, 300000))
			if d == "." {
				s2 := *s
				s2.Name = "extract-dfs/" + f.name
				eng.DFS(c, &s2, pick(c, 3, 4))
			}
		}
	}
	valuesWorld(c, "extract", 12, func(w *world, keys []string) error { return w.obsExtract(append(sections(keys, "."), keys...)) })
	scaleWorld(c, "extract", func(w *world, keys []string) error { return w.obsExtract(fewSections(keys)) })
	// MOpt combinations for the modified filter, and To
	toC05(c)
	pureC05(c)
}

// pureC05: no extraction changes the values of the store, even if keys which
// hold maps are sections too.
func pureC05(c *eng.Ctx) {
	keys := []string{"a", "a.b", "a.n", "a.n.z", "a.a.b", "q.a", "q.a.b"}
	vals := []func() any{
		nil,
		func() any { return 7 },
		func() any {
			return map[string]any{"b": 1, "n": map[string]any{"y": 2}, "a": map[string]any{"t": "u"}}
		},
		func() any { return map[string]any(nil) },
	}
	type form struct {
		name string
		do   func(st store.Store, p string)
	}
	type box struct {
		B int
		N map[string]any
	}
	maps := []form{
		{"GetM", func(st store.Store, p string) { _, _ = st.GetM(p) }},
		{"MustM", func(st store.Store, p string) { _ = st.MustM(p) }},
		{"GetM keep prefix", func(st store.Store, p string) { _, _ = st.GetM(p, store.WithKeepPrefix[any](true)) }},
		{"GetM without flatten keys", func(st store.Store, p string) { _, _ = st.GetM(p, store.WithoutFlattenKeys[any](true)) }},
		{"GetM keep prefix, without flatten keys", func(st store.Store, p string) {
			_, _ = st.GetM(p, store.WithKeepPrefix[any](true), store.WithoutFlattenKeys[any](true))
		}},
		{"GetM filter", func(st store.Store, p string) {
			_, _ = st.GetM(p, store.WithFilter(func(n radix.Node[any]) bool { return true }))
		}},
		{"GetR", func(st store.Store, p string) { _, _ = st.GetR(p) }},
		{"MustR", func(st store.Store, p string) { _ = st.MustR(p) }},
	}
	structs := []form{{"To", func(st store.Store, p string) { var b box; _ = st.To(p, &b) }}}

	run := func(name string, keys []string, vals []func() any, forms []form) {
		n := 1
		for range keys {
			n *= len(vals)
		}
		assign := func(i int) (f []func() any) {
			for range keys {
				f = append(f, vals[i%len(vals)])
				i /= len(vals)
			}
			return
		}
		paths := append(append([]string{""}, sections(keys, ".")...), keys...)
		eng.Enum(c, name, n, func(i int) string {
			var sb strings.Builder
			for j, f := range assign(i) {
				if f != nil {
					fmt.Fprintf(&sb, "%s=%v ", keys[j], f())
				}
			}
			return sb.String()
		}, func(i int) (int, error) {
			st, fs := store.New(), assign(i)
			for j, f := range fs {
				if f != nil {
					st.Set(keys[j], f())
				}
			}
			for _, f := range forms {
				for _, p := range paths {
					f.do(st, p)
					for j, g := range fs {
						if g == nil {
							continue
						}
						if v, ok := st.Get(keys[j]); !ok || !reflect.DeepEqual(v, g()) {
							return len(keys), errf("%s(%q) changed the value of %q to %v, want %v", f.name, p, keys[j], v, g())
						}
					}
				}
			}
			return len(keys) + len(forms)*len(paths), nil
		})
	}
	run("extract-pure", keys, vals, maps)
	c.Serial(func() { run("to-pure", []string{"a", "a.b", "a.n.z", "q.a", "q.a.b"}, vals, structs) })
}

func (w *world) obsExtract(probes []string) error {
	d := w.r.d
	for _, p := range probes {
		keys := w.r.under(p)
		if strings.HasSuffix(p, d) && w.r.isKey(w.r.trim(p)) {
			continue // "key." for a key which might be a section too: unspecified whether it's included
		}
		flat := w.r.values(keys)
		m, err := w.st.GetR(p, map[string]any{"default": 1})
		if err != nil {
			return errf("GetR(%q): %v", p, err)
		}
		if len(keys) == 0 {
			if !sameMap(m, map[string]any{"default": 1}) {
				return errf("GetR(%q) = %v for an absent path, want the default; keys: %v", p, m, w.r.keys())
			}
			m, err = w.st.GetM(p)
			if err != nil || len(m) != 0 || len(w.st.MustM(p)) != 0 || len(w.st.MustR(p)) != 0 {
				return errf("GetM(%q) = %v, %v for an absent path; keys: %v", p, m, err, w.r.keys())
			}
			continue
		}
		if !sameMap(m, flat) || !sameMap(w.st.MustR(p), flat) {
			return errf("GetR(%q) = %v, want %v; keys: %v", p, m, flat, w.r.keys())
		}
		if w.r.conflict(keys) {
			continue
		}
		want := w.r.rel(keys, p)
		m, err = w.st.GetM(p)
		if err != nil || !sameMap(flatten(m, "", d, nil), want) || !sameMap(flatten(w.st.MustM(p), "", d, nil), want) {
			return errf("GetM(%q) = %v, %v, want %v; keys: %v", p, m, err, want, w.r.keys())
		}
		m, err = w.st.GetM(p, store.WithKeepPrefix[any](true))
		if err != nil || !sameMap(flatten(m, "", d, nil), flat) {
			return errf("GetM(%q, keep prefix) = %v, %v, want %v; keys: %v", p, m, err, flat, w.r.keys())
		}
		m, err = w.st.GetM(p, store.WithoutFlattenKeys[any](true))
		if err != nil || !sameMap(flatten(m, "", d, nil), want) || hasDelim(m, d) {
			return errf("GetM(%q, without flatten keys) = %v, %v, want %v; keys: %v", p, m, err, want, w.r.keys())
		}
		for _, k := range keys {
			m, err = w.st.GetM(p, store.WithFilter(func(n radix.Node[any]) bool { return n.Key() != k }))
			wf := w.r.rel(without(keys, k), p)
			if err != nil || !sameMap(flatten(m, "", d, nil), wf) {
				return errf("GetM(%q, filter out %q) = %v, %v, want %v; keys: %v", p, k, m, err, wf, w.r.keys())
			}
		}
	}
	if keys := w.r.keys(); !w.r.conflict(keys) {
		m, err := w.st.GetM("", store.WithoutFlattenKeys[any](true))
		if want := w.r.values(keys); err != nil || !sameMap(flatten(m, "", d, nil), want) || hasDelim(m, d) {
			return errf("GetM(root, without flatten keys) = %v, %v, want %v", m, err, want)
		}
	}
	for _, k := range w.r.keys() {
		m, err := w.st.GetM("", store.WithFilter(func(n radix.Node[any]) bool { return n.Key() == k }))
		if err != nil || len(m) != 1 || !eq(m[k], w.r.m[k].val) {
			return errf("GetM(root, filter %q) = %v, %v", k, m, err)
		}
	}
	return nil
}

func hasDelim(m map[string]any, d string) bool {
	for k, v := range m {
		if strings.Contains(k, d) {
			return true
		}
		if mm, ok := v.(map[string]any); ok && hasDelim(mm, d) {
			return true
		}
	}
	return false
}

func without(a []string, s string) (ret []string) {
	for _, x := range a {
		if x != s {
			ret = append(ret, x)
		}
	}
	return
}

type subS struct {
	Cert string
	N    int
}

type holderS struct {
	Name    string
	Port    int
	Enabled bool
	Rate    float64
	Sub     subS
	Tags    []string
}

// toC05: To fills a struct by the keys of a section, for all subsets of the fields.
func toC05(c *eng.Ctx) {
	type fld struct {
		key string
		val any
		put func(h *holderS)
	}
	flds := []fld{
		{"name", "srv", func(h *holderS) { h.Name = "srv" }},
		{"port", 8080, func(h *holderS) { h.Port = 8080 }},
		{"enabled", true, func(h *holderS) { h.Enabled = true }},
		{"rate", 1.5, func(h *holderS) { h.Rate = 1.5 }},
		{"sub.cert", "c.pem", func(h *holderS) { h.Sub.Cert = "c.pem" }},
		{"sub.n", 7, func(h *holderS) { h.Sub.N = 7 }},
		{"tags", []string{"a", "b"}, func(h *holderS) { h.Tags = []string{"a", "b"} }},
	}
	n := 1 << len(flds)
	secs := []string{"server", "app.server", "a.b.c.server", ""}
	forms := []string{"store.To", "st.To", "GetSectionFrom"}
	type cfg struct {
		sec   string
		form  int
		view  bool
		delim string
	}
	var cfgs []cfg
	for _, sec := range secs {
		for f := range forms {
			for _, view := range []bool{false, true} {
				if view && !strings.Contains(sec, ".") {
					continue
				}
				for _, d := range []string{".", "/"} {
					if d != "." && f != 0 && !c.Thorough {
						continue
					}
					cfgs = append(cfgs, cfg{sec, f, view, d})
				}
			}
		}
	}
	c.Serial(func() { // evendeep has process wide states
		eng.Enum(c, "to", n*len(cfgs), func(i int) string {
			g := cfgs[i/n]
			return fmt.Sprintf("%s(%q) subset %07b view=%v delimiter %s", forms[g.form], g.sec, i%n, g.view, g.delim)
		}, func(i int) (int, error) {
			g, set := cfgs[i/n], i%n
			conv := func(p string) string { return strings.ReplaceAll(p, ".", g.delim) }
			st := store.New()
			st.SetDelimiter([]rune(g.delim)[0])
			var want, got holderS
			st.Set(conv("serverx.name"), "other")
			st.Set(conv("app.serverx.port"), 1)
			steps := 2
			for b, f := range flds {
				if set&(1<<b) != 0 {
					k := f.key
					if g.sec != "" {
						k = g.sec + "." + k
					}
					st.Set(conv(k), f.val)
					f.put(&want)
					steps++
				}
			}
			s, path := st, conv(g.sec)
			if j := strings.Index(g.sec, "."); g.view && j > 0 {
				s, path = st.WithPrefix(g.sec[:j]), conv(g.sec[j+1:])
			}
			var err error
			switch g.form {
			case 0:
				err = store.To(s, path, &got)
			case 1:
				err = s.To(path, &got)
			default:
				err = s.GetSectionFrom(path, &got)
			}
			if err != nil {
				return steps, errf("To(%q): %v", g.sec, err)
			}
			if fmt.Sprintf("%+v", got) != fmt.Sprintf("%+v", want) {
				return steps, errf("To(%q) = %+v, want %+v", g.sec, got, want)
			}
			return steps + 1, nil
		})
	})
}

// longC04: long keys and values of all lengths are listed as they are.
func longC04(c *eng.Ctx) {
	eng.Enum(c, "long", 300*4, func(i int) string { return fmt.Sprintf("%d characters, way %d", i/4, i%4) }, func(i int) (int, error) {
		w := newWorld(family{}, ".")
		n := i / 4
		x := strings.Repeat("x", n)
		keys := []string{"a.k" + x, "a.kx", "b"}
		vals := []any{"v", "w", "u"}
		switch i % 4 {
		case 1:
			vals[1] = "v" + x
		case 2:
			keys[0] = "a" + x + ".k.l"
			vals[0] = strings.Repeat("é", n+1)
		case 3:
			l := []any{"e"}
			for j := 0; j < n; j++ {
				l = append(l, j)
			}
			vals[2] = l
		}
		for j, k := range keys {
			if err := w.set(k, vals[j]); err != nil {
				return j, err
			}
			if err := w.obsEnum(sections(keys, ".")); err != nil {
				return j + 1, err
			}
		}
		return 3, nil
	})
}
