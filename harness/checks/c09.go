package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C09", runC09, "no two leaves of the merged map denote the same key", "flattening applies to the generic slices ([]any, and slices of maps); other slices are always values")
	register("C10", runC10, "no two leaves of a source denote the same key", "metadata is claimed for the pairs of a source whose value is not a map")
}

// flat is the reference flattening of a nested value.
func flat(out map[string]any, at, d string, v any, spread bool) {
	j := func(k any) string {
		s := fmt.Sprint(k)
		if at == "" {
			return s
		}
		return at + d + s
	}
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			flat(out, j(k), d, e, spread)
		}
		return
	case map[any]any:
		for k, e := range x {
			flat(out, j(k), d, e, spread)
		}
		return
	case []any:
		if spread {
			for i, e := range x {
				flat(out, j(i), d, e, spread)
			}
			return
		}
	case []map[string]any:
		if spread {
			for i, e := range x {
				flat(out, j(i), d, e, spread)
			}
			return
		}
	case []map[any]any:
		if spread {
			for i, e := range x {
				flat(out, j(i), d, e, spread)
			}
			return
		}
	}
	out[at] = v
}

var leafValues = []any{
	1, "s", nil, false,
	[]any{1, "two"},
	[]any{map[string]any{"z": 1}, []any{5}, 3},
	[]map[string]any{{"p": 1}, {"q": map[string]any{"r": 2}}},
	map[any]any{"m": 1, 7: "seven", true: map[any]any{"t": 1}},
	[]map[any]any{{"n": 1}},
	[]string{"x", "y"},
	map[string]any{},
	[]any{},
}

// nested enumerates nested maps with the given keys: it decodes i.
func nestedCount(keys, leaves, depth int) int {
	opts := 1 + leaves
	if depth > 1 {
		opts += nestedCount(keys, leaves, depth-1)
	}
	n := 1
	for k := 0; k < keys; k++ {
		n *= opts
	}
	return n
}

func nested(i int, keys []string, leaves []any, depth int) map[string]any {
	opts := 1 + len(leaves)
	if depth > 1 {
		opts += nestedCount(len(keys), len(leaves), depth-1)
	}
	m := map[string]any{}
	for _, k := range keys {
		o := i % opts
		i /= opts
		switch {
		case o == 0:
		case o <= len(leaves):
			m[k] = deepCopyAny(leaves[o-1])
		default:
			m[k] = nested(o-1-len(leaves), keys, leaves, depth-1)
		}
	}
	return m
}

func deepCopyAny(v any) any {
	switch x := v.(type) {
	case map[any]any:
		m := map[any]any{}
		for k, e := range x {
			m[k] = deepCopyAny(e)
		}
		return m
	case []map[any]any:
		var a []map[any]any
		for _, e := range x {
			a = append(a, deepCopyAny(e).(map[any]any))
		}
		return a
	case []any:
		a := make([]any, len(x))
		for i, e := range x {
			a[i] = deepCopyAny(e)
		}
		return a
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = deepCopyAny(e)
		}
		return m
	}
	return deepCopy(v)
}

func (r *ref) setAll(m map[string]any, mod bool) {
	for k, v := range m {
		r.set(k, v)
		if mod {
			r.m[k].mod = true
		}
	}
}

func joinD(d string, a ...string) string {
	var out []string
	for _, x := range a {
		if x != "" {
			out = append(out, x)
		}
	}
	return strings.Join(out, d)
}

var mergePoints = []string{"", "x", "x.y", "a"}

var preContents = [][]string{{}, {"a", "a.b", "x.a", "x.y"}, {"x.y.a.b", "ab", "x.yz", "b.a", "a.a.a"}}

// C09: Merge.
func runC09(c *eng.Ctx) {
	scaleMerge(c, "merge")
	listsC09(c, false)
	keySets := [][]string{{"a", "b"}, {"b.c", "ab"}}
	for ki, keys := range keySets {
		for _, spread := range []bool{false, true} {
			depth := 2
			leaves := leafValues
			if ki == 1 {
				leaves = leafValues[:6]
			}
			n := nestedCount(len(keys), len(leaves), depth)
			total := n * len(mergePoints) * len(preContents)
			eng.Enum(c, fmt.Sprintf("merge/%s/flatten=%v", strings.Join(keys, ","), spread), total, func(i int) string {
				return fmt.Sprintf("Merge(%q, %v) over %v", mergePoints[i/n%len(mergePoints)], nested(i%n, keys, leaves, depth), preContents[i/n/len(mergePoints)])
			}, func(i int) (int, error) {
				m := nested(i%n, keys, leaves, depth)
				copyOf := deepCopyAny(m)
				at, pre := mergePoints[i/n%len(mergePoints)], preContents[i/n/len(mergePoints)]
				st := store.New(store.WithFlattenSlice(spread))
				r := newRef(".")
				for j, k := range pre {
					st.Set(k, -j)
					r.set(k, -j)
					r.m[k].mod = true
				}
				if err := st.Merge(at, m); err != nil {
					return 1, errf("Merge: %v", err)
				}
				fl := map[string]any{}
				for k, v := range m {
					flat(fl, joinD(".", at, k), ".", v, spread)
				}
				r.setAll(fl, true)
				if err := r.same(st, st); err != nil {
					return 1, err
				}
				if !eq(any(m), copyOf) {
					return 1, errf("Merge changed its argument to %v", m)
				}
				return len(pre) + 1, nil
			})
		}
	}
	// deeper maps
	{
		keys, leaves := []string{"a", "b"}, []any{1}
		depth := pick(c, 3, 3)
		n := nestedCount(len(keys), len(leaves), depth)
		for _, d := range []string{".", "/", "→"} {
			eng.Enum(c, "merge-deep@"+d, n*2, func(i int) string {
				return fmt.Sprintf("Merge(%v) view=%v", nested(i%n, keys, leaves, depth), i >= n)
			}, func(i int) (int, error) {
				m := nested(i%n, keys, leaves, depth)
				st := store.New(store.WithDelimiter([]rune(d)[0]))
				var s store.Store = st
				pre := ""
				if i >= n {
					s, pre = st.WithPrefix("v", "w"), "v"+d+"w"
				}
				if err := s.Merge("at", m); err != nil {
					return 1, err
				}
				fl := map[string]any{}
				for k, v := range m {
					flat(fl, joinD(d, pre, "at", k), d, v, false)
				}
				r := newRef(d)
				r.setAll(fl, true)
				return 1, r.same(st, st)
			})
		}
	}
	mergeViews(c)
	// the trie: slices are always flattened
	{
		keys := []string{"a", "b"}
		leaves := []any{1, "s", []any{1, "two"}, []any{map[string]any{"z": 1}, []any{5}, 3}, []map[string]any{{"p": 1}, {"q": map[string]any{"r": 2}}}, map[string]any{}, []string{"x"}, false}
		n := nestedCount(len(keys), len(leaves), 2)
		eng.Enum(c, "trie-merge", n*len(mergePoints)*2, func(i int) string {
			return fmt.Sprintf("Trie.Merge(%q, %v) prefix=%v", mergePoints[i/n%len(mergePoints)], nested(i%n, keys, leaves, 2), i/n/len(mergePoints))
		}, func(i int) (int, error) {
			m := nested(i%n, keys, leaves, 2)
			at := mergePoints[i/n%len(mergePoints)]
			t := radix.NewTrie[any]()
			var tt radix.Trie[any] = t
			pre := ""
			if i/n/len(mergePoints) == 1 {
				tt, pre = t.WithPrefix("pp"), "pp"
			}
			t.Set("x.z", 9)
			if err := tt.Merge(at, m); err != nil {
				return 1, err
			}
			want := map[string]any{"x.z": 9}
			for k, v := range m {
				flat(want, joinD(".", pre, at, k), ".", v, true)
			}
			got := map[string]any{}
			t.Walk("", func(path, fragment string, n radix.Node[any]) {
				if n.IsLeaf() {
					got[n.Key()] = n.Data()
				}
			})
			if !sameMap(got, want) {
				return 1, errf("Trie.Merge(%q, %v): %v, want %v", at, m, got, want)
			}
			return 2, nil
		})
	}
	// histories of merges, sets and removals; each map in all orders, by merging its parts
	maps := []map[string]any{
		{"a": 1, "b": map[string]any{"c": 2, "d": map[string]any{"e": 3}}},
		{"ab": 1, "abc": 2, "a": map[string]any{"b": 7}},
		{"b": 5},
		{"a": map[string]any{}},
		{},
		{"b.c": 8, "b": map[string]any{"cc": 9}},
	}
	probes := probesOf([]string{"a", "b.c", "b.d.e", "ab", "abc", "a.b", "x.a", "x.b.c"}, ".")
	var ops []eng.Op[world]
	for i, m := range maps {
		for _, at := range []string{"", "x", "b.d"} {
			ops = append(ops, eng.Op[world]{Name: fmt.Sprintf("Merge(%q,#%d)", at, i), Do: func(w *world) error {
				fl := map[string]any{}
				for k, v := range m {
					flat(fl, joinD(".", at, k), ".", v, false)
				}
				w.r.setAll(fl, true)
				return w.st.Merge(at, m)
			}})
		}
	}
	ops = append(ops, opSet("b", "own"), opSet("x.b.c", "own"), opRemove("b"), opRemove("x"), opRemove("a.b"))
	s := &eng.Sys[world]{Name: "merge-history", New: func() *world { return newWorld(family{}, ".") }, Ops: ops, Key: (*world).key,
		Obs: func(w *world) error {
			if err := w.r.same(w.st, w.st); err != nil {
				return err
			}
			return w.obsGet(probes)
		}}
	eng.DFS(c, s, pick(c, 3, 4))
	// all orders of the parts of a map
	parts := []map[string]any{{"a": 1}, {"b": map[string]any{"c": 2}}, {"b": map[string]any{"d": map[string]any{"e": 3}}}, {"ab": 4}, {"b": map[string]any{"cc": 5}}, {"abc": map[string]any{"a": 6}}}
	ops = nil
	for i, m := range parts {
		ops = append(ops, eng.Op[world]{Name: fmt.Sprintf("Merge(%v)", m), En: func(w *world) bool { return w.step&(1<<i) == 0 }, Do: func(w *world) error {
			w.step |= 1 << i
			fl := map[string]any{}
			for k, v := range m {
				flat(fl, k, ".", v, false)
			}
			w.r.setAll(fl, true)
			return w.st.Merge("", m)
		}})
	}
	s = &eng.Sys[world]{Name: "merge-orders", New: func() *world { return newWorld(family{}, ".") }, Ops: ops, Key: (*world).key,
		Obs: func(w *world) error { return w.r.same(w.st, w.st) }}
	eng.DFS(c, s, len(parts))
}

// C10: Load.
func runC10(c *eng.Ctx) {
	scaleMerge(c, "load")
	// contents × provider kinds × places
	type place struct {
		name string
		pre  string
		mk   func(st store.Store) store.Store
		opts func() []store.LoadOpt
	}
	none := func() []store.LoadOpt { return nil }
	same := func(st store.Store) store.Store { return st }
	places := []place{
		{"root", "", same, none},
		{"WithStorePrefix(app.json)", "app.json", same, func() []store.LoadOpt { return []store.LoadOpt{store.WithStorePrefix("app.json")} }},
		{"view app", "app", func(st store.Store) store.Store { return st.WithPrefix("app") }, none},
		{"view app, WithStorePrefix(q)", "q", func(st store.Store) store.Store { return st.WithPrefix("app") }, func() []store.LoadOpt { return []store.LoadOpt{store.WithStorePrefix("q")} }},
	}
	kinds := []string{"read", "codec", "json-codec", "json-fallback", "stream"}
	leaves := []any{1.5, "s", nil, true, []any{"e", map[string]any{"z": 1.0}}, map[string]any{}}
	keys := []string{"a", "b"}
	n := nestedCount(2, len(leaves), 2)
	total := n * len(places) * len(kinds) * 2
	dec := func(i int) (m map[string]any, p place, kind string, spread bool) {
		m = nested(i%n, keys, leaves, 2)
		i /= n
		p = places[i%len(places)]
		i /= len(places)
		kind = kinds[i%len(kinds)]
		spread = i/len(kinds) == 1
		return
	}
	eng.Enum(c, "load", total, func(i int) string {
		m, p, kind, spread := dec(i)
		return fmt.Sprintf("%s at %s flatten=%v: %v", kind, p.name, spread, m)
	}, func(i int) (int, error) {
		m, p, kind, spread := dec(i)
		st := store.New(store.WithFlattenSlice(spread))
		r := newRef(".")
		for j, k := range []string{"app.a", "a.b", "app.jsonx", "q"} {
			st.Set(k, j)
			r.set(k, j)
			r.m[k].mod = true
		}
		var prov store.Provider
		opts := p.opts()
		meta := false
		switch kind {
		case "read":
			pk := map[string]store.ValPkg{}
			for k, v := range m {
				pk[k] = store.ValPkg{Value: v, Desc: "d-" + k, Comment: "c-" + k, Tag: "t-" + k}
			}
			prov, meta = &readProv{m: pk}, true
		case "codec":
			prov = &bytesProv{b: []byte("x")}
			opts = append(opts, store.WithCodec(&mapCodec{m}))
		case "json-codec":
			prov = &bytesProv{b: mustJSON(m), provBase: provBase{codec: &jsonCodec{}}}
		case "json-fallback":
			prov = &bytesProv{b: mustJSON(m)}
		case "stream":
			f := map[string]any{}
			for k, v := range m {
				flat(f, k, ".", v, spread)
			}
			prov = newStream(f)
		}
		opts = append(opts, store.WithProvider(prov))
		wr, err := p.mk(st).Load(bg, opts...)
		if err != nil {
			return 1, errf("Load: %v", err)
		}
		if wr == nil {
			return 1, errf("Load returned no Writeable")
		}
		for k, v := range m {
			fl := map[string]any{}
			flat(fl, joinD(".", p.pre, k), ".", v, spread)
			r.setAll(fl, false)
			if meta {
				switch v.(type) {
				case map[string]any, []any:
					// copy what the implementation chose for the parts of a value
					for k := range fl {
						e := r.m[k]
						e.desc, e.comment, e.tag = st.MustGetDesc(k), st.MustGetComment(k), st.MustGetTag(k)
					}
				default:
					e := r.m[joinD(".", p.pre, k)]
					e.desc, e.comment, e.tag = "d-"+k, "c-"+k, "t-"+k
				}
			}
		}
		return 5, r.same(st, st)
	})
	// sequences of loads, sets and removals
	srcs := []map[string]any{
		{"a": "1", "b": map[string]any{"c": "2", "d": map[string]any{"e": "3"}}},
		{"ab": "1", "a": map[string]any{"b": "7"}},
		{"b": map[string]any{"c": "new"}},
		{},
	}
	var ops []eng.Op[world]
	for i, m := range srcs {
		for _, at := range []string{"", "x", "b.d"} {
			for _, kind := range []string{"read", "bytes", "stream"} {
				ops = append(ops, eng.Op[world]{Name: fmt.Sprintf("Load(%s,#%d,%q)", kind, i, at), Do: func(w *world) error {
					fl, rel := map[string]any{}, map[string]any{}
					for k, v := range m {
						flat(fl, joinD(".", at, k), ".", v, false)
						flat(rel, k, ".", v, false)
					}
					w.r.setAll(fl, false)
					var prov store.Provider
					switch kind {
					case "read":
						pk := map[string]store.ValPkg{}
						for k, v := range rel {
							pk[k] = store.ValPkg{Value: v, Desc: "d" + k, Comment: "c" + k, Tag: "t" + k}
							e := w.r.m[joinD(".", at, k)]
							e.desc, e.comment, e.tag = "d"+k, "c"+k, "t"+k
						}
						prov = &readProv{m: pk}
					case "bytes":
						prov = &bytesProv{b: mustJSON(m), provBase: provBase{codec: &jsonCodec{}}}
					case "stream":
						prov = newStream(rel)
					}
					opts := []store.LoadOpt{store.WithProvider(prov)}
					if at != "" {
						opts = append(opts, store.WithStorePrefix(at))
					}
					_, err := w.st.Load(bg, opts...)
					return err
				}})
			}
		}
	}
	ops = append(ops, opSet("b", "own"), opSet("x.b.c", "own"), opRemove("b"), opRemove("x"), opRemove("a.b"), opComment("b.c", "D", "C"))
	s := &eng.Sys[world]{Name: "load-history", New: func() *world { return newWorld(family{}, ".") }, Ops: ops, Key: (*world).key,
		Obs: func(w *world) error { return w.r.same(w.st, w.st) }}
	eng.DFS(c, s, pick(c, 3, 4))
	loadMeta(c)
	loadPkgs(c)
	loadOptions(c)
	listsC09(c, true)
}

// loadMeta: all combinations of the fields which a source gives.
func loadMeta(c *eng.Ctx) {
	vals := []any{1, nil, "s", []any{1}}
	n := len(vals) * 8 * 3
	eng.Enum(c, "load-meta", n*2, func(i int) string {
		return fmt.Sprintf("value %v, fields %03b, pre %d, prefix %v", vals[i%4], i/4%8, i/32%3, i >= n)
	}, func(i int) (int, error) {
		v, bits, pre := vals[i%4], i/4%8, i/32%3
		st := store.New()
		at := ""
		if i >= n {
			at = "p.q"
		}
		key := joinD(".", at, "k")
		e := ent{}
		if pre > 0 {
			st.Set(key, "old")
			e.mod = true
		}
		if pre > 1 {
			st.SetComment(key, "D", "C")
			st.SetTag(key, "T")
			e.desc, e.comment, e.tag = "D", "C", "T"
		}
		pk := store.ValPkg{Value: v}
		if bits&1 != 0 {
			pk.Desc = "nd"
		}
		if bits&2 != 0 {
			pk.Comment = "nc"
		}
		if bits&4 != 0 {
			pk.Tag = "nt"
		}
		if bits&3 != 0 {
			e.desc, e.comment = pk.Desc, pk.Comment
		}
		if bits&4 != 0 {
			e.tag = pk.Tag
		}
		e.val = v
		opts := []store.LoadOpt{store.WithProvider(&readProv{m: map[string]store.ValPkg{"k": pk}})}
		if at != "" {
			opts = append(opts, store.WithStorePrefix(at))
		}
		if _, err := st.Load(bg, opts...); err != nil {
			return 1, err
		}
		r := newRef(".")
		r.m[key] = &e
		if pre > 1 && bits&3 != 0 && bits&3 != 3 {
			// only one of both is given: the other one is unspecified
			e.desc, e.comment = st.MustGetDesc(key), st.MustGetComment(key)
			if bits&1 != 0 && e.desc != "nd" || bits&2 != 0 && e.comment != "nc" {
				return 1, errf("desc %q comment %q", e.desc, e.comment)
			}
		}
		return 3, r.same(st, st)
	})
}

// listsC09: the lists of all of the generic slice types and lengths, at all depths.
func listsC09(c *eng.Ctx, load bool) {
	elems := []string{"scalars", "maps", "any-maps", "lists", "mixed", "nils"}
	kinds := []string{"[]any", "[]map[string]any", "[]map[any]any"}
	places := []string{"", "x", "x.y"}
	const depths = 3
	lens := []int{31, 32, 33, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000}
	for n := 12; n >= 0; n-- {
		lens = append([]int{n}, lens...)
	}
	maxLen := len(lens)
	mk := func(kind, elem string, n int) any {
		el := func(i int) any {
			switch elem {
			case "maps":
				return map[string]any{"k": i, "s": map[string]any{"t": i}}
			case "any-maps":
				return map[any]any{"k": i, i: "num"}
			case "lists":
				return []any{i, []any{i + 1}}
			case "nils":
				return nil
			case "mixed":
				return []any{i, "s", map[string]any{"m": []any{i}}, []map[string]any{{"q": i}, {"r": i}}, []map[any]any{{"u": i}}, true}[i%6]
			}
			return i
		}
		switch kind {
		case "[]map[string]any":
			a := []map[string]any{}
			for i := 0; i < n; i++ {
				a = append(a, map[string]any{"e": el(i), "i": i})
			}
			return a
		case "[]map[any]any":
			a := []map[any]any{}
			for i := 0; i < n; i++ {
				a = append(a, map[any]any{"e": el(i), i: i})
			}
			return a
		}
		a := []any{}
		for i := 0; i < n; i++ {
			a = append(a, el(i))
		}
		return a
	}
	dec := func(i int) (v map[string]any, at string, spread bool, name string) {
		kind, i := kinds[i%len(kinds)], i/len(kinds)
		elem, i := elems[i%len(elems)], i/len(elems)
		n, i := lens[i%maxLen], i/maxLen
		at, i = places[i%len(places)], i/len(places)
		depth, i := i%depths, i/depths
		spread = i == 1
		v = map[string]any{"l": mk(kind, elem, n), "other": "o"}
		for j := depth; j > 0; j-- {
			v = map[string]any{"n": v, "side": j}
		}
		return v, at, spread, fmt.Sprintf("Merge(%q, a %s of %d %s, depth %d) flatten=%v", at, kind, n, elem, depth, spread)
	}
	total := len(kinds) * len(elems) * maxLen * len(places) * depths * 2
	if load { // the same lists, from the sources
		eng.Enum(c, "load-lists", total*2, func(i int) string {
			_, _, _, name := dec(i / 2)
			return []string{"read: ", "decoded: "}[i%2] + name
		}, func(i int) (int, error) {
			m, at, spread, _ := dec(i / 2)
			st := store.New()
			st.Set("x.l.1", "old")
			r := newRef(".")
			r.set("x.l.1", "old")
			r.m["x.l.1"].mod = true
			opts := []store.LoadOpt{store.WithStoreFlattenSlice(spread)}
			if at != "" {
				opts = append(opts, store.WithStorePrefix(at))
			}
			if i%2 == 0 {
				p := &readProv{m: map[string]store.ValPkg{}}
				for k, v := range m {
					p.m[k] = store.ValPkg{Value: v}
				}
				opts = append(opts, store.WithProvider(p))
			} else {
				opts = append(opts, store.WithProvider(&bytesProv{b: []byte("x")}), store.WithCodec(&mapCodec{m}))
			}
			if _, err := st.Load(bg, opts...); err != nil {
				return 1, err
			}
			fl := map[string]any{}
			for k, v := range m {
				flat(fl, joinD(".", at, k), ".", v, spread)
			}
			r.setAll(fl, false)
			return 2, r.same(st, st)
		})
		return
	}
	eng.Enum(c, "merge-lists", total, func(i int) string {
		_, _, _, name := dec(i)
		return name
	}, func(i int) (int, error) {
		m, at, spread, _ := dec(i)
		st := store.New(store.WithFlattenSlice(spread))
		r := newRef(".")
		st.Set("x.l.1", "old")
		r.set("x.l.1", "old")
		r.m["x.l.1"].mod = true
		if err := st.Merge(at, m); err != nil {
			return 1, err
		}
		fl := map[string]any{}
		for k, v := range m {
			flat(fl, joinD(".", at, k), ".", v, spread)
		}
		r.setAll(fl, true)
		return 2, r.same(st, st)
	})
}

// mergeViews: merging by views of all kinds is as merging by the store, at the place of the view; so is loading.
func mergeViews(c *eng.Ctx) {
	type view struct {
		name, pre string
		mk        func(st store.Store, d string) store.Store
	}
	views := []view{
		{"store", "", func(st store.Store, d string) store.Store { return st }},
		{"WithPrefix(v)", "v", func(st store.Store, d string) store.Store { return st.WithPrefix("v") }},
		{"WithPrefix(v, w)", "v w", func(st store.Store, d string) store.Store { return st.WithPrefix("v", "w") }},
		{"WithPrefix(v).WithPrefix(w)", "v w", func(st store.Store, d string) store.Store { return st.WithPrefix("v").WithPrefix("w") }},
		{"WithPrefix(v).WithPrefixReplaced(w)", "w", func(st store.Store, d string) store.Store { return st.WithPrefix("v").WithPrefixReplaced("w") }},
		{"WithPrefixReplaced(v, w)", "v w", func(st store.Store, d string) store.Store { return st.WithPrefixReplaced("v", "w") }},
		{"WithPrefix(v).WithPrefixReplaced()", "", func(st store.Store, d string) store.Store { return st.WithPrefix("v").WithPrefixReplaced("") }},
		{"WithPrefix(v).Root()", "", func(st store.Store, d string) store.Store {
			v := st.WithPrefix("v")
			v.SetPrefix("")
			return v
		}},
		{"R()", "", func(st store.Store, d string) store.Store { return st.R() }},
		{"BR()", "", func(st store.Store, d string) store.Store { return st.BR() }},
		{"R().WithPrefix(v)", "v", func(st store.Store, d string) store.Store { return st.R().WithPrefix("v") }},
		{"WithPrefix(v).BR()", "v", func(st store.Store, d string) store.Store { return st.WithPrefix("v").BR() }},
	}
	ds := []string{".", "/", "→"}
	vals := append(append([]any{}, leafValues...), []any{[]any{[]any{map[any]any{"k": []any{1, 2}}}}}, map[string]any{"l": []any{[]map[string]any{{"y": []any{nil}}}, "x"}})
	points := [][]string{{}, {"x"}, {"x", "y"}}
	total := len(views) * len(ds) * len(vals) * len(points) * 2 * 2
	dec := func(i int) (v view, d string, val any, at string, spread, dup bool) {
		v, i = views[i%len(views)], i/len(views)
		d, i = ds[i%len(ds)], i/len(ds)
		val, i = deepCopyAny(vals[i%len(vals)]), i/len(vals)
		at, i = strings.Join(points[i%len(points)], d), i/len(points)
		return v, d, val, at, i%2 == 1, i/2 == 1
	}
	eng.Enum(c, "merge-views", total, func(i int) string {
		v, d, val, at, spread, dup := dec(i)
		return fmt.Sprintf("%s, delimiter %s, clone=%v: Merge(%q, {k: %v}) flatten=%v", v.name, d, dup, at, val, spread)
	}, func(i int) (int, error) {
		v, d, val, at, spread, dup := dec(i)
		var st store.Store = store.New(store.WithDelimiter([]rune(d)[0]), store.WithFlattenSlice(spread))
		r := newRef(d)
		for j, k := range []string{"v", "x" + d + "k", "other"} {
			st.Set(k, -j)
			r.set(k, -j)
			r.m[k].mod = true
		}
		if dup {
			st = st.Dup()
		}
		view := v.mk(st, d)
		if err := view.Merge(at, map[string]any{"k": val, "z": "s"}); err != nil {
			return 1, errf("Merge: %v", err)
		}
		fl := map[string]any{}
		pre := strings.ReplaceAll(v.pre, " ", d)
		flat(fl, joinD(d, pre, at, "k"), d, val, spread)
		flat(fl, joinD(d, pre, at, "z"), d, "s", spread)
		r.setAll(fl, true)
		return 2, r.same(st, st)
	})
}

// loadPkgs: packages within packages, maps and lists are as their values.
func loadPkgs(c *eng.Ctx) {
	pkg := func(v any) any { return store.ValPkg{Value: v} }
	type shape struct {
		name string
		f    func(v any) any
	}
	shapes := []shape{
		{"v", func(v any) any { return v }},
		{"pkg(v)", pkg},
		{"{m: pkg(v)}", func(v any) any { return map[string]any{"m": pkg(v)} }},
		{"{any m: pkg(v)}", func(v any) any { return map[any]any{"m": pkg(v)} }},
		{"pkg({m: pkg(v), n: v})", func(v any) any { return pkg(map[string]any{"m": pkg(v), "n": v}) }},
	}
	vals := []any{1, "s", nil, map[string]any{"x": 1, "y": map[string]any{"z": "w"}}, map[any]any{"x": 1, 2: "two"}, []string{"a", "b"}, []any{1, map[string]any{"q": 2}}}
	var strip func(v any) any
	strip = func(v any) any {
		switch x := v.(type) {
		case store.ValPkg:
			return strip(x.Value)
		case map[string]any:
			m := map[string]any{}
			for k, e := range x {
				m[k] = strip(e)
			}
			return m
		case map[any]any:
			m := map[any]any{}
			for k, e := range x {
				m[k] = strip(e)
			}
			return m
		}
		return v
	}
	places := []string{"", "app", "app.sub"}
	ns, nv, np := len(shapes), len(vals), len(places)
	dec := func(i int) (a, b shape, v any, at string, spread bool) {
		return shapes[i%ns], shapes[i/ns%ns], vals[i/ns/ns%nv], places[i/ns/ns/nv%np], i/ns/ns/nv/np%2 == 1
	}
	eng.Enum(c, "load-packages", ns*ns*nv*np*2*3, func(i int) string {
		a, b, v, at, spread := dec(i)
		return fmt.Sprintf("%s of %s of %v at %q flatten=%v way %d", a.name, b.name, v, at, spread, i/ns/ns/nv/np/2)
	}, func(i int) (int, error) {
		a, b, v, at, spread := dec(i)
		src := a.f(b.f(v))
		st := store.New(store.WithFlattenSlice(spread))
		st.Set("app.k.old", "old")
		r := newRef(".")
		r.set("app.k.old", "old")
		r.m["app.k.old"].mod = true
		fl := map[string]any{}
		flat(fl, joinD(".", at, "k"), ".", strip(src), spread)
		way := i / ns / ns / nv / np / 2
		r.setAll(fl, way == 2)
		var opts []store.LoadOpt
		if at != "" {
			opts = append(opts, store.WithStorePrefix(at))
		}
		var err error
		switch way {
		case 0:
			_, err = st.Load(bg, append(opts, store.WithProvider(&readProv{m: map[string]store.ValPkg{"k": {Value: src}}}))...)
		case 1:
			_, err = st.Load(bg, append(opts, store.WithProvider(&bytesProv{b: []byte("x")}), store.WithCodec(&mapCodec{map[string]any{"k": src}}))...)
		case 2:
			err = st.Merge(at, map[string]any{"k": src})
		}
		if err != nil {
			return 1, errf("loading: %v", err)
		}
		return 2, r.same(st, st)
	})
}
