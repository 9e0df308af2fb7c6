package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C12", runC12, "saving is claimed for stores where no saved key is also a section (a nested document cannot hold both)", "the source was loaded with a codec, and its provider is writeable")
}

type saveWorld struct {
	world
	prov  *bytesProv
	wr    store.Writeable
	at    string
	loads int
}

// nest builds the nested document of flat keys.
func nest(m map[string]any, d string) map[string]any {
	out := map[string]any{}
	for k, v := range m {
		cur := out
		parts := strings.Split(k, d)
		for i, p := range parts {
			if i == len(parts)-1 {
				cur[p] = v
				break
			}
			nx, ok := cur[p].(map[string]any)
			if !ok {
				nx = map[string]any{}
				cur[p] = nx
			}
			cur = nx
		}
	}
	return out
}

func sameJSON(doc string, want map[string]any) bool {
	var got any
	if err := json.Unmarshal([]byte(doc), &got); err != nil {
		return false
	}
	var w any
	_ = json.Unmarshal(mustJSON(want), &w)
	return reflect.DeepEqual(got, w)
}

// expected document of a save at a prefix.
func (r *ref) doc(at string, all bool) (map[string]any, bool) {
	m := map[string]any{}
	var ks []string
	for k, e := range r.m {
		if !all && !e.mod {
			continue
		}
		if at != "" {
			if !strings.HasPrefix(k, at+r.d) {
				continue
			}
			m[k[len(at)+len(r.d):]] = e.val
		} else {
			m[k] = e.val
		}
		ks = append(ks, k)
	}
	return nest(m, r.d), r.conflict(ks)
}

func (w *saveWorld) save() error {
	if w.wr == nil {
		return nil
	}
	w.prov.wrote = nil
	before := content(w.st)
	if err := w.wr.Save(bg); err != nil {
		return errf("Save: %v", err)
	}
	if after := content(w.st); after != before {
		return errf("Save changed the store from %s to %s", before, after)
	}
	want, conflict := w.r.doc(w.at, false)
	if len(want) == 0 {
		if len(w.prov.wrote) != 0 {
			return errf("Save wrote %q, but nothing was modified; keys %v", w.prov.wrote, w.r)
		}
		return nil
	}
	if conflict {
		return nil
	}
	if len(w.prov.wrote) != 1 || !sameJSON(w.prov.wrote[0], want) {
		return errf("Save wrote %q, want %s; keys %v", w.prov.wrote, mustJSON(want), w.r)
	}
	// all of it
	ld := w.wr.(*store.Loader)
	out := &bytesProv{}
	if err := ld.SaveAs(bg, "", store.WithSaveAsCodec(&jsonCodec{}), store.WithSaveAsProvider(out)); err != nil {
		return errf("SaveAs: %v", err)
	}
	wantAll, conflict := w.r.doc(w.at, true)
	if !conflict && (len(out.wrote) != 1 || !sameJSON(out.wrote[0], wantAll)) {
		return errf("SaveAs wrote %q, want %s", out.wrote, mustJSON(wantAll))
	}
	return nil
}

func runC12(c *eng.Ctx) {
	scaleMerge(c, "save")
	saveValues(c)
	for _, at := range []string{"", "app", "app.cfg"} {
		full := func(k string) string { return joinD(".", at, k) }
		docs := []map[string]any{
			{"a": "1", "b": map[string]any{"c": "2", "d": "3"}},
			{"a": "9", "e": map[string]any{"f": "4"}},
		}
		type op = eng.Op[saveWorld]
		var ops []op
		load := func(w *saveWorld, i int) error {
			prov := &bytesProv{b: mustJSON(docs[i]), provBase: provBase{codec: &jsonCodec{}}}
			opts := []store.LoadOpt{store.WithProvider(prov)}
			if at != "" {
				opts = append(opts, store.WithStorePrefix(at))
			}
			wr, err := w.st.Load(bg, opts...)
			if err != nil {
				return err
			}
			w.wr, w.prov, w.at = wr, prov, at
			fl := map[string]any{}
			for k, v := range docs[i] {
				flat(fl, full(k), ".", v, false)
			}
			w.r.setAll(fl, false)
			return nil
		}
		ops = append(ops, op{Name: "Load#0", Do: func(w *saveWorld) error { return load(w, 0) }}, op{Name: "Load#1", Do: func(w *saveWorld) error { return load(w, 1) }})
		for _, k := range []string{"a", "b.c", "b.cc", "e.f", "bb"} {
			ops = append(ops, op{Name: fmt.Sprintf("Set(%q)", full(k)), Do: func(w *saveWorld) error { return w.set(full(k), "u-"+k) }})
		}
		for _, k := range []string{"a", "b", "b.c"} {
			ops = append(ops, op{Name: fmt.Sprintf("Remove(%q)", full(k)), Do: func(w *saveWorld) error { return w.remove(full(k)) }})
		}
		ops = append(ops,
			op{Name: "Set(other)", Do: func(w *saveWorld) error { return w.set("other.x", 1.0) }},
			op{Name: "view.Set(b.d)", Do: func(w *saveWorld) error {
				w.st.WithPrefixReplaced(full("b")).Set("d", "by-view")
				w.r.set(full("b.d"), "by-view")
				w.r.m[full("b.d")].mod = true
				return nil
			}},
			op{Name: "Merge", Do: func(w *saveWorld) error {
				w.r.setAll(map[string]any{full("b.c"): "m", full("b.m"): "n"}, true)
				return w.st.Merge(at, map[string]any{"b": map[string]any{"c": "m", "m": "n"}})
			}},
			op{Name: "WithinLoading(Set)", Do: func(w *saveWorld) error {
				w.st.WithinLoading(func() { w.st.Set(full("a"), "wl"); w.st.Set(full("b.n"), "wl") })
				w.r.setAll(map[string]any{full("a"): "wl", full("b.n"): "wl"}, false)
				return nil
			}},
			op{Name: "clear modified flags", Do: func(w *saveWorld) error {
				w.st.Walk("", func(path, fragment string, n radix.Node[any]) { n.SetModified(false) })
				for _, e := range w.r.m {
					e.mod = false
				}
				return nil
			}},
			op{Name: "SetTag(a)", Do: func(w *saveWorld) error { return w.setTag(w.st, "", full("a"), "tag") }},
			op{Name: "SetComment(b.c)", Do: func(w *saveWorld) error { return w.setComment(w.st, "", full("b.c"), "d", "c") }},
			op{Name: "toggle flag of a", Do: func(w *saveWorld) error {
				w.st.GetEx(full("a"), func(n radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
					if !branch {
						n.ToggleModified()
					}
				})
				if e, ok := w.r.m[full("a")]; ok {
					e.mod = !e.mod
				}
				return nil
			}})
		s := &eng.Sys[saveWorld]{Name: "save@" + at, Ops: ops,
			New: func() *saveWorld { return &saveWorld{world: *newWorld(family{}, ".")} },
			Obs: func(w *saveWorld) error {
				if err := w.r.same(w.st, w.st); err != nil {
					return err
				}
				return w.save()
			},
			Key: func(w *saveWorld) string { return w.key() + fmt.Sprint(w.wr != nil) }}
		eng.BFS(c, s, pick(c, 4, 6), 4000000)
		s2 := *s
		s2.Name = "save-dfs@" + at
		eng.DFS(c, &s2, pick(c, 3, 4))
	}
	// the flags of all families of keys, with splitting
	for _, f := range families {
		var ops []eng.Op[world]
		for _, k := range f.keys {
			ops = append(ops, opSet(k, 1), opRemove(k), eng.Op[world]{Name: fmt.Sprintf("load(%q)", k), Do: func(w *world) error {
				w.st.WithinLoading(func() { w.st.Set(k, 2) })
				w.r.set(k, 2)
				return nil
			}})
		}
		s := &eng.Sys[world]{Name: "flags/" + f.name, Ops: ops, New: func() *world { return newWorld(f, ".") }, Key: (*world).key,
			Obs: func(w *world) error { return w.r.same(w.st, w.st) }}
		eng.BFS(c, s, pick(c, 5, 7), 4000000)
	}
	saveKinds(c)
}

// saveKinds: the kinds of writers, for all subsets of modified keys.
func saveKinds(c *eng.Ctx) {
	kinds := []string{"once", "io.Writer", "codec by option", "none"}
	keys := []string{"a", "b.c", "b.d", "e.f.g", "bb"}
	n := 1 << len(keys)
	eng.Enum(c, "save-kinds", len(kinds)*n*n, func(i int) string {
		return fmt.Sprintf("%s: loaded %05b, modified %05b", kinds[i/n/n], i/n%n, i%n)
	}, func(i int) (int, error) {
		kind, loaded, mod := kinds[i/n/n], i/n%n, i%n
		pk := map[string]store.ValPkg{}
		fl := map[string]any{}
		want := map[string]any{}
		for b, k := range keys {
			if loaded&(1<<b) != 0 {
				pk[k] = store.ValPkg{Value: "L"}
				fl[k] = "L"
			}
		}
		st := store.New()
		codec := &jsonCodec{}
		var prov store.Provider
		var opts []store.LoadOpt
		wrote := func() []string { return nil }
		switch kind {
		case "once":
			p := &bytesProv{b: mustJSON(nest(fl, ".")), provBase: provBase{codec: codec}}
			prov, wrote = p, func() []string { return p.wrote }
		case "codec by option":
			p := &bytesProv{b: mustJSON(nest(fl, "."))}
			prov, wrote = p, func() []string { return p.wrote }
			opts = append(opts, store.WithCodec(codec))
		case "io.Writer":
			p := &readWriterProv{readProv{m: pk, provBase: provBase{codec: codec}}}
			prov, wrote = p, func() []string { return p.wrote }
		case "none":
			prov = &readProv{m: pk, provBase: provBase{codec: codec}}
		}
		wr, err := st.Load(bg, append(opts, store.WithProvider(prov))...)
		if err != nil || wr == nil {
			return 1, errf("Load: %v, %v", wr, err)
		}
		for b, k := range keys {
			if mod&(1<<b) != 0 {
				st.Set(k, "M"+k)
				want[k] = "M" + k
			}
		}
		err = wr.Save(bg)
		if kind == "none" {
			if mod != 0 && err == nil {
				return 2, errf("Save to a read-only source reports no error")
			}
			return 2, nil
		}
		if err != nil {
			return 2, errf("Save: %v", err)
		}
		if w := wrote(); mod == 0 && len(w) != 0 || mod != 0 && (len(w) != 1 || !sameJSON(w[0], nest(want, "."))) {
			return 2, errf("Save wrote %q, want %v", w, want)
		}
		return 2, nil
	})
}

// saveValues: modified keys of any value are saved, the loaded ones are not.
func saveValues(c *eng.Ctx) {
	vals := []any{nil, "", "x", false, true, 0, 7, -1.5, []any{}, []any{1, nil}, []string{"p"}, map[string]any{"in": 1}}
	keys := []string{"a", "b.c", "b.d.e"}
	n := len(vals) + 2 // + absent, + loaded only
	eng.Enum(c, "save-values", n*n*n*2, func(i int) string {
		return fmt.Sprintf("values %d %d %d, loaded before: %v", i%n, i/n%n, i/n/n%n, i/n/n/n == 1)
	}, func(i int) (int, error) {
		pre := i/n/n/n == 1
		loaded, want, all := map[string]any{}, map[string]any{}, map[string]any{}
		for b, k := range keys {
			o := i
			for ; b > 0; b-- {
				o /= n
			}
			if o %= n; pre || o == len(vals)+1 {
				loaded[k] = "L-" + k
				all[k] = "L-" + k
			}
			if o < len(vals) {
				want[k] = vals[o]
				all[k] = vals[o]
			}
		}
		st := store.New()
		p := &bytesProv{b: mustJSON(nest(loaded, ".")), provBase: provBase{codec: &jsonCodec{}}}
		wr, err := st.Load(bg, store.WithProvider(p), store.WithStorePrefix("app"))
		if err != nil || wr == nil {
			return 1, errf("Load: %v, %v", wr, err)
		}
		for k, v := range want {
			st.Set("app."+k, deepCopyAny(v))
		}
		if err = wr.Save(bg); err != nil {
			return 2, errf("Save: %v", err)
		}
		if len(want) == 0 && len(p.wrote) != 0 || len(want) != 0 && (len(p.wrote) != 1 || !sameJSON(p.wrote[0], nest(want, "."))) {
			return 2, errf("Save wrote %q, want %s", p.wrote, mustJSON(nest(want, ".")))
		}
		out := &bytesProv{}
		if err = wr.(*store.Loader).SaveAs(bg, "", store.WithSaveAsCodec(&jsonCodec{}), store.WithSaveAsProvider(out)); err != nil {
			return 3, errf("SaveAs: %v", err)
		}
		if len(all) != 0 && (len(out.wrote) != 1 || !sameJSON(out.wrote[0], nest(all, "."))) {
			return 3, errf("SaveAs wrote %q, want %s", out.wrote, mustJSON(nest(all, ".")))
		}
		return 3, nil
	})
	saveAsOptions(c)
}

// tagCodec writes JSON after its own name.
type tagCodec struct {
	jsonCodec
	name string
}

func (t *tagCodec) Marshal(m map[string]any) ([]byte, error) {
	b, err := t.jsonCodec.Marshal(m)
	return append([]byte(t.name+":"), b...), err
}

// saveAsOptions: all combinations and orders of the options of SaveAs, and of where the codec of a Save comes from.
func saveAsOptions(c *eng.Ctx) {
	codecs := []string{"none", "of the provider", "by option", "both"}
	kinds := []string{"none", "once", "io.Writer", "read only"}
	comments := []string{"unset", "true", "false"}
	eng.Enum(c, "save-as-options", len(codecs)*len(kinds)*len(comments)*6, func(i int) string {
		return fmt.Sprintf("SaveAs: codec %s, provider %s, comments %s, order %d", codecs[i%4], kinds[i/4%4], comments[i/16%3], i/48)
	}, func(i int) (int, error) {
		codec, kind, comment, order := codecs[i%4], kinds[i/4%4], comments[i/16%3], i/48
		own, given := &tagCodec{name: "own"}, &tagCodec{name: "given"}
		st := store.New()
		src := &bytesProv{b: []byte(`{"a":{"b":"1"},"c":"2"}`), provBase: provBase{codec: &tagCodec{name: "src"}}}
		wr, err := st.Load(bg, store.WithProvider(src))
		if err != nil {
			return 1, errf("Load: %v", err)
		}
		st.Set("a.n", "new")
		st.SetComment("a.n", "desc", "comment")
		var opts []store.SaveAsOpt
		var base *provBase
		var wrote *[]string
		switch kind {
		case "once":
			p := &bytesProv{}
			base, wrote = &p.provBase, &p.wrote
			opts = append(opts, store.WithSaveAsProvider(p))
		case "io.Writer":
			p := &readWriterProv{}
			base, wrote = &p.provBase, &p.wrote
			opts = append(opts, store.WithSaveAsProvider(p))
		case "read only":
			p := &readProv{}
			base, wrote = &p.provBase, &p.wrote
			opts = append(opts, store.WithSaveAsProvider(p))
		}
		if base != nil && (codec == "of the provider" || codec == "both") {
			base.codec = own
		}
		name := "own"
		if codec == "by option" || codec == "both" {
			opts = append(opts, store.WithSaveAsCodec(given))
			name = "given"
		}
		if comment != "unset" {
			opts = append(opts, store.WithSaveAsComment(comment == "true"))
		}
		if n := len(opts); n > 1 { // all rotations, both directions
			k := order % n
			opts = append(append([]store.SaveAsOpt{}, opts[k:]...), opts[:k]...)
			if order >= 3 {
				opts[0], opts[n-1] = opts[n-1], opts[0]
			}
		}
		err = wr.(*store.Loader).SaveAs(bg, "", opts...)
		possible := base != nil && codec != "none"
		switch {
		case kind == "read only" && possible:
			if err == nil {
				return 2, errf("SaveAs to a provider which cannot write reports nothing")
			}
		case err != nil:
			return 2, errf("SaveAs: %v", err)
		case possible:
			head, doc, _ := strings.Cut(strings.Join(*wrote, "|"), ":")
			if head != name || !sameJSON(doc, nest(map[string]any{"a.b": "1", "a.n": "new", "c": "2"}, ".")) {
				return 2, errf("SaveAs wrote %q, want by the codec %q", *wrote, name)
			}
		case wrote != nil && len(*wrote) != 0:
			return 2, errf("SaveAs without a codec wrote %q", *wrote)
		}
		// the source of the store is not affected
		if len(src.wrote) != 0 {
			return 3, errf("SaveAs wrote %q to the source", src.wrote)
		}
		if err = wr.Save(bg); err != nil {
			return 3, errf("Save: %v", err)
		}
		if head, doc, _ := strings.Cut(strings.Join(src.wrote, "|"), ":"); head != "src" || !sameJSON(doc, nest(map[string]any{"a.n": "new"}, ".")) {
			return 3, errf("after SaveAs, Save wrote %q", src.wrote)
		}
		if n, _, _ := strings.Cut(st.MustGetComment("a.n"), "\n"); n != "comment" {
			return 3, errf("the comment is %q", n)
		}
		return 3, nil
	})
}
