package checks

import (
	"fmt"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

// loadOptions: all combinations, in several orders, of the options of a load. Each of them has its effect
// for that load, whatever the order is, and none on the loads and merges after it.
func loadOptions(c *eng.Ctx) {
	kinds := []string{"read", "bytes", "stream"}
	prefixes := []string{"", "app", "app.x"}
	views := []string{"", "vw"}
	codecs := []string{"none", "of the provider", "by option", "both"}
	flats := []string{"unset", "off", "on"}
	const orders, misc, bases = 6, 8, 2
	dims := []int{len(kinds), len(prefixes), len(views), len(codecs), len(flats), orders, misc, bases}
	total := 1
	for _, d := range dims {
		total *= d
	}
	dec := func(i int) (o [8]int) {
		for j, d := range dims {
			o[j] = i % d
			i /= d
		}
		return
	}
	eng.Enum(c, "load-options", total, func(i int) string {
		o := dec(i)
		return fmt.Sprintf("%s, prefix %q, view %q, codec %s, flattening %s (store: %v), order %d, position/copy/nil %03b",
			kinds[o[0]], prefixes[o[1]], views[o[2]], codecs[o[3]], flats[o[4]], o[7] == 1, o[5], o[6])
	}, func(i int) (int, error) {
		o := dec(i)
		kind, prefix, view, codec, fl, order := kinds[o[0]], prefixes[o[1]], views[o[2]], codecs[o[3]], flats[o[4]], o[5]
		position, cp, nils := o[6]&1 != 0, o[6]&2 != 0, o[6]&4 != 0
		base := o[7] == 1
		st := store.New(store.WithFlattenSlice(base))
		list := []any{"x", map[string]any{"y": "z"}}
		m := map[string]any{"a": "1", "b": map[string]any{"c": "2"}, "l": list}
		spread := base
		if fl != "unset" {
			spread = fl == "on"
		}
		// the source
		own := &mapCodec{map[string]any{"own": "o", "l": list}}
		given := &mapCodec{map[string]any{"given": "g", "l": list}}
		var prov store.Provider
		var pb *provBase
		switch kind {
		case "read":
			p := &readProv{m: map[string]store.ValPkg{}}
			for k, v := range m {
				p.m[k] = store.ValPkg{Value: v}
			}
			prov, pb = p, &p.provBase
		case "bytes":
			p := &bytesProv{b: mustJSON(m)}
			prov, pb = p, &p.provBase
			switch codec {
			case "of the provider":
				m = own.m
			case "by option", "both":
				m = given.m
			}
		case "stream":
			m = map[string]any{"a": "1", "b.c": "2"}
			p := newStream(m)
			prov, pb = p, &p.provBase
		}
		pb.pos = "pos-of-provider"
		if codec == "of the provider" || codec == "both" {
			pb.codec = own
		}
		var ld *store.Loader
		opts := []store.LoadOpt{store.WithProvider(prov)}
		if codec == "by option" || codec == "both" {
			opts = append(opts, store.WithCodec(given))
		}
		if prefix != "" {
			opts = append(opts, store.WithStorePrefix(prefix))
		}
		if fl != "unset" {
			opts = append(opts, store.WithStoreFlattenSlice(spread))
		}
		if position {
			opts = append(opts, store.WithPosition("pos-by-option"))
		}
		if cp {
			opts = append(opts, store.WithLoaderCopy(&ld))
		}
		if nils {
			opts = append(opts, nil, store.WithoutWatch(true))
		}
		switch n := len(opts); {
		case order == 1: // reversed
			for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
				opts[a], opts[b] = opts[b], opts[a]
			}
		case order > 1: // rotated
			k := (order - 1) % n
			opts = append(append([]store.LoadOpt{}, opts[k:]...), opts[:k]...)
		}
		at := view
		s := store.Store(st)
		if view != "" {
			s = st.WithPrefix(view)
		}
		if prefix != "" {
			at = prefix
		}
		wr, err := s.Load(bg, opts...)
		if err != nil || wr == nil {
			return 1, errf("Load: %v, %v", wr, err)
		}
		r := newRef(".")
		f := map[string]any{}
		for k, v := range m {
			flat(f, joinD(".", at, k), ".", v, spread)
		}
		r.setAll(f, false)
		if err := r.same(st, st); err != nil {
			return 1, err
		}
		if cp && (ld == nil || store.Writeable(ld) != wr) {
			return 1, errf("the loader is not handed out: %p, Load returned %p", ld, wr)
		}
		wantPos := "pos-of-provider"
		if position {
			wantPos = "pos-by-option"
		}
		if pb.pos != wantPos {
			return 1, errf("the position of the provider is %q, want %q", pb.pos, wantPos)
		}
		switch {
		case codec == "by option" || codec == "both":
			if pb.codec != store.Codec(given) {
				return 1, errf("the codec is not handed to the provider")
			}
		case codec == "of the provider":
			if pb.codec != store.Codec(own) {
				return 1, errf("the codec of the provider was replaced")
			}
		}
		// the next ones have their own options
		more := map[string]any{"n": list}
		f = map[string]any{}
		flat(f, joinD(".", view, "n"), ".", list, base)
		r.setAll(f, true)
		if err := s.Merge("", more); err != nil {
			return 2, err
		}
		if err := r.same(st, st); err != nil {
			return 2, errf("after a merge: %v", err)
		}
		f = map[string]any{}
		flat(f, joinD(".", view, "k"), ".", list, base)
		r.setAll(f, false)
		if _, err := s.Load(bg, store.WithProvider(&readProv{m: map[string]store.ValPkg{"k": {Value: list}}})); err != nil {
			return 3, err
		}
		if err := r.same(st, st); err != nil {
			return 3, errf("after another load: %v", err)
		}
		return 3, nil
	})
}
