package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C27", runC27,
		"the wording of a text form is not claimed, but that it is one of its kind and tells the state")
	register("C28", emptyStore,
		"the prefix and the delimiter of the dummy store, and what cloning it gives, are not claimed")
}

// stateOf is what a JSON form tells.
type stateOf struct {
	Prefix    string `json:"prefix"`
	Delimiter string `json:"delimiter"`
	Mode      string `json:"recursive-mode"`
}

func runC27(c *eng.Ctx) {
	textForms(c)
	opTexts(c)
}

func textForms(c *eng.Ctx) {
	delims := []rune{'.', '/', '"', '\\', '\'', ' ', '\n', '\t', '\a', 0, 0x7f, '§', '点', '\u2028', '😀', '<', '&', '{', '}', ':', ','}
	prefixes := []string{"", "a", "a.b", "a b", `a"b`, `a\b`, "a'b", "a\nb", "a\x00b", "é", "点", "😀", "\u2028", "<a>", "{}", "a:b", "\a\v"}
	modes := []struct {
		name string
		of   func(s store.Store) store.Store
	}{
		{"None", func(s store.Store) store.Store { return s }},
		{"Down", func(s store.Store) store.Store { return s.R() }},
		{"Up", func(s store.Store) store.Store { return s.BR() }},
		{"None", func(s store.Store) store.Store { return s.BR().N() }},
	}
	n := len(delims) * len(prefixes) * len(modes)
	eng.Enum(c, "json", n*2, func(i int) string {
		j := i % n
		return fmt.Sprintf("the JSON of a store (view=%v) with the delimiter %q, the prefix %q and the mode %s", i >= n, delims[j/len(modes)/len(prefixes)], prefixes[j/len(modes)%len(prefixes)], modes[j%len(modes)].name)
	}, func(i int) (int, error) {
		view := i >= n
		i %= n
		d, p, m := delims[i/len(modes)/len(prefixes)], prefixes[i/len(modes)%len(prefixes)], modes[i%len(modes)]
		st := store.New()
		st.SetDelimiter(d)
		st.Set("x", 1)
		s := st
		if view {
			s = st.WithPrefix(p)
		} else {
			st.SetPrefix(p)
		}
		s = m.of(s)
		want := stateOf{p, string(d), m.name}
		b, err := json.Marshal(s)
		if err != nil {
			return 1, errf("the JSON of the store: %v", err)
		}
		var got struct {
			Trie *stateOf `json:"trie"`
		}
		if err = json.Unmarshal(b, &got); err != nil || got.Trie == nil {
			return 1, errf("the JSON of the store is %s: %v", b, err)
		}
		if *got.Trie != want {
			return 1, errf("the JSON of the store is %s, want %+v", b, want)
		}
		if x := fmt.Sprint(s); !strings.Contains(x, p) || !strings.ContainsRune(x, d) || !strings.Contains(x, m.name) {
			return 1, errf("String() = %q, want prefix %q, delimiter %q, mode %s", x, p, d, m.name)
		}
		// and of a trie
		t := radix.NewTrieBy[any](d)
		t.Set("x", 1)
		t.SetPrefix(p)
		var e radix.Trie[any] = t
		switch m.name {
		case "Down":
			e = t.R()
		case "Up":
			e = t.BR()
		}
		if b, err = json.Marshal(e); err != nil {
			return 2, errf("the JSON of the trie: %v", err)
		}
		var ts stateOf
		if err = json.Unmarshal(b, &ts); err != nil || ts != want {
			return 2, errf("the JSON of the trie is %s (%v), want %+v", b, err, want)
		}
		return 2, nil
	})
}

func opTexts(c *eng.Ctx) {
	named := map[store.Op]bool{store.OpCreate: true, store.OpWrite: true, store.OpRemove: true, store.OpRename: true, store.OpChmod: true, store.OpNone: true}
	eng.Enum(c, "op", 64, func(i int) string { return fmt.Sprintf("the text of Op(%d)", i) }, func(i int) (int, error) {
		op := store.Op(i)
		b, err := op.MarshalText()
		if err != nil || len(b) == 0 || op != store.Op(i) {
			return 1, errf("MarshalText() = %q, %v", b, err)
		}
		var back store.Op = 77
		err = back.UnmarshalText(b)
		if named[op] {
			if err != nil || back != op {
				return 2, errf("the text of Op(%d) is %q, which reads as Op(%d), %v", op, b, back, err)
			}
		} else {
			if err == nil {
				return 2, errf("the text of Op(%d) is %q, which reads as Op(%d)", op, b, back)
			}
			if !strings.Contains(string(b), fmt.Sprint(i)) {
				return 2, errf("the text of Op(%d) is %q", op, b)
			}
		}
		for j := 0; j < i; j++ {
			o := store.Op(j)
			if b2, _ := o.MarshalText(); string(b2) == string(b) {
				return 3, errf("Op(%d) and Op(%d) have the text %q", i, j, b)
			}
		}
		// as JSON, in a struct
		type rec struct{ Op *store.Op }
		if j, err := json.Marshal(rec{&op}); err != nil {
			return 4, errf("JSON: %v", err)
		} else if named[op] {
			var r rec
			if err = json.Unmarshal(j, &r); err != nil || r.Op == nil || *r.Op != op {
				return 4, errf("JSON %s reads as %v, %v", j, r.Op, err)
			}
		}
		return 4, nil
	})
	names := map[string]store.Op{"create": store.OpCreate, "new": store.OpCreate, "modify": store.OpWrite, "write": store.OpWrite, "rename": store.OpRename,
		"remove": store.OpRemove, "delete": store.OpRemove, "rm": store.OpRemove, "chmod": store.OpChmod, "none": store.OpNone}
	var texts []string
	for k := range names {
		texts = append(texts, k, k+"x", "x"+k, k[1:], k[:len(k)-1], k+" ")
	}
	texts = append(texts, "", "?", "Op(1)")
	eng.Enum(c, "op names", len(texts), func(i int) string { return fmt.Sprintf("reading the operation %q", texts[i]) }, func(i int) (int, error) {
		want, ok := names[texts[i]]
		op := store.Op(99)
		err := op.UnmarshalText([]byte(texts[i]))
		if (err == nil) != ok || ok && op != want || !ok && op != 99 {
			return 1, errf("%q reads as Op(%d), %v", texts[i], op, err)
		}
		return 1, nil
	})
}

// emptyStore: whatever is done with the dummy store, it stays empty.
func emptyStore(c *eng.Ctx) {
	typ := reflect.TypeOf((*store.Store)(nil)).Elem()
	type world struct {
		st    store.Store
		calls int
	}
	arg := func(w *world, t reflect.Type) reflect.Value {
		switch t.Kind() {
		case reflect.String:
			return reflect.ValueOf("a.b").Convert(t)
		case reflect.Interface:
			if t.Implements(reflect.TypeOf((*context.Context)(nil)).Elem()) {
				return reflect.ValueOf(context.Background())
			}
			if t.NumMethod() == 0 {
				return reflect.ValueOf(1)
			}
			return reflect.Zero(t)
		case reflect.Func:
			return reflect.MakeFunc(t, func([]reflect.Value) (out []reflect.Value) {
				w.calls++
				for i := 0; i < t.NumOut(); i++ {
					out = append(out, reflect.Zero(t.Out(i)))
				}
				return
			})
		case reflect.Map:
			m := reflect.MakeMap(t)
			m.SetMapIndex(reflect.ValueOf("a").Convert(t.Key()), reflect.Zero(t.Elem()))
			return m
		case reflect.Int32:
			return reflect.ValueOf('/').Convert(t)
		case reflect.Bool:
			return reflect.ValueOf(true)
		case reflect.Struct:
			if t == reflect.TypeOf(time.Time{}) {
				return reflect.ValueOf(time.Unix(1, 0))
			}
		}
		if t.Kind() != reflect.Bool && reflect.TypeOf(1).ConvertibleTo(t) {
			return reflect.ValueOf(1).Convert(t)
		}
		if t.Kind() == reflect.Complex128 || t.Kind() == reflect.Complex64 {
			return reflect.ValueOf(1i).Convert(t)
		}
		return reflect.Zero(t)
	}
	type op = eng.Op[world]
	var ops []op
	for i := 0; i < 2*typ.NumMethod(); i++ {
		m, rest := typ.Method(i/2), i%2 == 1
		name := m.Name
		if rest {
			if !m.Type.IsVariadic() {
				continue
			}
			name += "(with options)"
		}
		ops = append(ops, op{Name: name, Do: func(w *world) error {
			var in []reflect.Value
			for j := 0; j < m.Type.NumIn(); j++ {
				if t := m.Type.In(j); !m.Type.IsVariadic() || j < m.Type.NumIn()-1 {
					in = append(in, arg(w, t))
				} else if rest { // a prefix, an option, or a default value
					in = append(in, arg(w, t.Elem()))
				}
			}
			calls := w.calls
			out := reflect.ValueOf(w.st).MethodByName(m.Name).Call(in)
			switch m.Name {
			case "WithPrefix", "WithPrefixReplaced", "N", "R", "BR":
				s, ok := out[0].Interface().(store.Store)
				if !ok || s == nil {
					return errf("%s gave no store", m.Name)
				}
				w.st = s
				return nil
			case "Prefix", "Delimiter", "Clone", "Dup":
				return nil
			case "WithinLoading":
				if w.calls != calls+1 {
					return errf("WithinLoading called its function %d times", w.calls-calls)
				}
				if p := try(func() { w.st.WithinLoading(func() { panic("wl") }) }); p != "wl" {
					return errf("the panic within WithinLoading became %v", p)
				}
				return nil
			}
			if w.calls != calls {
				return errf("%s called its callback, but there is no key", m.Name)
			}
			for j, o := range out {
				if !o.IsZero() {
					return errf("result %d of %s is %v", j, m.Name, o)
				}
			}
			return nil
		}})
	}
	s := &eng.Sys[world]{Name: "empty store", Ops: ops, New: func() *world { return &world{st: store.NewDummyStore()} },
		Obs: func(w *world) error {
			for _, p := range []string{"", "a", "a.b"} {
				if v, ok := w.st.Get(p); v != nil || ok || w.st.Has(p) || w.st.MustGet(p) != nil {
					return errf("the empty store has %q = %v, %v", p, v, ok)
				}
				if m, err := w.st.GetM(p); len(m) != 0 || err != nil {
					return errf("GetM(%q) of the empty store = %v, %v", p, m, err)
				}
				w.st.Walk(p, func(path, _ string, _ radix.Node[any]) { panic("the empty store has a node " + path) })
			}
			return nil
		}}
	eng.DFS(c, s, pick(c, 2, 3))
}
