package checks

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/codecs/all"
	"github.com/hedzr/store/codecs/gob"
	"github.com/hedzr/store/codecs/hcl"
	"github.com/hedzr/store/codecs/hjson"
	"github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/codecs/nestext"
	"github.com/hedzr/store/codecs/toml"
	"github.com/hedzr/store/codecs/yaml"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C20", runC20, "numbers are compared by value (a format has its own number types), in NestedText every leaf is a text",
		"values which a format cannot express (nil in TOML and gob, empty keys) are not claimed for that format",
		"the hcl codec is listed in known_findings.md")
}

type codecCase struct {
	name string
	mk   func() store.Codec
	nils bool             // can express nil
	text bool             // leaves are texts
	skip func(v any) bool // values which the third-party encoder does not handle
}

var codecCases = []codecCase{
	{"json", func() store.Codec { return json.New() }, true, false, nil},
	{"json-compact", func() store.Codec { return json.New(json.WithPretty(false)) }, true, false, nil},
	{"yaml", func() store.Codec { return yaml.New() }, true, false, func(v any) bool { return v == any("\n") }},
	{"toml", func() store.Codec { return toml.New() }, false, false, nil},
	{"hjson", func() store.Codec { return hjson.New() }, true, false, nil},
	{"nestext", func() store.Codec { return nestext.New() }, false, true, ntSkip},
	{"gob", func() store.Codec { return gob.New() }, false, false, nil},
}

// ntSkip: NestedText keys with a leading tag character or a colon, empty texts and containers, and texts ending with a newline.
func ntSkip(v any) bool {
	switch x := v.(type) {
	case string:
		return x == "" || strings.HasSuffix(x, "\n")
	case []any:
		return len(x) == 0
	case map[string]any:
		if len(x) == 0 {
			return true
		}
		for k := range x {
			if strings.Contains(k, ":") || strings.ContainsAny(k[:1], "#[{->") {
				return true
			}
		}
	}
	return false
}

// sameData compares two nested values, numbers by value.
func sameData(a, b any, text bool) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !sameData(v, w, text) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameData(x[i], y[i], text) {
				return false
			}
		}
		return true
	}
	if text {
		y, ok := b.(string)
		return ok && fmt.Sprint(a) == y
	}
	if x, ok := number(a); ok {
		y, ok := number(b)
		return ok && x == y
	}
	return eq(a, b)
}

func number(v any) (float64, bool) {
	rv := reflect.ValueOf(v)
	switch {
	case !rv.IsValid():
	case rv.CanInt():
		return float64(rv.Int()), true
	case rv.CanUint():
		return float64(rv.Uint()), true
	case rv.CanFloat():
		return rv.Float(), true
	}
	return 0, false
}

var (
	docKeys = []string{"a", "b", "k-1", "k_2", "Key", "日本", "with space", "1", "-1", "1.5", "true", "null", "a.b", "a:b", "#c", "x#y", "[s]", "{m}", "q\"q", "it's", "a=b", "-", "- a", "~", "yes", "0x1", "back\\slash", "tab\tx"}
	docVals = []any{true, false, 0, 1, -5, 1 << 40, math.MaxInt32, 1.5, -0.25, 1e20, 3.0,
		"", "text", "true", "no", "1", "-1.5", "null", "~", " lead", "trail ", "two\nlines", "end\n", "\n", "a: b", "- x", "# c", "x # c", "日本", "q\"q", "it's", "'''", `"""`, "back\\slash", "tab\tx", "{", "[", "}", "]", ":", "> x", "|", "a=b", "0x10", "1e3", "2024-05-06", "2024-05-06T07:08:09Z", "!!t", "&a", "*a", "%d", "@x", "`x`", "null x", ",", "//c", "/*c*/"}
	docNested = []any{
		[]any{}, []any{1}, []any{1, 2, 3}, []any{"a", "b"}, []any{"x", 1, true}, []any{[]any{1, 2}, []any{3}}, []any{map[string]any{"a": 1}, map[string]any{"b": "x"}},
		map[string]any{}, map[string]any{"a": 1}, map[string]any{"a": map[string]any{"b": map[string]any{"c": "x"}}}, map[string]any{"a": []any{1, map[string]any{"z": "y"}}, "b": "x"},
	}
)

// docs: the documents, each leaf value at each kind of place, and each key.
func docs(leaves []any, deep bool) (ret []map[string]any) {
	add := func(m map[string]any) { ret = append(ret, m) }
	add(map[string]any{})
	for _, v := range leaves {
		add(map[string]any{"a": v})
		add(map[string]any{"s": map[string]any{"t": map[string]any{"k": v}}})
		add(map[string]any{"l": []any{v}})
		add(map[string]any{"l": []any{v, "z", v}, "m": "n"})
		add(map[string]any{"l": []any{map[string]any{"x": v}, map[string]any{"x": v}}})
		add(map[string]any{"l": []any{[]any{v}}})
	}
	for _, k := range docKeys {
		for _, v := range []any{1, "x", map[string]any{"z": 1}, []any{1, 2}} {
			add(map[string]any{k: v})
			add(map[string]any{"s": map[string]any{k: v}})
		}
		for _, k2 := range docKeys {
			if k != k2 && deep {
				add(map[string]any{k: map[string]any{k2: "v"}, k2: 1})
			}
		}
	}
	for _, v := range docNested {
		for _, w := range docNested {
			add(map[string]any{"a": v, "b": w})
			add(map[string]any{"a": map[string]any{"x": v, "y": w}})
			add(map[string]any{"a": []any{v, w}})
		}
	}
	if deep {
		for i, v := range leaves {
			for j, w := range leaves {
				add(map[string]any{"a": v, "b": map[string]any{"c": w}})
				if i < j {
					add(map[string]any{"l": []any{v, w}})
				}
			}
		}
	}
	return
}

func hasValue(v any, f func(v any) bool) bool {
	if f(v) {
		return true
	}
	switch x := v.(type) {
	case map[string]any:
		for _, e := range x {
			if hasValue(e, f) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if hasValue(e, f) {
				return true
			}
		}
	}
	return false
}

type regWorld struct {
	want map[string]string // suffix -> name of the codec
}

// namedCodec is a codec with a name.
type namedCodec struct {
	jsonCodec
	name string
}

// registryCheck: the registry of the codecs is a map from suffixes to codecs.
func registryCheck(c *eng.Ctx) {
	builtin := map[string]func() store.Codec{}
	for k, v := range all.ExtCodecMap() {
		builtin[k] = v
	}
	name := func(f func() store.Codec) string {
		if f == nil {
			return "<nil>"
		}
		x := f()
		if n, ok := x.(*namedCodec); ok {
			return n.name
		}
		return fmt.Sprintf("%T", x)
	}
	reset := func() {
		for k := range all.ExtCodecMap() {
			all.Deregister(k)
		}
		for k, v := range builtin {
			all.Register(k, v)
		}
	}
	exts := []string{"json", "new", "", "JSON"}
	type op = eng.Op[regWorld]
	var ops []op
	for _, e := range exts {
		for _, n := range []string{"A", "B"} {
			ops = append(ops, op{Name: fmt.Sprintf("Register(%q, %s)", e, n), Do: func(w *regWorld) error {
				all.Register(e, func() store.Codec { return &namedCodec{name: n} })
				w.want[e] = n
				return nil
			}})
		}
		ops = append(ops, op{Name: fmt.Sprintf("Deregister(%q)", e), Do: func(w *regWorld) error {
			all.Deregister(e)
			delete(w.want, e)
			return nil
		}})
	}
	s := &eng.Sys[regWorld]{Name: "registry", Ops: ops, New: func() *regWorld {
		reset()
		w := &regWorld{map[string]string{}}
		for k, v := range builtin {
			w.want[k] = name(v)
		}
		return w
	}, Obs: func(w *regWorld) error {
		for _, e := range append([]string{"yaml", "yml", "toml", "nope", "js"}, exts...) {
			n, ok := w.want[e]
			f, found := all.Codec(e)
			if found != ok || (f != nil) != ok || ok && name(f) != n {
				return errf("Codec(%q) = %s, %v, want %s, %v", e, name(f), found, n, ok)
			}
			if f = all.MustCodec(e); (f != nil) != ok || ok && name(f) != n {
				return errf("MustCodec(%q) = %s, want %s", e, name(f), n)
			}
		}
		m := all.ExtCodecMap()
		if len(m) != len(w.want) {
			return errf("ExtCodecMap() has %d suffixes, want %d", len(m), len(w.want))
		}
		for e, n := range w.want {
			if name(m[e]) != n {
				return errf("ExtCodecMap()[%q] is %s, want %s", e, name(m[e]), n)
			}
		}
		return nil
	}}
	c.Serial(func() {
		defer reset()
		eng.DFS(c, s, pick(c, 3, 5))
	})
}

func runC20(c *eng.Ctx) {
	registryCheck(c)
	for _, cc := range codecCases {
		leaves := append([]any{}, docVals...)
		if cc.nils {
			leaves = append(leaves, nil)
		}
		full := docs(leaves, true)
		some := docs([]any{true, 1, -5, 1.5, "x", "", "1", "two\nlines"}, false)
		if cc.skip != nil {
			drop := func(m map[string]any) bool { return hasValue(m, func(v any) bool { return v != nil && cc.skip(v) }) }
			full, some = slices.DeleteFunc(full, drop), slices.DeleteFunc(some, drop)
		}
		describe := func(i int) string { return fmt.Sprintf("%s: %#v", cc.name, full[i]) }
		eng.Enum(c, "round trip/"+cc.name, len(full), describe, func(i int) (int, error) {
			m := full[i]
			orig := deepCopyAny(m).(map[string]any)
			// one codec object is used for several documents
			cd := cc.mk()
			for n := 0; n < 2; n++ {
				b, err := cd.Marshal(m)
				if err != nil {
					return 1, errf("%s: Marshal(%#v): %v", cc.name, m, err)
				}
				if !reflect.DeepEqual(m, orig) {
					return 1, errf("%s: Marshal changed its input %#v to %#v", cc.name, orig, m)
				}
				back, err := cd.Unmarshal(b)
				if err != nil {
					return 1, errf("%s: Unmarshal(%q) of %#v: %v", cc.name, b, m, err)
				}
				if !sameData(orig, back, cc.text) && !(len(orig) == 0 && len(back) == 0) {
					return 1, errf("%s: %#v is encoded as %q and decoded as %#v", cc.name, orig, b, back)
				}
			}
			return 4, nil
		})
		// save and load by a store
		eng.Enum(c, "store/"+cc.name, len(some), func(i int) string { return fmt.Sprintf("%s: store with %#v", cc.name, some[i]) }, func(i int) (int, error) {
			flatm := map[string]any{}
			for k, v := range some[i] {
				flat(flatm, k, ".", v, false)
			}
			for k := range flatm {
				if strings.Contains(k, " ") || strings.Contains(k, "..") || strings.HasSuffix(k, ".") {
					return 0, nil
				}
			}
			st := store.New()
			for _, k := range sorted(flatm) {
				st.Set(k, flatm[k])
			}
			// extract all of it, nested, encode and load it
			doc := newRef(".")
			for k, v := range flatm {
				doc.set(k, v)
			}
			b, err := cc.mk().Marshal(nest(flatm, "."))
			if err != nil {
				return 1, errf("%s: Marshal(%#v): %v", cc.name, flatm, err)
			}
			for _, prefix := range []string{"", "app.x"} {
				to := store.New()
				opts := []store.LoadOpt{store.WithProvider(&bytesProv{b: b}), store.WithCodec(cc.mk())}
				if prefix != "" {
					opts = append(opts, store.WithStorePrefix(prefix))
				}
				if _, err = to.Load(context.Background(), opts...); err != nil {
					return 1, errf("%s: Load of %q: %v", cc.name, b, err)
				}
				got, dup := leaves2(to)
				if dup != "" || len(got) != len(flatm) {
					return 1, errf("%s: loaded %v from %q, want %v below %q", cc.name, got, b, flatm, prefix)
				}
				for k, v := range flatm {
					if g, ok := got[joinD(".", prefix, k)]; !ok || !sameData(v, g, cc.text) {
						return 1, errf("%s: loaded %s = %s from %q, want %s", cc.name, k, show(g), b, show(v))
					}
				}
			}
			// load something, set all keys, save, and load what was saved
			seed, err := cc.mk().Marshal(map[string]any{"seed": "x"})
			if err != nil {
				return 1, errf("%s: Marshal: %v", cc.name, err)
			}
			p := &bytesProv{b: seed}
			st = store.New()
			wr, err := st.Load(context.Background(), store.WithProvider(p), store.WithCodec(cc.mk()))
			if err != nil || wr == nil {
				return 1, errf("%s: Load of %q: %v, %v", cc.name, seed, wr, err)
			}
			for _, k := range sorted(flatm) {
				st.Set(k, flatm[k])
			}
			if err = wr.Save(context.Background()); err != nil || len(flatm) > 0 != (len(p.wrote) == 1) {
				return 1, errf("%s: Save of %#v: %v, wrote %q", cc.name, flatm, err, p.wrote)
			}
			if len(flatm) > 0 {
				back, err := cc.mk().Unmarshal([]byte(p.wrote[0]))
				if err != nil || !sameData(nest(flatm, "."), back, cc.text) {
					return 1, errf("%s: saved %q for %#v: %#v, %v", cc.name, p.wrote[0], flatm, back, err)
				}
			}
			return 6, nil
		})
		corrupt(c, cc)
		bigDocs(c, cc)
	}
	codecFiles(c)
	suffixes(c)
	if what, ok := c.Known["hcl"]; ok {
		back, err := hcl.New().Unmarshal([]byte("a = 1\n"))
		if x, isNum := number(back["a"]); err != nil || !isNum || x != 1 {
			fmt.Printf("KNOWN-FINDING: property=C20 %s\n", what)
		}
	}
	// hcl: no crash
	hc := docs([]any{true, 1, -5, "x", "", "two\nlines"}, false)
	eng.Enum(c, "hcl", len(hc), func(i int) string { return fmt.Sprintf("hcl: %#v", hc[i]) }, func(i int) (int, error) {
		mixed := hasValue(hc[i], func(v any) bool {
			l, ok := v.([]any)
			if ok {
				for _, e := range l {
					if reflect.TypeOf(e) != reflect.TypeOf(l[0]) || reflect.TypeOf(e).Kind() == reflect.Map || reflect.TypeOf(e).Kind() == reflect.Slice {
						return true
					}
				}
			}
			return false
		})
		if mixed {
			return 0, nil // see known_findings.md
		}
		b, err := hcl.New().Marshal(hc[i])
		if err == nil {
			_, _ = hcl.New().Unmarshal(b)
		}
		return 2, nil
	})
}

// suffixes: the registry gives the codec of the format for each file suffix.
func suffixes(c *eng.Ctx) {
	want := map[string]string{"toml": "toml", "yaml": "yaml", "yml": "yaml", "gob": "gob", "json": "json", "hjson": "hjson", "nestedtext": "nestext", "txt": "nestext", "conf": "nestext", "": "nestext"}
	exts := append(sortedS(want), "hcl", "tf", "unknown")
	doc := map[string]any{"a": "x", "s": map[string]any{"k": "v"}}
	eng.Enum(c, "suffixes", len(exts), func(i int) string { return exts[i] }, func(i int) (int, error) {
		ext := exts[i]
		get, ok := all.Codec(ext)
		if ok != (ext != "unknown") || (get == nil) == ok || (all.MustCodec(ext) == nil) == ok {
			return 1, errf("Codec(%q): exists = %v", ext, ok)
		}
		for _, cc := range codecCases {
			if cc.name != want[ext] {
				continue
			}
			b, err := get().Marshal(doc)
			if err != nil {
				return 1, errf("Codec(%q).Marshal: %v", ext, err)
			}
			back, err := cc.mk().Unmarshal(b)
			if err != nil || !sameData(doc, back, cc.text) {
				return 1, errf("Codec(%q) encodes %q, which is not %s", ext, b, cc.name)
			}
		}
		return 1, nil
	})
}

func sortedS(m map[string]string) (ret []string) {
	for k := range m {
		ret = append(ret, k)
	}
	slices.Sort(ret)
	return
}

func leaves2(st store.Store) (map[string]any, string) { return leaves(st, "") }

// corrupt: all truncations and single-byte changes of some documents.
func corrupt(c *eng.Ctx, cc codecCase) {
	base := []map[string]any{
		{"a": 1, "b": "x"},
		{"s": map[string]any{"t": map[string]any{"k": "two\nlines", "l": []any{1, "x"}}, "u": true}},
		{"l": []any{map[string]any{"x": "y"}, map[string]any{"x": -1.5}}, "e": []any{}, "m": map[string]any{}},
		{"日本": "q\"q", "it's": "# c", "t": "2024-05-06"},
	}
	type job struct {
		b    []byte
		what string
		bad  bool // certainly malformed
	}
	var jobs []job
	subst := []byte{0, ' ', '\n', '\t', '"', '\'', '\\', '{', '}', '[', ']', ':', '=', ',', '#', '-', '.', '0', 'a', '~', '*', '&', '!', '<', '|', '>', 0x7f, 0x80, 0xc3, 0xff}
	if c.Thorough {
		subst = nil
		for i := 0; i < 256; i++ {
			subst = append(subst, byte(i))
		}
	}
	for n, m := range base {
		b, err := cc.mk().Marshal(m)
		if err != nil {
			c.Report("corrupt/"+cc.name, []int{0}, nil, fmt.Sprintf("Marshal(%v): %v", m, err))
			return
		}
		strict := strings.HasPrefix(cc.name, "json") || cc.name == "gob"
		for i := range b {
			jobs = append(jobs, job{b[:i:i], fmt.Sprintf("%s doc %d cut at %d", cc.name, n, i), strict})
			jobs = append(jobs, job{append(append([]byte{}, b[:i]...), b[i+1:]...), fmt.Sprintf("%s doc %d without byte %d", cc.name, n, i), false})
			for _, x := range subst {
				if x != b[i] {
					d := append([]byte{}, b...)
					d[i] = x
					jobs = append(jobs, job{d, fmt.Sprintf("%s doc %d byte %d = %#x", cc.name, n, i, x), false})
				}
			}
			d := append(append(append([]byte{}, b[:i]...), b[i]), b[i:]...)
			jobs = append(jobs, job{d, fmt.Sprintf("%s doc %d byte %d twice", cc.name, n, i), false})
		}
	}
	for _, s := range malformed[strings.TrimSuffix(cc.name, "-compact")] {
		jobs = append(jobs, job{[]byte(s), cc.name + " malformed", true})
	}
	eng.Enum(c, "corrupt/"+cc.name, len(jobs), func(i int) string { return fmt.Sprintf("%s: %q", jobs[i].what, jobs[i].b) }, func(i int) (int, error) {
		j := jobs[i]
		in := append([]byte{}, j.b...)
		m, err := cc.mk().Unmarshal(in)
		if err == nil && j.bad {
			return 1, errf("%s: Unmarshal(%q) = %v without an error", j.what, j.b, m)
		}
		if string(in) != string(j.b) {
			return 1, errf("%s: Unmarshal changed its input", j.what)
		}
		return 1, nil
	})
}

var malformed = map[string][]string{
	"json":    {"", "{", "[1]", "1", `"x"`, `{"a":}`, `{"a":1,}`, `{"a":1}}`, `{a:1}`, "nul", "\x00"},
	"yaml":    {"a: [", "- 1\n- 2\n", "a: b: c: d", "x", "a: 'q", "{", "a: \"", "\ta: 1"},
	"toml":    {"a", "a =", "= 1", "[", "[a", "a = 1\na = 2\n", "a = [1", "a = 'x", "[a]\n[a]\n", "a = 1 2"},
	"hjson":   {"{", "{a: [1", "[1, 2", `{"a: 1}`, "{a: 1}}", "{a: '''x"},
	"nestext": {"a", "a: 1\n  b: 2\n", "a: 1\na\n"},
	"gob":     {"", "\x00", "\x7f", "abc", "\x03\x04\x00\x01"},
}

// lostText: texts which the third-party encoder or parser of a format does not keep.
func lostText(codec, t string) bool {
	switch codec {
	case "yaml":
		return strings.HasPrefix(t, "\n")
	case "hjson":
		return strings.HasPrefix(t, "\t") || strings.HasPrefix(t, "\u00a0") || strings.HasSuffix(t, "\u00a0")
	case "nestext":
		return strings.HasPrefix(t, "\n") || strings.Contains(t, "\r")
	}
	return false
}

// bigDocs: documents which are long, wide or deep, and texts with every control character at every place.
func bigDocs(c *eng.Ctx, cc codecCase) {
	type doc struct {
		name string
		m    map[string]any
	}
	var ds []doc
	sizes := []int{1, 2, 3, 10, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097}
	if cc.text {
		sizes = slices.DeleteFunc(sizes, func(n int) bool { return n > 129 }) // the third-party parser is slow
	} else if c.Thorough {
		sizes = append(sizes, 20000)
	}
	for _, n := range sizes {
		wide, sections, list, maps := map[string]any{}, map[string]any{}, []any{}, []any{}
		for i := 0; i < n; i++ {
			wide[fmt.Sprint("k", i)] = fmt.Sprint("value ", i)
			if i%16 == 0 {
				sections[fmt.Sprint("s", i/16)] = map[string]any{}
			}
			sections[fmt.Sprint("s", i/16)].(map[string]any)[fmt.Sprint("k", i)] = i
			list = append(list, i)
			maps = append(maps, map[string]any{"x": i, "y": fmt.Sprint("v", i)})
		}
		ds = append(ds, doc{fmt.Sprint(n, " keys"), wide}, doc{fmt.Sprint(n, " keys in sections"), sections}, doc{fmt.Sprint("a list of ", n), map[string]any{"l": list, "e": "end"}},
			doc{fmt.Sprint("a list of ", n, " maps"), map[string]any{"l": maps, "e": "end"}})
		for _, unit := range []string{"x", "日", "a b "} {
			ds = append(ds, doc{fmt.Sprintf("a text of %d %q", n, unit), map[string]any{"t": strings.Repeat(unit, n) + "!", "e": "end"}})
		}
		if n < 1000 {
			ds = append(ds, doc{fmt.Sprintf("a key of %d characters", n), map[string]any{strings.Repeat("k", n): map[string]any{strings.Repeat("m", n): 1}}})
			ds = append(ds, doc{fmt.Sprintf("%d lines", n), map[string]any{"t": strings.Repeat("line\n", n) + "end"}})
		}
		if n <= 100 {
			var deep any = "leaf"
			for i := 0; i < n; i++ {
				deep = map[string]any{fmt.Sprint("d", i): deep, "side": i}
			}
			ds = append(ds, doc{fmt.Sprint(n, " levels"), deep.(map[string]any)})
		}
	}
	for _, n := range []int{65535, 65536, 65537, 100000} {
		if cc.text {
			break
		}
		ds = append(ds, doc{fmt.Sprintf("a text of %d bytes", n), map[string]any{"t": strings.Repeat("y", n), "e": "end"}})
	}
	var chars []rune
	for r := rune(1); r < 0x20; r++ {
		chars = append(chars, r)
	}
	for r := rune('!'); r < 0x7f; r++ {
		chars = append(chars, r)
	}
	chars = append(chars, 0x7f, 0x80, 0x85, 0xa0, 0xad, 0xff, 0x2028, 0x2029, 0x200b, 0xfeff, 0xfffd, 0x1f600, 0x10ffff)
	for _, r := range chars {
		for _, f := range []string{"%sx", "x%sy", "x%s", "%s%s"} {
			t := strings.ReplaceAll(f, "%s", string(r))
			if lostText(cc.name, t) {
				continue
			}
			ds = append(ds, doc{fmt.Sprintf("the text %q", t), map[string]any{"t": t, "l": []any{t, t + "z"}, "m": map[string]any{"n": t}}})
		}
	}
	if cc.skip != nil {
		ds = slices.DeleteFunc(ds, func(d doc) bool { return hasValue(d.m, func(v any) bool { return v != nil && cc.skip(v) }) })
	}
	eng.Enum(c, "big/"+cc.name, len(ds), func(i int) string { return cc.name + ": " + ds[i].name }, func(i int) (int, error) {
		cd := cc.mk()
		b, err := cd.Marshal(ds[i].m)
		if err != nil {
			return 1, errf("%s: Marshal: %v", cc.name, err)
		}
		back, err := cd.Unmarshal(b)
		if err != nil {
			return 1, errf("%s: Unmarshal: %v", cc.name, err)
		}
		if !sameData(any(ds[i].m), any(back), cc.text) {
			if len(b) > 300 {
				b = append(b[:300:300], "..."...)
			}
			return 1, errf("%s: what is decoded is not what was encoded, as %q: %.300v", cc.name, b, back)
		}
		return 2, nil
	})
}
