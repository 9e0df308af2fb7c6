package checks

import (
	"context"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"slices"
	"strings"
	"testing/fstest"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/env"
	"github.com/hedzr/store/providers/file"
	"github.com/hedzr/store/providers/flags"
	"github.com/hedzr/store/providers/fs"
	"github.com/hedzr/store/providers/maps"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C21", runC21, "the options of the environment and flags providers apply in this order: filter by prefix, lower-case, strip, underscores to dots, callback, store prefix",
		"when the rules map two names to one key, either value is accepted",
		"watching a file is not claimed")
}

// nameRules is what env and flags do to a name.
type nameRules struct {
	prefix, strip string
	lower, dots   bool
	cb            bool
	at            string
}

func (r nameRules) String() string {
	return fmt.Sprintf("prefix=%q strip=%q lower=%v dots=%v cb=%v at=%q", r.prefix, r.strip, r.lower, r.dots, r.cb, r.at)
}

func keyCB(s string) string { return "cb." + s }

// key is the expected key, ok=false if the name is not selected.
func (r nameRules) key(name string, prefix string) (string, bool) {
	if len(name) < len(prefix) || name[:len(prefix)] != prefix {
		return "", false
	}
	if r.lower {
		name = strings.ToLower(name)
	}
	if r.strip != "" && len(name) >= len(r.strip) && name[:len(r.strip)] == r.strip {
		name = name[len(r.strip):]
	}
	if r.dots {
		b := []byte(name)
		for i := 1; i+1 < len(b); i++ {
			if b[i] == '_' && b[i+1] != '_' {
				b[i] = '.'
			}
		}
		name = string(b)
	}
	if r.cb {
		name = keyCB(name)
	}
	if r.at != "" {
		name = r.at + "." + name
	}
	return name, true
}

func allRules(prefixes, strips []string) (ret []nameRules) {
	for _, p := range prefixes {
		for _, s := range strips {
			for m := 0; m < 8; m++ {
				for _, at := range []string{"", "s", "s.t"} {
					ret = append(ret, nameRules{p, s, m&1 != 0, m&2 != 0, m&4 != 0, at})
				}
			}
		}
	}
	return
}

// subsets of at most k of n things, as index lists.
func subsets(n, k int) (ret [][]int) {
	var rec func(from int, cur []int)
	rec = func(from int, cur []int) {
		ret = append(ret, slices.Clone(cur))
		if len(cur) == k {
			return
		}
		for i := from; i < n; i++ {
			rec(i+1, append(cur, i))
		}
	}
	rec(0, nil)
	return
}

type keyedProv interface {
	store.Provider
	Keys() ([]string, error)
	Count() int
	Has(key string) bool
	Value(key string) (any, bool)
	Next() (string, bool)
	MustValue(key string) any
}

// checkKeyed: the provider gives exactly want (each value is one of those listed).
func checkKeyed(p keyedProv, want map[string][]string) error {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	one := func(k string, v any) error {
		if !slices.Contains(want[k], fmt.Sprint(v)) {
			return errf("key %q has the value %#v, want %q", k, v, want[k])
		}
		return nil
	}
	got, err := p.Keys()
	if err != nil {
		return errf("Keys: %v", err)
	}
	got = slices.Clone(got)
	slices.Sort(got)
	if !slices.Equal(got, keys) {
		return errf("Keys() = %q, want %q", got, keys)
	}
	if p.Count() != len(keys) {
		return errf("Count() = %d, want %d", p.Count(), len(keys))
	}
	m, err := p.Read()
	if err != nil || len(m) != len(keys) {
		return errf("Read() = %v, %v, want the keys %q", m, err, keys)
	}
	vals := map[string]string{}
	for k, v := range m {
		if err := one(k, v.Value); err != nil {
			return errf("Read: %w", err)
		}
		vals[k] = fmt.Sprint(v.Value)
	}
	for _, k := range append(slices.Clone(keys), "", "no", "a", "A", "cb.", "s.") {
		_, in := want[k]
		if p.Has(k) != in {
			return errf("Has(%q) = %v", k, !in)
		}
		v, ok := p.Value(k)
		if ok != in || ok && fmt.Sprint(v) != vals[k] {
			return errf("Value(%q) = %#v, %v, Read has %q", k, v, ok, vals[k])
		}
		if mv := p.MustValue(k); !in && mv != nil || in && fmt.Sprint(mv) != vals[k] {
			return errf("MustValue(%q) = %#v", k, mv)
		}
	}
	var seen []string
	for i := 0; ; i++ {
		k, eol := p.Next()
		if eol {
			break
		}
		if i > len(keys) {
			return errf("Next does not end")
		}
		seen = append(seen, k)
	}
	slices.Sort(seen)
	if !slices.Equal(seen, keys) {
		return errf("Next gave %q, want %q", seen, keys)
	}
	if _, eol := p.Next(); !eol {
		return errf("Next goes on after the end")
	}
	return nil
}

// loaded: loading the provider puts every key with its value into a store
func loaded(p store.Provider, want map[string][]string, at string) error {
	for k := range want {
		if k == "" || strings.HasSuffix(k, ".") || strings.HasPrefix(k, ".") || strings.Contains(k, "..") {
			return nil
		}
	}
	st := store.New()
	opts := []store.LoadOpt{store.WithProvider(p)}
	if at != "" {
		opts = append(opts, store.WithStorePrefix(at))
	}
	if _, err := st.Load(context.Background(), opts...); err != nil {
		return errf("Load: %v", err)
	}
	got, _ := leaves(st, "")
	for k := range want {
		kk := k
		if at != "" {
			kk = at + "." + k
		}
		v, ok := got[kk]
		if !ok || !slices.Contains(want[k], fmt.Sprint(v)) {
			return errf("after loading at %q, %q is %#v (%v), want %q", at, kk, v, ok, want[k])
		}
	}
	if len(got) != len(want) {
		return errf("after loading at %q the store has %v, want %v", at, got, want)
	}
	return nil
}

var envNames = []string{"A", "A_B", "a_b", "A__B", "_A_B", "A_B_", "APP_A", "APP_A_B", "APP_", "app_x", "APPX", "A_BC_D", "É_X", "a.b"}
var envVals = []string{"v", "", "x=y", "two\nlines", " sp ", "1", "=", "true", "[1,2]", "日本", "w", "u", "t", "r"}

func envCheck(c *eng.Ctx) {
	old := os.Environ()
	defer func() {
		os.Clearenv()
		for _, kv := range old {
			if i := strings.IndexByte(kv[1:], '=') + 1; i > 0 {
				os.Setenv(kv[:i], kv[i+1:])
			}
		}
	}()
	rules := allRules([]string{"", "APP_", "app_", "A", "App"}, []string{"", "app_", "APP_", "a"})
	k := 2
	if c.Thorough {
		k = 3
	}
	srcs := subsets(len(envNames), k)
	eng.Enum(c, "env", len(srcs)*len(rules), func(i int) string {
		var ns []string
		for _, j := range srcs[i/len(rules)] {
			ns = append(ns, envNames[j]+"="+envVals[j])
		}
		return fmt.Sprintf("environment %q, %v", ns, rules[i%len(rules)])
	}, func(i int) (int, error) {
		r := rules[i%len(rules)]
		os.Clearenv()
		want := map[string][]string{}
		for _, j := range srcs[i/len(rules)] {
			os.Setenv(envNames[j], envVals[j])
			if k, ok := r.key(envNames[j], strings.ToUpper(r.prefix)); ok {
				want[k] = append(want[k], envVals[j])
			}
		}
		opts := []env.Opt{env.WithPrefix(r.prefix, r.strip), env.WithStorePrefix(r.at)}
		if r.dots && i%3 == 0 {
			opts = append(opts, env.WithUnderlineToDot())
		} else if r.dots || i%2 == 0 {
			opts = append(opts, env.WithUnderlineToDot(r.dots))
		}
		if v := i / len(rules) % 3; r.lower && v == 0 {
			opts = append(opts, env.WithLowerCase())
		} else if !r.lower || v == 1 {
			opts = append(opts, env.WithLowerCase(r.lower))
		}
		if r.cb {
			opts = append(opts, env.WithKeyCB(keyCB))
		}
		if err := checkKeyed(env.New(opts...), want); err != nil {
			return 1, err
		}
		p1, p2 := env.New(opts...), env.New(opts...) // loading sets a variable of its own
		if err := loaded(p1, want, ""); err != nil {
			return 1, err
		}
		if err := loaded(p2, want, "pre.fix"); err != nil {
			return 1, err
		}
		return 3, nil
	})
}

func flagsCheck(c *eng.Ctx) {
	old := flag.CommandLine
	defer func() { flag.CommandLine = old }()
	names := []string{"a", "a_b", "A_b", "a__b", "_a_b", "app_a", "app_a_b", "APP_x", "appx", "dry-run", "a.b"}
	rules := allRules([]string{"", "APP_", "app_", "a"}, []string{"", "app_", "APP_"})
	k := 2
	if c.Thorough {
		k = 3
	}
	srcs := subsets(len(names), k)
	eng.Enum(c, "flags", len(srcs)*len(rules), func(i int) string {
		var ns []string
		for _, j := range srcs[i/len(rules)] {
			ns = append(ns, names[j])
		}
		return fmt.Sprintf("flags %q, %v", ns, rules[i%len(rules)])
	}, func(i int) (int, error) {
		r := rules[i%len(rules)]
		fset := flag.NewFlagSet("x", flag.ContinueOnError)
		fset.SetOutput(io.Discard)
		flag.CommandLine = fset
		want := map[string][]string{}
		type ext struct{ usage, def string }
		exts := map[string][]ext{}
		var args []string
		for _, j := range srcs[i/len(rules)] {
			var def, arg string
			switch n := names[j]; j % 6 {
			case 0:
				fset.Int(n, 5, "use "+n)
				def, arg = "5", "-7"
			case 1:
				fset.Bool(n, false, "use "+n)
				def, arg = "false", "true"
			case 2:
				fset.String(n, "d", "use "+n)
				def, arg = "d", ""
			case 3:
				fset.Duration(n, time.Second, "use "+n)
				def, arg = "1s", "1m30s"
			case 4:
				fset.Float64(n, 1.5, "use "+n)
				def, arg = "1.5", "-2.25"
			case 5:
				fset.Uint64(n, 0, "use "+n)
				def, arg = "0", "18446744073709551615"
			}
			val := def
			if (i+j)%2 == 0 { // given on the command line
				args = append(args, "-"+names[j]+"="+arg)
				val = arg
			}
			if k, ok := r.key(names[j], r.prefix); ok {
				if j%6 == 3 { // the flag package's own type has no String method on the value
					d, _ := time.ParseDuration(val)
					val = fmt.Sprint(int64(d))
				}
				want[k] = append(want[k], val)
				exts[k] = append(exts[k], ext{"use " + names[j], def})
			}
		}
		if err := fset.Parse(args); err != nil {
			return 0, nil
		}
		opts := []flags.Opt{flags.WithPrefix(r.prefix, r.strip), flags.WithStorePrefix(r.at)}
		if r.dots && i%3 == 0 {
			opts = append(opts, flags.WithUnderlineToDot())
		} else if r.dots || i%2 == 0 {
			opts = append(opts, flags.WithUnderlineToDot(r.dots))
		}
		if v := i / len(rules) % 3; r.lower && v == 0 {
			opts = append(opts, flags.WithLowerCase())
		} else if !r.lower || v == 1 {
			opts = append(opts, flags.WithLowerCase(r.lower))
		}
		if r.cb {
			opts = append(opts, flags.WithKeyCB(keyCB))
		}
		p := flags.New(opts...)
		if err := checkKeyed(p, want); err != nil {
			return 1, err
		}
		m, _ := p.Read()
		for k, es := range exts {
			d, _, tag := p.Extras(k)
			if !slices.Contains(es, ext{d, fmt.Sprint(tag)}) || m[k].Desc != d || m[k].Tag != tag {
				return 1, errf("Extras(%q) = %q, %v, want one of %v", k, d, tag, es)
			}
		}
		for _, at := range []string{"", "pre.fix"} {
			if err := loaded(flags.New(opts...), want, at); err != nil {
				return 1, err
			}
		}
		return 3, nil
	})
}

// mapLeaves collects the leaves of a nested map: path -> values given for it
func mapLeaves(out map[string][]any, at, d string, v any) {
	join := func(k string) string {
		if at == "" {
			return k
		}
		return at + d + k
	}
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			mapLeaves(out, join(k), d, e)
		}
	case map[any]any:
		for k, e := range x {
			mapLeaves(out, join(fmt.Sprint(k)), d, e)
		}
	default:
		out[at] = append(out[at], v)
	}
}

func mapDocs(d string, thorough bool) (ret []map[string]any) {
	j := func(s ...string) string { return strings.Join(s, d) }
	ks := []string{"a", "b", j("a", "b"), j("a", "c"), j("a", "b", "c"), j("b", "a", "c"), "ab"}
	vals := []any{1, "x", nil, []any{1, map[any]any{2: "y"}}, map[string]any{"b": 2}, map[string]any{"b": map[string]any{"c": 3, "d": 4}, "c": "z"},
		map[any]any{"c": 5, 1: map[any]any{true: "t"}}, map[string]any{j("b", "c"): 6}, []string{"s", "w"},
		map[string]any{"e": map[any]any{6: map[any]any{7: "u"}}},
		[]any{map[any]any{"c": map[any]any{3: []any{map[any]any{4: map[any]any{"z": 1}}}}}, map[string]any{"d": map[any]any{5: "v"}}, "e"}}
	k := 2
	if thorough {
		k = 3
	}
	for _, s := range subsets(len(ks), k) {
		n := 1
		for range s {
			n *= len(vals)
		}
		for c := 0; c < n; c++ {
			m, x := map[string]any{}, c
			for _, ki := range s {
				m[ks[ki]] = deepCopyAny(vals[x%len(vals)])
				x /= len(vals)
			}
			ret = append(ret, m)
		}
	}
	return
}

// normal: the value with map[any]any turned into map[string]any
func normal(v any) any {
	switch x := v.(type) {
	case map[any]any:
		m := map[string]any{}
		for k, e := range x {
			m[fmt.Sprint(k)] = normal(e)
		}
		return m
	case map[string]any:
		m := map[string]any{}
		for k, e := range x {
			m[k] = normal(e)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, e := range x {
			l[i] = normal(e)
		}
		return l
	}
	return v
}

// anyKeys: a map whose keys are not strings is in v, or in the maps in a list.
func anyKeys(v any) bool {
	switch x := v.(type) {
	case map[any]any:
		return true
	case map[string]any:
		for _, e := range x {
			if anyKeys(e) {
				return true
			}
		}
	case []any:
		for _, e := range x {
			if _, ok := e.([]any); !ok && anyKeys(e) {
				return true
			}
		}
	}
	return false
}

// multi: two names of a document are one key.
func multi(want map[string][]any) bool {
	for _, vs := range want {
		if len(vs) > 1 {
			return true
		}
	}
	return false
}

// mapsElsewhere loads a document with the delimiter d into a store with another one.
func mapsElsewhere(doc map[string]any, want map[string][]any, d string) error {
	for k, vs := range want {
		if len(vs) > 1 {
			return nil
		}
		for l := range want {
			if strings.HasPrefix(l, k+d) {
				return nil
			}
		}
		if _, isList := vs[0].([]any); isList {
			return nil
		}
	}
	for _, v := range doc { // only the names on top are split
		if m, ok := normal(v).(map[string]any); ok && strings.Contains(fmt.Sprint(m), d) {
			return nil
		}
	}
	st := store.New()
	other := "."
	if d == other {
		other = "~"
	}
	st.SetDelimiter([]rune(other)[0])
	if _, err := st.Load(context.Background(), store.WithProvider(maps.New(deepCopyAny(doc).(map[string]any), d))); err != nil {
		return errf("Load: %v", err)
	}
	got, _ := leaves(st, "")
	w := map[string]any{}
	for k, vs := range want {
		w[strings.ReplaceAll(k, d, other)] = normal(vs[0])
	}
	for k, v := range got {
		got[k] = normal(v)
	}
	if !sameMap(got, w) {
		return errf("loaded into a store with the delimiter %q it is %v, want %v", other, got, w)
	}
	return nil
}

func mapsCheck(c *eng.Ctx) {
	for _, d := range []string{".", "/", "::"} {
		ds := mapDocs(d, c.Thorough)
		eng.Enum(c, "maps "+d, len(ds), func(i int) string { return fmt.Sprintf("maps.New(%#v, %q)", ds[i], d) }, func(i int) (int, error) {
			in := deepCopyAny(ds[i]).(map[string]any)
			want := map[string][]any{}
			mapLeaves(want, "", d, ds[i])
			p := maps.New(in, d)
			if !reflect.DeepEqual(in, ds[i]) {
				return 1, errf("the source was changed: %#v", in)
			}
			clear(in)
			m, err := p.Read()
			if err != nil {
				return 1, errf("Read: %v", err)
			}
			if m2, err := maps.New(deepCopyAny(ds[i]).(map[string]any), "#", maps.WithDelimiter(d)).Read(); err != nil || !multi(want) && !reflect.DeepEqual(m, m2) {
				return 1, errf("by WithDelimiter(%q) it is %#v (%v), otherwise %#v", d, m2, err, m)
			}
			got := map[string][]any{}
			for k, v := range m {
				mapLeaves(got, k, d, v.Value)
				if anyKeys(v.Value) {
					return 1, errf("%q is %#v, with keys which are not strings", k, v.Value)
				}
			}
			has := func(k string, v any) bool {
				return slices.ContainsFunc(want[k], func(w any) bool { return reflect.DeepEqual(normal(w), normal(v)) })
			}
			for k := range want {
				if len(got[k]) == 0 {
					return 1, errf("%q is missing in %#v", k, m)
				}
			}
			for k, vs := range got {
				for _, v := range vs {
					if len(vs) > len(want[k]) || !has(k, v) {
						return 1, errf("%q is %#v, want %#v", k, vs, want[k])
					}
				}
			}
			// and loaded: into a store with another delimiter its own keys are split,
			// unless they are a value and a section at once
			if err := mapsElsewhere(ds[i], want, d); err != nil {
				return 1, err
			}
			st := store.New()
			st.SetDelimiter([]rune(d)[0])
			if len(d) > 1 {
				return 1, nil
			}
			if _, err := st.Load(context.Background(), store.WithProvider(maps.New(deepCopyAny(ds[i]).(map[string]any), d))); err != nil {
				return 1, errf("Load: %v", err)
			}
			sg, _ := leaves(st, "")
			for k, vs := range want {
				if _, isList := vs[0].([]any); len(vs) > 1 || isList {
					continue
				}
				if v, ok := sg[k]; !ok || !reflect.DeepEqual(normal(v), normal(vs[0])) {
					return 1, errf("after loading %q is %#v (%v), want %#v", k, v, ok, vs[0])
				}
			}
			for k := range sg {
				if len(want[k]) == 0 {
					return 1, errf("loading made the key %q", k)
				}
			}
			return 2, nil
		})
	}
}

type fileWorld struct {
	dir, path string
	bytes     []byte // nil: no such file
	last      error
}

func fileCheck(c *eng.Ctx) {
	contents := [][]byte{{}, []byte("a: 1\n"), []byte("a: 1\nb: \"long value, long value\"\n\x00\xff"), []byte("\r\n")}
	var ops []eng.Op[fileWorld]
	for i, b := range contents {
		ops = append(ops,
			eng.Op[fileWorld]{Name: fmt.Sprintf("Write(%d)", i), Do: func(w *fileWorld) error {
				if err := file.New(w.path, file.WithWriteBackEnabled(true)).Write(b); err != nil {
					return errf("Write: %v", err)
				}
				w.bytes = b
				return nil
			}},
			eng.Op[fileWorld]{Name: fmt.Sprintf("Write(%d), disabled", i), Do: func(w *fileWorld) error {
				opts := []file.Opt{}
				if i%2 == 0 {
					opts = append(opts, file.WithWriteBackEnabled(false))
				}
				if err := file.New(w.path, opts...).Write(b); !errors.Is(err, store.ErrWritableDisabled) {
					return errf("Write to a provider without write-back: %v", err)
				}
				return nil
			}},
			eng.Op[fileWorld]{Name: fmt.Sprintf("os.WriteFile(%d)", i), Do: func(w *fileWorld) error {
				w.bytes = b
				return os.WriteFile(w.path, b, 0o644)
			}})
	}
	ops = append(ops, eng.Op[fileWorld]{Name: "os.Remove", En: func(w *fileWorld) bool { return w.bytes != nil }, Do: func(w *fileWorld) error {
		w.bytes = nil
		return os.Remove(w.path)
	}})
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = os.TempDir()
	}
	sys := &eng.Sys[fileWorld]{
		Name: "file",
		New: func() *fileWorld {
			dir, err := os.MkdirTemp(scratch, "c21-")
			if err != nil {
				panic(err)
			}
			return &fileWorld{dir: dir, path: filepath.Join(dir, "x.conf")}
		},
		Ops: ops,
		Fin: func(w *fileWorld) { os.Remove(w.path); os.Remove(w.dir) },
		Key: func(w *fileWorld) string { return fmt.Sprintf("%q %v", w.bytes, w.bytes == nil) },
		Obs: func(w *fileWorld) error {
			for _, p := range []store.OnceProvider{file.New(w.path), file.New(w.path, file.WithWriteBackEnabled(true)), fs.New(os.DirFS(w.dir), "x.conf")} {
				b, err := p.ReadBytes()
				if w.bytes == nil {
					if err == nil {
						return errf("%T.ReadBytes of a missing file: %q, no error", p, b)
					}
					continue
				}
				if err != nil || string(b) != string(w.bytes) {
					return errf("%T.ReadBytes = %q, %v, the file has %q", p, b, err, w.bytes)
				}
			}
			es, err := os.ReadDir(w.dir)
			if err != nil || len(es) > 1 || len(es) == 1 && es[0].Name() != "x.conf" {
				return errf("the folder has %v, %v", es, err)
			}
			return nil
		},
	}
	depth := 3
	if c.Thorough {
		depth = 4
	}
	eng.DFS(c, sys, depth)

	// large and odd contents, through a file system
	n := 200
	eng.Enum(c, "fs", n, func(i int) string { return fmt.Sprintf("fs.New of %d files", i) }, func(i int) (int, error) {
		big := strings.Repeat("k: v\n", i*37)
		f := fstest.MapFS{"a.yml": {Data: []byte(big)}, "d/b.yml": {Data: []byte{byte(i), 0, 255}}}
		for p, w := range map[string]string{"a.yml": big, "d/b.yml": string([]byte{byte(i), 0, 255})} {
			for k := 0; k < 2; k++ {
				pr := fs.New(f, p)
				b, err := pr.ReadBytes()
				if err != nil || string(b) != w {
					return 1, errf("ReadBytes(%q) = %q, %v", p, b, err)
				}
			}
		}
		for _, p := range []string{"b.yml", "d", "../a.yml", "/a.yml", ""} {
			if b, err := fs.New(f, p).ReadBytes(); err == nil {
				return 1, errf("ReadBytes(%q) = %q", p, b)
			}
		}
		return 4, nil
	})
}

// manyCheck: sources with many names, and long ones.
func manyCheck(c *eng.Ctx) {
	sizes := []int{1, 2, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 1000}
	kinds := []string{"env", "flags", "maps"}
	oldEnv, oldFlags := os.Environ(), flag.CommandLine
	defer func() {
		flag.CommandLine = oldFlags
		os.Clearenv()
		for _, kv := range oldEnv {
			if i := strings.IndexByte(kv[1:], '=') + 1; i > 0 {
				os.Setenv(kv[:i], kv[i+1:])
			}
		}
	}()
	eng.Enum(c, "many names", len(sizes)*len(kinds)*2, func(i int) string {
		return fmt.Sprintf("%s: %d names, long: %v", kinds[i%3], sizes[i/6], i/3%2 == 1)
	}, func(i int) (int, error) {
		n, long := sizes[i/6], i/3%2 == 1
		fset := flag.NewFlagSet("x", flag.ContinueOnError)
		flag.CommandLine = fset
		os.Clearenv()
		want := map[string][]string{}
		src := map[string]any{}
		for j := 0; j < n; j++ {
			name, val := fmt.Sprintf("APP_S%d_N%d", j%7, j), fmt.Sprint("v", j)
			if long {
				name, val = "APP_"+strings.Repeat("L", j)+"_X", strings.Repeat("v", j)
			}
			if j == 0 && long {
				continue
			}
			key := strings.ToLower(strings.ReplaceAll(name, "_", "."))
			want[key] = []string{val}
			switch kinds[i%3] {
			case "env":
				os.Setenv(name, val)
			case "flags":
				fset.String(name, val, "usage")
			case "maps":
				a := strings.Split(key, ".")
				m := src
				for _, s := range a[:len(a)-1] {
					if _, ok := m[s]; !ok {
						m[s] = map[string]any{}
					}
					m = m[s].(map[string]any)
				}
				m[a[len(a)-1]] = val
			}
		}
		switch kinds[i%3] {
		case "env":
			mk := func() keyedProv { return env.New(env.WithUnderlineToDot(), env.WithLowerCase()) }
			if err := checkKeyed(mk(), want); err != nil {
				return 1, err
			}
			return 2, loaded(mk(), want, "")
		case "flags":
			mk := func() keyedProv { return flags.New(flags.WithUnderlineToDot(), flags.WithLowerCase()) }
			if err := checkKeyed(mk(), want); err != nil {
				return 1, err
			}
			return 2, loaded(mk(), want, "")
		}
		return 1, loaded(maps.New(src, "."), want, "")
	})
}

func runC21(c *eng.Ctx) {
	c.Serial(func() { // the environment and the flags are global, and evendeep has process wide states
		envCheck(c)
		flagsCheck(c)
		mapsCheck(c)
		manyCheck(c)
	})
	fileCheck(c)
	provCheck(c)
	bytesCheck(c)
}
