package checks

import (
	"bytes"
	"errors"
	"flag"
	"fmt"
	iofs "io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing/fstest"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/env"
	"github.com/hedzr/store/providers/file"
	"github.com/hedzr/store/providers/flags"
	"github.com/hedzr/store/providers/fs"
	"github.com/hedzr/store/providers/maps"
	"github.com/hedzr/store/verifharness/eng"
)

// countFS counts its open files.
type countFS struct {
	fstest.MapFS
	open *int
}

type countFile struct {
	iofs.File
	open *int
}

func (f countFS) Open(name string) (iofs.File, error) {
	x, err := f.MapFS.Open(name)
	if err != nil {
		return nil, err
	}
	*f.open++
	return &countFile{x, f.open}, nil
}

func (f *countFile) Close() error { *f.open--; return f.File.Close() }

// provCheck: codec and position of the providers, the operations which they do not offer, and whole cycles with files.
func provCheck(c *eng.Ctx) {
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = os.TempDir()
	}
	conf := filepath.Join(scratch, "c21.conf")
	if err := os.WriteFile(conf, []byte(`{"a":{"b":"1"}}`), 0o644); err != nil {
		panic(err)
	}
	defer os.Remove(conf)
	mfs := fstest.MapFS{"x.json": {Data: []byte(`{"a":{"b":"1"}}`)}}
	type maker struct {
		name string
		pos  bool // the position is an option of its own
		mk   func(cdc store.Codec, pos string) store.Provider
	}
	makers := []maker{
		{"env", false, func(cdc store.Codec, pos string) store.Provider { return env.New(env.WithCodec(cdc)) }},
		{"flags", false, func(cdc store.Codec, pos string) store.Provider { return flags.New(flags.WithCodec(cdc)) }},
		{"maps", true, func(cdc store.Codec, pos string) store.Provider {
			return maps.New(map[string]any{"a": map[string]any{"b": "1"}}, ".", maps.WithCodec(cdc), maps.WithPosition(pos))
		}},
		{"file", true, func(cdc store.Codec, pos string) store.Provider {
			return file.New(conf, file.WithCodec(cdc), file.WithPosition(pos))
		}},
		{"fs", true, func(cdc store.Codec, pos string) store.Provider {
			return fs.New(mfs, "x.json", fs.WithCodec(cdc), fs.WithPosition(pos))
		}},
	}
	c1, c2 := &jsonCodec{}, &mapCodec{map[string]any{"by": "c2"}}
	c.Serial(func() {
		eng.Enum(c, "provider options", len(makers)*3*3, func(i int) string {
			return fmt.Sprintf("%s: codec %d, position %d", makers[i/9].name, i/3%3, i%3)
		}, func(i int) (int, error) {
			mk := makers[i/9]
			var cdc, later store.Codec
			switch i / 3 % 3 {
			case 1:
				cdc = c1
			case 2:
				cdc, later = c1, c2
			}
			pos := []string{"", "p", "p.q"}[i%3]
			p := mk.mk(cdc, pos)
			if p.GetCodec() != cdc {
				return 1, errf("GetCodec() = %v, want %v", p.GetCodec(), cdc)
			}
			if mk.pos && p.GetPosition() != pos {
				return 1, errf("GetPosition() = %q, want %q", p.GetPosition(), pos)
			}
			if later != nil {
				p.WithCodec(later)
				if p.GetCodec() != later {
					return 2, errf("GetCodec() = %v after WithCodec(%v)", p.GetCodec(), later)
				}
			}
			if mk.pos {
				p.WithPosition("later")
				if p.GetPosition() != "later" {
					return 2, errf("GetPosition() = %q after WithPosition", p.GetPosition())
				}
			}
			// what a provider does not offer is reported, a load relies on that
			full, ok := p.(interface {
				store.OnceProvider
				Reader() (store.Reader, error)
			})
			if !ok {
				return 2, errf("%T is not a provider for a whole document", p)
			}
			if r, err := full.Reader(); r != nil || !errors.Is(err, store.ErrNotImplemented) {
				return 2, errf("Reader() = %v, %v", r, err)
			}
			if b, err := full.ReadBytes(); mk.name == "file" || mk.name == "fs" {
				if err != nil || string(b) != `{"a":{"b":"1"}}` {
					return 2, errf("ReadBytes() = %q, %v", b, err)
				}
			} else if len(b) != 0 || !errors.Is(err, store.ErrNotImplemented) {
				return 2, errf("ReadBytes() = %q, %v", b, err)
			}
			wantErr := store.ErrNotImplemented
			if mk.name == "file" {
				wantErr = store.ErrWritableDisabled
			}
			if err := full.Write([]byte("{}")); !errors.Is(err, wantErr) {
				return 2, errf("Write() = %v, want %v", err, wantErr)
			}
			if mk.name == "env" || mk.name == "flags" {
				return 2, nil
			}
			// they have no keys to iterate
			k := p.(keyedProv)
			keys, err := k.Keys()
			_, eol := k.Next()
			v, found := k.Value("a.b")
			if len(keys) != 0 || !errors.Is(err, store.ErrNotImplemented) || !eol || v != nil || found || k.MustValue("a.b") != nil || k.Count() != 0 || k.Has("a.b") {
				return 3, errf("Keys = %q, %v, Next: eol = %v, Value = %v, %v, Count = %d, Has = %v", keys, err, eol, v, found, k.Count(), k.Has("a.b"))
			}
			m, err := p.Read()
			if mk.name == "maps" {
				if err != nil || len(m) == 0 {
					return 3, errf("Read() = %v, %v", m, err)
				}
			} else if len(m) != 0 || !errors.Is(err, store.ErrNotImplemented) {
				return 3, errf("Read() = %v, %v", m, err)
			}
			// load: the codec of the option wins
			want := map[string]any{"r.a.b": "1"}
			opts := []store.LoadOpt{store.WithStorePrefix("r")}
			if mk.name != "maps" {
				if later != nil {
					want = map[string]any{"r.by": "c2"}
				}
				if cdc == nil {
					opts = append(opts, store.WithCodec(c1))
				}
			}
			var copied *store.Loader
			st := store.New()
			wr, err := st.Load(bg, append(opts, store.WithProvider(p), store.WithLoaderCopy(&copied))...)
			if err != nil || wr == nil || any(copied) != any(wr) {
				return 4, errf("Load = %v, %v, copy %v", wr, err, copied)
			}
			if got, _ := leaves(st, ""); !sameMap(got, want) {
				return 4, errf("Load made %v, want %v", got, want)
			}
			if cdc == nil && mk.name != "maps" && p.GetCodec() != c1 {
				return 4, errf("the codec of the load is not handed to the provider")
			}
			st.Set("r.a.n", "new")
			// without write-back nothing is written
			if err = wr.Save(bg); err == nil && p.GetCodec() != nil {
				return 5, errf("Save to a read-only provider reports no error")
			}
			if b, err := os.ReadFile(conf); err != nil || string(b) != `{"a":{"b":"1"}}` {
				return 5, errf("Save wrote %q, %v to a provider without write-back", b, err)
			}
			return 5, nil
		})
	})

	// whole cycles: load, modify, save, load again
	keys := []string{"a.b", "a.c", "d", "e.f.g"}
	n := 1 << len(keys)
	eng.Enum(c, "file cycle", n*n, func(i int) string { return fmt.Sprintf("loaded %04b, set %04b", i/n, i%n) }, func(i int) (int, error) {
		f := filepath.Join(scratch, fmt.Sprintf("c21-cycle-%d.json", i))
		defer os.Remove(f)
		src, mod := map[string]any{}, map[string]any{}
		for b, k := range keys {
			if i/n&(1<<b) != 0 {
				src[k] = "L" + k
			}
			if i%n&(1<<b) != 0 {
				mod["p."+k] = "M" + k
			}
		}
		doc := mustJSON(nest(src, "."))
		if err := os.WriteFile(f, doc, 0o644); err != nil {
			return 1, err
		}
		st := store.New()
		wr, err := st.Load(bg, store.WithProvider(file.New(f, file.WithCodec(&jsonCodec{}), file.WithWriteBackEnabled(true))), store.WithStorePrefix("p"))
		if err != nil || wr == nil {
			return 1, errf("Load: %v, %v", wr, err)
		}
		for k, v := range mod {
			st.Set(k, v)
		}
		if err = wr.Save(bg); err != nil {
			return 2, errf("Save: %v", err)
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return 2, err
		}
		if len(mod) == 0 {
			if string(b) != string(doc) {
				return 2, errf("Save wrote %q, but nothing was modified", b)
			}
			return 2, nil
		}
		again := store.New()
		if _, err = again.Load(bg, store.WithProvider(fs.New(os.DirFS(scratch), filepath.Base(f), fs.WithCodec(&jsonCodec{}))), store.WithStorePrefix("p")); err != nil {
			return 3, errf("Load of the saved file: %v", err)
		}
		if got, _ := leaves(again, ""); !sameMap(got, mod) {
			return 3, errf("the saved file has %v, want %v", got, mod)
		}
		return 3, nil
	})

	eng.Enum(c, "fs closes", 4, func(i int) string { return fmt.Sprintf("%d reads", i) }, func(i int) (int, error) {
		open := 0
		f := countFS{fstest.MapFS{"x": {Data: []byte("y")}}, &open}
		for j := 0; j <= i; j++ {
			if b, err := fs.New(f, "x").ReadBytes(); err != nil || string(b) != "y" {
				return 1, errf("ReadBytes = %q, %v", b, err)
			}
		}
		if open != 0 {
			return 1, errf("%d files are left open", open)
		}
		return 1, nil
	})
}

// shapes: byte strings with all pairs of ends and several lengths.
func shapes(thorough bool) (ret [][]byte) {
	ends := []string{"", "\xef\xbb\xbf", "\x00", "\r\n", "\n", " ", "\t", "\xff\xfe", "\x1a", "\u2028", "{", "}", "#", "\\"}
	sizes := []int{0, 1, 511, 512, 513, 4095, 4096, 4097, 32768, 65535, 65536, 65537}
	if thorough {
		sizes = append(sizes, 131073, 1<<20, 1<<20+1, 1<<22+1)
	}
	for _, a := range ends {
		for _, b := range ends {
			for _, n := range sizes {
				if n > 4097 && !(a == "" && b == "" || a == ends[1] || b == "\n") {
					continue
				}
				x := []byte(a)
				for i := 0; i < n; i++ {
					x = append(x, "0123456789abcde"[i%15])
				}
				ret = append(ret, append(x, b...))
			}
		}
	}
	for i := 0; i < 256; i++ { // every byte
		ret = append(ret, []byte{byte(i)}, []byte{'a', byte(i), 'b'})
	}
	return
}

// bytesCheck: contents of files are read and written byte by byte, whatever they are.
func bytesCheck(c *eng.Ctx) {
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = os.TempDir()
	}
	all := shapes(c.Thorough)
	eng.Enum(c, "contents", len(all), func(i int) string {
		if b := all[i]; len(b) < 40 {
			return fmt.Sprintf("%q", b)
		} else {
			return fmt.Sprintf("%q ... %q, %d bytes", b[:20], b[len(b)-20:], len(b))
		}
	}, func(i int) (int, error) {
		f := filepath.Join(scratch, fmt.Sprintf("c21-bytes-%d", i))
		defer os.Remove(f)
		if err := os.WriteFile(f, all[i], 0o644); err != nil {
			return 1, err
		}
		for name, read := range map[string]func() ([]byte, error){
			"file":     file.New(f).ReadBytes,
			"fs":       fs.New(os.DirFS(scratch), filepath.Base(f)).ReadBytes,
			"fs (map)": fs.New(fstest.MapFS{"x": {Data: all[i]}}, "x").ReadBytes,
		} {
			if b, err := read(); err != nil || !bytes.Equal(b, all[i]) {
				return 1, errf("%s: ReadBytes gives %d bytes, %v, want %d (or other ones)", name, len(b), err, len(all[i]))
			}
		}
		g := f + "-w"
		defer os.Remove(g)
		for _, old := range [][]byte{nil, {}, []byte("old"), all[i], append(bytes.Clone(all[i]), "longer"...)} {
			if old == nil {
				os.Remove(g)
			} else if err := os.WriteFile(g, old, 0o644); err != nil {
				return 2, err
			}
			if err := file.New(g, file.WithWriteBackEnabled(true)).Write(all[i]); err != nil {
				return 2, errf("Write: %v", err)
			}
			if b, err := os.ReadFile(g); err != nil || !bytes.Equal(b, all[i]) {
				return 2, errf("Write left %d bytes (%v), want %d (or other ones)", len(b), err, len(all[i]))
			}
		}
		return 8, nil
	})

	// values of the environment and of flags
	old, oldFlags := os.Environ(), flag.CommandLine
	defer func() {
		flag.CommandLine = oldFlags
		os.Clearenv()
		for _, kv := range old {
			if i := strings.IndexByte(kv[1:], '=') + 1; i > 0 {
				os.Setenv(kv[:i], kv[i+1:])
			}
		}
	}()
	var vals []string
	for _, b := range all {
		if len(b) <= 65537 && !bytes.Contains(b, []byte{0}) {
			vals = append(vals, string(b))
		}
	}
	alpha := []string{"", " ", "\t", "\n", "\r", "a", "=", "\"", "'", "$", "$a", "%", ","}
	for _, a := range alpha {
		for _, b := range alpha {
			for _, d := range alpha {
				vals = append(vals, a+b+d)
			}
		}
	}
	c.Serial(func() {
		eng.Enum(c, "texts", len(vals), func(i int) string { return fmt.Sprintf("value %.60q (%d bytes)", vals[i], len(vals[i])) }, func(i int) (int, error) {
			os.Clearenv()
			os.Setenv("VX_A", vals[i])
			os.Setenv("VX_B", "b")
			fset := flag.NewFlagSet("x", flag.ContinueOnError)
			fset.String("VX_A", "", "")
			fset.String("VX_B", "b", "")
			flag.CommandLine = fset
			if err := fset.Parse([]string{"-VX_A=" + vals[i]}); err != nil {
				return 1, nil
			}
			want := map[string][]string{"VX_A": {vals[i]}, "VX_B": {"b"}}
			if err := checkKeyed(env.New(env.WithPrefix("VX_"), env.WithLowerCase(false)), want); err != nil {
				return 1, errf("env: %w", err)
			}
			if err := loaded(env.New(env.WithPrefix("VX_"), env.WithLowerCase(false)), want, "at"); err != nil {
				return 1, errf("env: %w", err)
			}
			if err := checkKeyed(flags.New(flags.WithPrefix("VX_"), flags.WithLowerCase(false)), want); err != nil {
				return 1, errf("flags: %w", err)
			}
			if err := loaded(flags.New(flags.WithPrefix("VX_"), flags.WithLowerCase(false)), want, "at"); err != nil {
				return 1, errf("flags: %w", err)
			}
			return 4, nil
		})
		// and many of them
		counts := []int{0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300}
		eng.Enum(c, "many", len(counts), func(i int) string { return fmt.Sprintf("%d entries", counts[i]) }, func(i int) (int, error) {
			os.Clearenv()
			fset := flag.NewFlagSet("x", flag.ContinueOnError)
			flag.CommandLine = fset
			want, doc, wantMap := map[string][]string{}, map[string]any{}, map[string]any{}
			for j := 0; j < counts[i]; j++ {
				k, v := fmt.Sprintf("vx_%d_%d", j/16, j), fmt.Sprint("v", j)
				os.Setenv(strings.ToUpper(k), v)
				fset.String(k, v, "")
				want[strings.ReplaceAll(k, "_", ".")] = []string{v}
				doc[strings.ReplaceAll(k, "_", ".")], wantMap[strings.ReplaceAll(k, "_", ".")] = v, v
			}
			if err := checkKeyed(env.New(env.WithPrefix("VX_"), env.WithLowerCase(), env.WithUnderlineToDot()), want); err != nil {
				return 1, errf("env: %w", err)
			}
			if err := loaded(env.New(env.WithPrefix("VX_"), env.WithLowerCase(), env.WithUnderlineToDot()), want, ""); err != nil {
				return 1, errf("env: %w", err)
			}
			if err := checkKeyed(flags.New(flags.WithPrefix("vx_"), flags.WithUnderlineToDot()), want); err != nil {
				return 1, errf("flags: %w", err)
			}
			if err := loaded(flags.New(flags.WithPrefix("vx_"), flags.WithUnderlineToDot()), want, ""); err != nil {
				return 1, errf("flags: %w", err)
			}
			st := store.New()
			if _, err := st.Load(bg, store.WithProvider(maps.New(doc, "."))); err != nil {
				return 1, err
			}
			if got, _ := leaves(st, ""); !sameMap(got, wantMap) {
				return 1, errf("maps: %d keys are loaded, want %d (or others)", len(got), len(wantMap))
			}
			return 5, nil
		})
	})
}
