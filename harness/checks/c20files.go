package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

// codecFiles: some of the codecs load and save files too, the ones which do not say so.
func codecFiles(c *eng.Ctx) {
	scratch := os.Getenv("VERIF_SCRATCH")
	if scratch == "" {
		scratch = os.TempDir()
	}
	type loader interface {
		Load(file string) (data map[string]any, err error)
	}
	type saver interface {
		Save(file string, data map[string]any) (err error)
	}
	keys, leaves := []string{"a", "日 b"}, []any{1, "two\nlines", true, []any{1, "x"}}
	n := nestedCount(len(keys), len(leaves), 2)
	for _, cc := range codecCases {
		ld, ok := cc.mk().(loader)
		if !ok {
			continue
		}
		eng.Enum(c, "files/"+cc.name, n, func(i int) string { return fmt.Sprintf("%s: %v", cc.name, nested(i, keys, leaves, 2)) }, func(i int) (int, error) {
			if i%128 == 0 {
				runtime.GC() // the codecs leave closing their files to the finalizers
			}
			m := nested(i, keys, leaves, 2)
			f := filepath.Join(scratch, fmt.Sprintf("c20-%s-%d", cc.name, i))
			defer os.Remove(f)
			if _, err := ld.Load(f); err == nil {
				return 1, errf("Load of a missing file reports no error")
			}
			b, err := cc.mk().Marshal(m)
			if err != nil {
				return 1, err
			}
			if s, ok := ld.(saver); ok && i%2 == 0 {
				if err = s.Save(f, m); err != nil {
					return 1, errf("Save: %v", err)
				}
			} else if err = os.WriteFile(f, b, 0o644); err != nil {
				return 1, err
			}
			got, err := ld.Load(f)
			if err == store.ErrNotImplemented {
				return 2, nil
			}
			if err != nil || !sameData(m, got, cc.text) {
				return 2, errf("Load of a file with %q = %v, %v, want %v", b, got, err, m)
			}
			if err = os.WriteFile(f, b[:len(b)/2], 0o644); err != nil {
				return 2, err
			}
			want, werr := cc.mk().Unmarshal(b[:len(b)/2])
			got, err = ld.Load(f)
			if len(b) > 5 && (err == nil) != (werr == nil) || err == nil && !sameData(want, got, cc.text) {
				return 3, errf("Load of a file with %q = %v, %v, Unmarshal gives %v, %v", b[:len(b)/2], got, err, want, werr)
			}
			return 3, nil
		})
		if s, ok := ld.(saver); ok {
			if err := s.Save(filepath.Join(scratch, "no", "such", "dir", "x"), map[string]any{"a": 1}); err == nil {
				c.Report("files/"+cc.name, []int{0}, nil, "Save to a missing folder reports no error")
			}
		}
	}
	// the extended form (reserved) gives the same data, but for lists
	keys, leaves = []string{"a", "b"}, []any{1.0, "s", true, -2.5, "two\nlines"}
	n = nestedCount(len(keys), len(leaves), 2)
	for _, cc := range codecCases {
		ex, ok := cc.mk().(store.CodecEx)
		if !ok {
			continue
		}
		eng.Enum(c, "extended/"+cc.name, n, func(i int) string { return fmt.Sprintf("%s: %v", cc.name, nested(i, keys, leaves, 2)) }, func(i int) (int, error) {
			m := nested(i, keys, leaves, 2)
			b, err := cc.mk().Marshal(m)
			if err != nil {
				return 1, err
			}
			got, err := ex.UnmarshalEx(b)
			if err != nil {
				return 1, errf("UnmarshalEx(%q): %v", b, err)
			}
			if g := unpack(got); !sameData(m, g, cc.text) {
				return 1, errf("UnmarshalEx(%q) = %v, want %v", b, g, m)
			}
			return 1, nil
		})
	}
}

func unpack(m map[string]store.ValPkg) map[string]any {
	ret := map[string]any{}
	for k, v := range m {
		if mm, ok := v.Value.(map[string]store.ValPkg); ok {
			ret[k] = unpack(mm)
		} else {
			ret[k] = v.Value
		}
	}
	return ret
}
