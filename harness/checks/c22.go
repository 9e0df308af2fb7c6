package checks

import (
	"context"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C22", runC22, "the delimiter is neither ':' nor '*' nor a blank",
		"views keep the delimiter they were made with, a change at runtime is observed by the store it was made on")
}

// swapD exchanges the delimiter and the dot in a text.
func swapD(s, d string) string {
	if d == "." {
		return s
	}
	s = strings.ReplaceAll(s, d, "\x00")
	s = strings.ReplaceAll(s, ".", d)
	return strings.ReplaceAll(s, "\x00", ".")
}

func swapAll(in []string, d string) (out []string) {
	for _, s := range in {
		out = append(out, swapD(s, d))
	}
	return
}

// picture is everything a user sees of a store, as sorted text.
func picture(st store.Store, d string, probes []string) string {
	var lines []string
	add := func(format string, args ...any) { lines = append(lines, fmt.Sprintf(format, args...)) }
	tr := func(s string) string { return swapD(s, d) }
	st.Walk("", func(path, fragment string, n radix.Node[any]) {
		add("W %q %q %q %v %v %v %v %v %q %q %v", tr(path), tr(fragment), tr(n.Key()), n.IsLeaf(), n.IsBranch(), n.Modified(), n.HasData(), n.Data(), n.Description(), n.Comment(), n.Tag())
	})
	for _, l := range strings.Split(ansi.ReplaceAllString(st.Dump(), ""), "\n") {
		l, rest, _ := strings.Cut(strings.Join(strings.Fields(l), " "), " //")
		k, v, _ := strings.Cut(l, " => ")
		add("D %s => %s // %s", tr(k), v, rest)
	}
	m := func(what, p string, m map[string]any, err error) {
		var es []string
		for k, v := range flatten(m, "", d, nil) {
			es = append(es, fmt.Sprintf("%s=%v", tr(k), v))
		}
		sort.Strings(es)
		add("%s %q %q %v", what, tr(p), es, err != nil)
	}
	look := func(what string, st store.Store, p string) {
		v, found := st.Get(p)
		n, br, pm, lf := st.Locate(p, nil)
		add("%s %q %v %v %v %v %v %v %v", what, tr(p), v, found, st.Has(p), st.MustString(p, "dflt"), pm, lf, br)
		if lf && n != nil {
			add("L %q %q %q", what, tr(p), tr(n.Key()))
		}
		m1, err := st.GetR(p)
		m("R "+what, p, m1, err)
		m1, err = st.GetM(p)
		m("M "+what, p, m1, err)
		m1, err = st.GetM(p, store.WithKeepPrefix[any](true), store.WithoutFlattenKeys[any](true))
		m("K "+what, p, m1, err)
	}
	for _, p := range probes {
		look("G", st, p)
	}
	look("G", st, "")
	for _, pre := range []string{"a", "app", "app" + d + "dump", "日", "a" + d + "b"} {
		parts := strings.Split(pre, d)
		v := st.WithPrefix(parts...)
		// views of views
		nv := st.WithPrefix(parts[0])
		for _, q := range parts[1:] {
			nv = nv.WithPrefix(q)
		}
		add("N %q %q %q %q", tr(nv.Prefix()), tr(nv.WithPrefix("b", "c").Prefix()), tr(nv.WithPrefix("b"+d+"c").WithPrefix("x").Prefix()), tr(nv.WithPrefixReplaced("b", "c").WithPrefix("y").Prefix()))
		look("N "+tr(pre), nv, "b")
		look("N "+tr(pre), nv.WithPrefix("b"), "c")
		add("P %q", tr(v.Prefix()))
		sv := st.WithPrefixReplaced("zz")
		sv.SetPrefix(parts...)
		look("S "+tr(pre), sv, "b")
		rv := st.WithPrefixReplaced(parts...)
		add("S %q %q", tr(sv.Prefix()), tr(rv.Prefix()))
		for _, p := range []string{"b", "b" + d + "c", "logging", "to", "本", "c"} {
			look("V "+tr(pre), v, p)
			// Join
			if j, ok := v.(interface{ Join(a ...string) string }); ok {
				add("J %q", tr(j.Join(pre, p)))
			}
		}
	}
	if b, ok := st.(interface{ BR() store.Store }); ok {
		for _, p := range probes {
			v, found := b.BR().Get(p)
			add("B %q %v %v", tr(p), v, found)
		}
	}
	sort.Strings(lines)
	return strings.Join(lines, "\n")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			return fmt.Sprintf("the dotted store has %s, the other one %s", x[i:min(i+3, len(x))], y[min(i, len(y)):min(i+3, len(y))])
		}
	}
	return fmt.Sprintf("the other store has also %s", y[len(x):])
}

type isoWorld struct {
	a, b store.Store
	evs  [2][]string
	step int
}

func isoCheck(c *eng.Ctx, f family, d string, depth int) {
	probes := probesOf(append(slices.Clone(f.keys), f.pre...), ".")
	dprobes := swapAll(probes, d)
	mk := func(w *isoWorld, i int, d string) store.Store {
		rec := func(kind string) func(path string, value, old any, mergingMapOrLoading bool) {
			return func(path string, value, old any, m bool) {
				w.evs[i] = append(w.evs[i], fmt.Sprintf("%s %s %v %v %v", kind, swapD(path, d), value, old, m))
			}
		}
		st := store.New(store.WithDelimiter([]rune(d)[0]), store.WithFlattenSlice(true),
			store.WithOnChangeHandlers(rec("change")), store.WithOnNewHandlers(func(path string, v any, m bool) { rec("new")(path, v, nil, m) }),
			store.WithOnDeleteHandlers(func(path string, v any, m bool) { rec("delete")(path, v, nil, m) }))
		for i, k := range f.pre {
			st.Set(swapD(k, d), i)
		}
		return st
	}
	s := &eng.Sys[isoWorld]{Name: "iso/" + f.name + "@" + d,
		New: func() *isoWorld {
			w := &isoWorld{}
			w.a, w.b = mk(w, 0, "."), mk(w, 1, d)
			return w
		},
		Key: func(w *isoWorld) string { return structure(w.a) + "##" + structure(w.b) },
		Obs: func(w *isoWorld) error {
			if a, b := strings.Join(w.evs[0], "\n"), strings.Join(w.evs[1], "\n"); a != b {
				return errf("notifications: %s", firstDiff(a, b))
			}
			w.evs = [2][]string{}
			if w.a.Delimiter() != '.' || w.b.Delimiter() != []rune(d)[0] {
				return errf("the delimiters are %q and %q", w.a.Delimiter(), w.b.Delimiter())
			}
			if a, b := picture(w.a, ".", probes), picture(w.b, d, dprobes); a != b {
				return errf("%s", firstDiff(a, b))
			}
			return nil
		},
	}
	both := func(name string, f func(st store.Store, tr func(string) string) string) {
		s.Ops = append(s.Ops, eng.Op[isoWorld]{Name: name, Do: func(w *isoWorld) error {
			x := f(w.a, func(s string) string { return s })
			y := swapD(f(w.b, func(s string) string { return swapD(s, d) }), d)
			if x != y {
				return errf("%s: the dotted store says %s, the other one %s", name, x, y)
			}
			return nil
		}})
	}
	for i, k := range f.keys {
		both(fmt.Sprintf("Set(%q)", k), func(st store.Store, tr func(string) string) string {
			n, old := st.Set(tr(k), i)
			return fmt.Sprint(n.Key(), n.Data(), old)
		})
		both(fmt.Sprintf("Remove(%q)", k), func(st store.Store, tr func(string) string) string { return fmt.Sprint(st.Remove(tr(k))) })
	}
	k0 := f.keys[len(f.keys)/2]
	sec := f.keys[len(f.keys)-1]
	both("SetComment", func(st store.Store, tr func(string) string) string {
		return fmt.Sprint(st.SetComment(tr(k0), "desc", "comm"), st.SetTag(tr(k0), 7))
	})
	both("Merge", func(st store.Store, tr func(string) string) string {
		return fmt.Sprint(st.Merge(tr(sec), map[string]any{"m": map[string]any{"l": []any{2, map[string]any{"y": 3}}}}),
			st.Merge("", map[string]any{tr(sec + ".p.q"): 4})) // one entry each, a map has no order
	})
	both("Load", func(st store.Store, tr func(string) string) string {
		_, err := st.Load(context.Background(), store.WithProvider(&readProv{m: map[string]store.ValPkg{tr("b.c"): {Value: map[string]any{"z": []any{5, 6}}, Desc: "d"}}}), store.WithStorePrefix(tr("a.b")))
		return fmt.Sprint(err)
	})
	both("view.Set", func(st store.Store, tr func(string) string) string {
		n, old := st.WithPrefix("a", "b").Set(tr("c.v"), "viewed")
		return fmt.Sprint(n.Key(), old)
	})
	both("view.Remove", func(st store.Store, tr func(string) string) string {
		return fmt.Sprint(st.WithPrefix("a").Remove("b"))
	})
	eng.DFS(c, s, depth)
	if c.Thorough {
		s2 := *s
		s2.Name = "iso-bfs/" + f.name + "@" + d
		s2.Ops = s2.Ops[:2*len(f.keys)]
		eng.BFS(c, &s2, 0, 100000)
	}
}

// mixFams have keys with several delimiters in them.
var mixFams = []family{
	{name: "mix1", keys: []string{"a.b/c", "a/b.c", "a.b", "a/b", "a", "a.b/d"}},
	{name: "mix2", keys: []string{"x.y.z", "x.y/z", "x/y.z", "x/y/z", "x.y", "x/y"}},
	{name: "mix3", keys: []string{"p→q.r", "p→q→r", "p.q→r", "p.q.r", "p→qq", "p"}},
	{name: "mix4", keys: []string{"app.log/x", "app.log/y", "app.logx", "app/log.x", "app/log", "app.l"}},
	{name: "mix5", keys: []string{"日.本/木", "日/本.木", "日.本", "日→本", "日.本→木", "日"}},
}

func changeCheck(c *eng.Ctx, f family, ds []string, brute bool) {
	var probes []string
	for _, d := range ds {
		for _, p := range probesOf(f.keys, d) {
			if !slices.Contains(probes, p) {
				probes = append(probes, p)
			}
		}
	}
	var paths []string
	for _, d := range ds {
		for _, p := range sections(f.keys, d) {
			if !slices.Contains(paths, p) {
				paths = append(paths, p)
			}
		}
	}
	s := &eng.Sys[world]{Name: "change/" + f.name,
		New: func() *world { return newWorld(f, ".") },
		Key: func(w *world) string { return w.key() + w.r.d },
		Obs: func(w *world) error {
			if w.st.Delimiter() != []rune(w.r.d)[0] {
				return errf("Delimiter() = %q, want %q", w.st.Delimiter(), w.r.d)
			}
			if err := w.obsGet(probes); err != nil {
				return errf("by the delimiter %q: %v", w.r.d, err)
			}
			if err := w.obsHas(probes); err != nil {
				return errf("by the delimiter %q: %v", w.r.d, err)
			}
			if err := w.obsWalk(); err != nil {
				return err
			}
			if err := w.obsEnum(paths); err != nil {
				return errf("by the delimiter %q: %v", w.r.d, err)
			}
			if err := w.obsExtract(probes); err != nil {
				return errf("by the delimiter %q: %v", w.r.d, err)
			}
			return nil
		},
		Ops: stdOps(f),
	}
	for _, d := range ds {
		s.Ops = append(s.Ops, eng.Op[world]{Name: fmt.Sprintf("SetDelimiter(%q)", d), Do: func(w *world) error {
			w.st.SetDelimiter([]rune(d)[0])
			w.r.d = d
			return nil
		}})
	}
	if brute {
		eng.DFS(c, s, pick(c, 3, 4))
		return
	}
	s.Name = "change-bfs/" + f.name
	eng.BFS(c, s, 0, pick(c, 3000, 150000))
}

func runC22(c *eng.Ctx) {
	for _, f := range mixFams {
		ds := []string{".", "/", "→"}
		changeCheck(c, f, ds, true)
		changeCheck(c, f, ds, false)
	}
	// the low bytes of š, Ţ and Ů are a, b and n, those of the UTF-8 form are those of other letters
	for i, d := range []string{"/", "→", "_", "|", "ß", "😀", "-", "š", "Ţ", "Ů", "ţ", "é"} {
		for j, f := range families {
			if f.name == "wide" || f.name == "tall" || !c.Thorough && i >= 2 && j >= 3 {
				continue
			}
			depth := pick(c, 2, 3)
			if i < 2 && j < 2 {
				depth = 3
			}
			if d == "é" && f.name == "uni" {
				continue // its keys begin with the delimiter
			}
			isoCheck(c, f, d, depth)
		}
	}
}
