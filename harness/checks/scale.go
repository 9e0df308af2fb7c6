package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

// scaleShape makes the keys of a tree which is big in one dimension.
type scaleShape struct {
	name  string
	sizes func(thorough bool) []int
	key   func(i int) string
}

func upTo(n int, more ...int) func(bool) []int {
	return func(thorough bool) (ret []int) {
		for i := 1; i <= n; i++ {
			ret = append(ret, i)
		}
		if thorough {
			for i := n + 1; i <= 2*n; i++ {
				ret = append(ret, i)
			}
		}
		return append(ret, more...)
	}
}

var scaleShapes = []scaleShape{
	{"nested by character", upTo(34, 63, 64, 65, 128, 129), func(i int) string { return strings.Repeat("a", i+1) }},
	{"nested by segment", upTo(34, 64, 65), func(i int) string { return strings.Repeat("a.", i) + "a" }},
	{"a branch at each level", upTo(24, 33, 40), func(i int) string { return strings.Repeat("s.", i/2) + string("xy"[i%2]) }},
	{"one deep key each", upTo(20, 32, 33), func(i int) string { return strings.Repeat("deep.", i) + "leaf-" + fmt.Sprint(i) }},
	{"siblings", upTo(34, 64, 100, 101, 127, 129, 255, 257), func(i int) string { return fmt.Sprintf("w.%c%d", rune('A'+i%50), i) }},
	{"siblings, one rune each", upTo(34, 64, 130, 257), func(i int) string { return "w." + string(rune(0x4e00+i)) }},
	{"list", upTo(34, 100, 101, 111), func(i int) string { return fmt.Sprintf("list.%d", i) }},
	{"list of maps", upTo(24, 40), func(i int) string { return fmt.Sprintf("list.%d.%c", i/2, "kv"[i%2]) }},
	{"top level", upTo(34, 100, 257), func(i int) string { return fmt.Sprintf("%c%d.x", rune('a'+i%26), i) }},
	{"long common prefix", func(bool) []int { return []int{2, 3, 5, 9, 18} }, func(i int) string {
		return strings.Repeat("p", []int{254, 255, 256, 257, 511, 512, 513, 1024, 1025}[i%9]) + []string{"x", ".z"}[i/9%2]
	}},
	{"long common section", func(bool) []int { return []int{2, 3, 4, 8, 12} }, func(i int) string {
		return strings.Repeat("p", []int{255, 256, 512, 1024}[i/3%4]) + []string{"y", "x", ".z"}[i%3]
	}},
	{"long segments", func(bool) []int { return []int{1, 2, 3, 7, 8} }, func(i int) string {
		return strings.Repeat("q", []int{15, 31, 32, 63, 127, 255, 256, 1000}[i%8]) + ".t" + fmt.Sprint(i)
	}},
}

var scaleOrders = []string{"ascending", "descending", "even then odd", "inside out"}

func (s scaleShape) keys(n int, order int) (ret []string) {
	for i := 0; i < n; i++ {
		j := i
		switch order {
		case 1:
			j = n - 1 - i
		case 2:
			if j = 2 * i; j >= n {
				j = 2*(i-(n+1)/2) + 1
			}
		case 3:
			if j = n/2 + (i+1)/2; i%2 == 1 {
				j = n/2 - (i+1)/2
			}
			if j < 0 || j >= n {
				j = n - 1 - j
				if n%2 == 0 {
					j = 0
				}
			}
		}
		ret = append(ret, s.key(j))
	}
	return
}

// scale runs f for all of the shapes, sizes and orders.
func scale(c *eng.Ctx, name string, f func(keys []string) (int, error)) {
	type job struct {
		sh   scaleShape
		n, o int
	}
	var jobs []job
	for _, sh := range scaleShapes {
		for _, n := range sh.sizes(c.Thorough) {
			for o := range scaleOrders {
				if n > 1 || o == 0 {
					jobs = append(jobs, job{sh, n, o})
				}
			}
		}
	}
	eng.Enum(c, name, len(jobs), func(i int) string {
		return fmt.Sprintf("%s: %d keys %s, %s", name, jobs[i].n, jobs[i].sh.name, scaleOrders[jobs[i].o])
	}, func(i int) (int, error) {
		keys := jobs[i].sh.keys(jobs[i].n, jobs[i].o)
		steps, err := f(keys)
		if err != nil && len(err.Error()) > 600 {
			err = errf("%s...", err.Error()[:600])
		}
		return steps, err
	})
}

// scaleWorld: sets all of the keys, observed at the end, then removes each second one, observed at the end.
func scaleWorld(c *eng.Ctx, name string, obs func(w *world, keys []string) error) {
	scale(c, "scale/"+name, func(keys []string) (int, error) {
		w := newWorld(family{}, ".")
		for i, k := range keys {
			if err := w.set(k, i); err != nil {
				return i + 1, err
			}
		}
		if err := obs(w, keys); err != nil {
			return len(keys), err
		}
		for i := len(keys) - 1; i >= 0; i -= 2 {
			if err := w.remove(keys[i]); err != nil {
				return 2 * len(keys), err
			}
		}
		if err := obs(w, keys); err != nil {
			return 2 * len(keys), err
		}
		for i, k := range keys {
			if err := w.set(k, fmt.Sprint("again", i)); err != nil {
				return 3 * len(keys), err
			}
		}
		if err := obs(w, keys); err != nil {
			return 3 * len(keys), err
		}
		for i := range keys { // even the last one leaves nothing behind
			if err := w.remove(keys[i]); err != nil {
				return 4 * len(keys), err
			}
		}
		return 4 * len(keys), obs(w, keys)
	})
}

// fewProbes limits the probes of big trees to the keys, the sections, and the neighbours of them.
func fewProbes(keys []string) (ret []string) {
	if len(keys) <= 24 {
		return probesOf(keys, ".")
	}
	for _, k := range keys {
		ret = append(ret, k, k+"x", k+".", k+".x", k[:len(k)-len(k)/3])
	}
	ret = append(ret, sections(keys, ".")...)
	seen := map[string]bool{}
	out := ret[:0]
	for _, p := range ret {
		if !seen[p] && p != "" && p != "." && validText(p) {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func validText(s string) bool { return strings.ToValidUTF8(s, "") == s }

// scaleMeta: metadata of many keys.
func scaleMeta(c *eng.Ctx) {
	scale(c, "scale/meta", func(keys []string) (int, error) {
		w := newWorld(family{}, ".")
		for i, k := range keys {
			if err := w.set(k, i); err != nil {
				return i, err
			}
			if i%3 != 2 {
				if err := w.setComment(w.st, "", k, "d-"+k, "c"+fmt.Sprint(i)); err != nil {
					return i, err
				}
			}
			if i%2 == 0 {
				if err := w.setTag(w.st, "", k, i); err != nil {
					return i, err
				}
			}
		}
		obs := func() error {
			if err := w.obsMeta(w.st, "", fewProbes(keys)); err != nil {
				return err
			}
			return w.obsMetaWalk()
		}
		if err := obs(); err != nil {
			return len(keys), err
		}
		for i := len(keys) - 1; i >= 0; i -= 2 {
			if err := w.remove(keys[i]); err != nil {
				return 2 * len(keys), err
			}
		}
		return 3 * len(keys), obs()
	})
}

// scaleHandles: nodes handed out early stay bound to their keys.
func scaleHandles(c *eng.Ctx) {
	scale(c, "scale/handles", func(keys []string) (int, error) {
		w := newWorld(family{}, ".")
		var ns []radix.Node[any]
		for i, k := range keys {
			w.r.set(k, i)
			n, _ := w.st.Set(k, i)
			ns = append(ns, n)
		}
		for i, n := range ns {
			if n == nil || n.Key() != keys[i] || !eq(n.Data(), i) {
				return len(keys), errf("the node of %q has key %q and data %v, want %d", keys[i], n.Key(), n.Data(), i)
			}
			n.SetData(-i)
			w.r.set(keys[i], -i)
		}
		return 2 * len(keys), w.obsGet(keys)
	})
}

// scaleMerge: merging, loading, cloning, saving of big trees.
func scaleMerge(c *eng.Ctx, what string) {
	scale(c, "scale/"+what, func(keys []string) (int, error) {
		r := newRef(".")
		m := map[string]any{}
		for i, k := range keys {
			if r.conflict(append(r.keys(), k)) {
				continue
			}
			r.set(k, fmt.Sprint(i))
			m[k] = fmt.Sprint(i)
		}
		doc := nest(m, ".")
		st := store.New()
		var s store.Store = st
		switch what {
		case "merge":
			for _, e := range r.m {
				e.mod = true
			}
			if err := st.Merge("", doc); err != nil {
				return 1, err
			}
		case "load":
			if _, err := st.Load(bg, store.WithProvider(&bytesProv{b: mustJSON(doc), provBase: provBase{codec: &jsonCodec{}}})); err != nil {
				return 1, err
			}
		case "clone":
			for k, v := range m {
				st.Set(k, v)
				r.m[k].mod = true
			}
			s = st.Clone()
			for k := range m {
				st.Set(k, "changed")
			}
			st.Remove(keys[0])
		case "save":
			p := &bytesProv{b: []byte("{}"), provBase: provBase{codec: &jsonCodec{}}}
			wr, err := st.Load(bg, store.WithProvider(p))
			if err != nil {
				return 1, err
			}
			for k, v := range m {
				st.Set(k, v)
				r.m[k].mod = true
			}
			if err = wr.Save(bg); err != nil {
				return 1, err
			}
			if len(p.wrote) != 1 || !sameJSON(p.wrote[0], doc) {
				return 1, errf("Save wrote %q, want %s", p.wrote, mustJSON(doc))
			}
		case "view":
			v := st.WithPrefix("p.q", "r")
			for k, val := range m {
				v.Set(k, val)
			}
			for k, val := range m {
				if got, found := v.Get(k); !found || !eq(got, val) {
					return 1, errf("view.Get(%q) = %v, %v", k, got, found)
				}
				if got, found := st.Get("p.q.r." + k); !found || !eq(got, val) {
					return 1, errf("Get(%q) = %v, %v", "p.q.r."+k, got, found)
				}
			}
			got, err := v.GetM("")
			if err != nil || !sameMap(flatten(got, "", ".", nil), m) {
				return 1, errf("view.GetM = %v, %v, want %v", got, err, m)
			}
			for k := range m {
				if !v.Remove(k) || st.Has("p.q.r."+k) {
					return 1, errf("view.Remove(%q) failed", k)
				}
			}
			return 1, nil
		}
		return len(m), r.same(s, s)
	})
}

// fewSections: the sections, and some of the keys.
func fewSections(keys []string) []string {
	s := sections(keys, ".")
	if len(s) > 20 {
		s = append(append([]string{}, s[:10]...), s[len(s)-10:]...)
	}
	if len(keys) > 6 {
		keys = []string{keys[0], keys[1], keys[len(keys)/2], keys[len(keys)-1]}
	}
	return append(s, keys...)
}
