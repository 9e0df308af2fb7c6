package checks

import (
	"fmt"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

// manyValues: one of each kind, with the empty ones of each kind.
var manyValues = []any{
	nil, 0, false, "", "x", 1.5, 7 * time.Second, []any{}, []any{1, nil, "b"}, []string{}, []string{"p", "q"},
	[]map[string]any{{"k": 1}, {}}, struct{ A int }{3}, (*int)(nil), error(nil), [2]int{1, 2}, []byte("raw"),
}

var valueTriples = [][]string{
	{"a.b", "a.c", "x"},
	{"a", "a.b", "ab"},
	{"a", "ab", "abc"},
	{"app.x.y", "app.xz", "app.x.z"},
	{"日.本", "日.木", "é"},
	{"s.0", "s.1", "s.10"},
}

// eachValues: all of the values at each of three keys.
func eachValues(c *eng.Ctx, name string, n0 int, f func(keys []string, vals []any) (int, error)) {
	vals := manyValues
	if n0 > 0 && !c.Thorough {
		vals = vals[:n0]
	}
	n := len(vals)
	eng.Enum(c, name, n*n*n*len(valueTriples), func(i int) string {
		return fmt.Sprintf("%s: %q = %s, %s, %s", name, valueTriples[i/n/n/n], show(vals[i%n]), show(vals[i/n%n]), show(vals[i/n/n%n]))
	}, func(i int) (int, error) {
		return f(valueTriples[i/n/n/n], []any{vals[i%n], vals[i/n%n], vals[i/n/n%n]})
	})
}

// valuesWorld: sets the three values, observed after each step, moves them round, and removes them.
func valuesWorld(c *eng.Ctx, name string, n0 int, obs func(w *world, keys []string) error) {
	eachValues(c, "values/"+name, n0, func(keys []string, vals []any) (steps int, err error) {
		w := newWorld(family{}, ".")
		do := func(err error) error {
			steps++
			if err != nil {
				return err
			}
			return obs(w, keys)
		}
		for i, k := range keys {
			if err = do(w.set(k, vals[i])); err != nil {
				return
			}
		}
		for i, k := range keys {
			if err = w.set(k, vals[(i+1)%3]); err != nil {
				return
			}
		}
		if err = do(nil); err != nil {
			return
		}
		for _, i := range []int{1, 0, 2} {
			if w.r.exists(keys[i]) {
				if err = do(w.remove(keys[i])); err != nil {
					return
				}
			}
		}
		return
	})
}

// cloneValues: clones and views show the values of all kinds.
func cloneValues(c *eng.Ctx) {
	eachValues(c, "values/clone", 12, func(keys []string, vals []any) (int, error) {
		r, st := newRef("."), store.New()
		for i, k := range keys {
			st.Set(k, vals[i])
			r.set(k, vals[i])
			r.m[k].mod = true
			st.SetTag(k, vals[(i+1)%3])
			r.m[k].tag = vals[(i+1)%3]
		}
		cl := st.Clone()
		if err := r.same(cl, cl); err != nil {
			return 1, errf("clone: %v", err)
		}
		r2 := r.deep()
		for i, k := range keys {
			cl.Set(k, vals[(i+2)%3])
			r2.set(k, vals[(i+2)%3])
		}
		if err := r2.same(cl, cl); err != nil {
			return 2, errf("the changed clone: %v", err)
		}
		return 2, r.same(st, st)
	})
}

// eventValues: the notifications carry the values of all kinds.
func eventValues(c *eng.Ctx) {
	eachValues(c, "values/events", 12, func(keys []string, vals []any) (steps int, err error) {
		w := newEvWorld()
		for j := 0; j < 3; j++ {
			for i, k := range keys {
				steps++
				want := w.doSet(k, vals[(i+j)%3], false)
				w.st.Set(k, vals[(i+j)%3])
				if err = w.check(true, want); err != nil {
					return
				}
			}
		}
		for _, i := range []int{1, 2, 0} {
			if e, ok := w.r.m[keys[i]]; ok {
				steps++
				want := evDelete(keys[i], e.val, false)
				w.r.remove(keys[i])
				w.st.Remove(keys[i])
				if err = w.check(true, want); err != nil {
					return
				}
			}
		}
		return
	})
}
