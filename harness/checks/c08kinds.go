package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

// Inner and the types with it, for values which embed others.
type (
	Inner    struct{ V any }
	embedS   struct{ Inner }
	embedP   struct{ *Inner }
	embedTwo struct {
		N int
		embedX
		Inner
		Z []any
	}
	embedX    struct{ q int }
	namedList []any
	namedMap  map[string]any
	keyS      struct{ A, B int }
)

type wrapper struct {
	name   string
	wrap   func(v any) any
	unwrap func(v any) any
}

var wrappers = []wrapper{
	{"[]any", func(v any) any { return []any{nil, v} }, func(v any) any { return v.([]any)[1] }},
	{"map[string]any", func(v any) any { return map[string]any{"k": v, "n": nil} }, func(v any) any { return v.(map[string]any)["k"] }},
	{"map[any]any", func(v any) any { return map[any]any{1: v, "1": 2} }, func(v any) any { return v.(map[any]any)[1] }},
	{"map[struct]any", func(v any) any { return map[keyS]any{{1, 2}: v} }, func(v any) any { return v.(map[keyS]any)[keyS{1, 2}] }},
	{"[2]any", func(v any) any { return [2]any{0, v} }, func(v any) any { return v.([2]any)[1] }},
	{"struct", func(v any) any { return Inner{v} }, func(v any) any { return v.(Inner).V }},
	{"*struct", func(v any) any { return &Inner{v} }, func(v any) any { return v.(*Inner).V }},
	{"embedded", func(v any) any { return embedS{Inner{v}} }, func(v any) any { return v.(embedS).V }},
	{"embedded pointer", func(v any) any { return embedP{&Inner{v}} }, func(v any) any { return v.(embedP).V }},
	{"embedded, more fields", func(v any) any { return &embedTwo{N: 1, Inner: Inner{1}, Z: []any{v}} }, func(v any) any { return v.(*embedTwo).Z[0] }},
	{"*any", func(v any) any { return &v }, func(v any) any { return *v.(*any) }},
	{"**any", func(v any) any { p := &v; return &p }, func(v any) any { return **v.(**any) }},
	{"named list", func(v any) any { return namedList{v} }, func(v any) any { return v.(namedList)[0] }},
	{"named map", func(v any) any { return namedMap{"": v} }, func(v any) any { return v.(namedMap)[""] }},
	{"typed list", func(v any) any {
		s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v)), 2, 5)
		s.Index(1).Set(reflect.ValueOf(v))
		return s.Interface()
	}, func(v any) any { return reflect.ValueOf(v).Index(1).Interface() }},
	{"typed map", func(v any) any {
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeFor[int8](), reflect.TypeOf(v)))
		m.SetMapIndex(reflect.ValueOf(int8(-1)), reflect.ValueOf(v))
		return m.Interface()
	}, func(v any) any { return reflect.ValueOf(v).MapIndex(reflect.ValueOf(int8(-1))).Interface() }},
	{"typed pointer", func(v any) any {
		p := reflect.New(reflect.TypeOf(v))
		p.Elem().Set(reflect.ValueOf(v))
		return p.Interface()
	}, func(v any) any { return reflect.ValueOf(v).Elem().Interface() }},
}

var cells = []struct {
	name string
	mk   func() any
	mut  func(v any)
}{
	{"map", func() any { return map[string]int{"x": 1} }, func(v any) { v.(map[string]int)["x"] = 2 }},
	{"map, a key more", func() any { return map[int]string{} }, func(v any) { v.(map[int]string)[3] = "new" }},
	{"list", func() any { return []float64{1, 2} }, func(v any) { v.([]float64)[1] = 9 }},
	{"bytes", func() any { return []byte("ab") }, func(v any) { v.([]byte)[0] = 'x' }},
	{"pointer", func() any { n := 1; return &n }, func(v any) { *v.(*int) = 2 }},
	{"*array", func() any { return &[3]string{"a"} }, func(v any) { v.(*[3]string)[2] = "c" }},
	{"*struct", func() any { return &keyS{1, 2} }, func(v any) { v.(*keyS).B = 3 }},
}

// cloneKinds: a cell which can be changed in place, below all towers of containers up to a height.
func cloneKinds(c *eng.Ctx) {
	height := pick(c, 3, 4)
	towers := [][]int{{}}
	for from, h := 0, 0; h < height; h++ {
		end := len(towers)
		for ; from < end; from++ {
			for w := range wrappers {
				towers = append(towers, append(append([]int{}, towers[from]...), w))
			}
		}
	}
	n := len(towers) * len(cells) * 2
	eng.Enum(c, "clone-kinds", n, func(i int) string {
		t := towers[i/2/len(cells)]
		var names []string
		for _, w := range t {
			names = append(names, wrappers[w].name)
		}
		return fmt.Sprintf("%s of %s, changed in the %s", strings.Join(names, " of "), cells[i/2%len(cells)].name, []string{"origin", "clone"}[i%2])
	}, func(i int) (int, error) {
		t, cell := towers[i/2/len(cells)], cells[i/2%len(cells)]
		build := func() any {
			v := cell.mk()
			for j := len(t) - 1; j >= 0; j-- {
				v = wrappers[t[j]].wrap(v)
			}
			return v
		}
		dig := func(v any) any {
			for _, w := range t {
				v = wrappers[w].unwrap(v)
			}
			return v
		}
		st := store.New()
		st.Set("a.b", build())
		st.Set("a", build())
		cl := st.Dup()
		want := build()
		for _, k := range []string{"a", "a.b"} {
			for _, s := range []store.Store{st, cl} {
				if got, ok := s.Get(k); !ok || !reflect.DeepEqual(got, want) {
					return 2, errf("%q is %#v, want %#v", k, got, want)
				}
			}
		}
		x, y := st, cl
		if i%2 == 1 {
			x, y = cl, st
		}
		for _, k := range []string{"a", "a.b"} {
			v, _ := x.Get(k)
			cell.mut(dig(v))
			if got, _ := x.Get(k); reflect.DeepEqual(got, want) {
				return 3, errf("%q is not changed", k)
			}
			if got, ok := y.Get(k); !ok || !reflect.DeepEqual(got, want) {
				return 3, errf("the change of %q in place is seen in the other store: %#v, want %#v", k, got, want)
			}
		}
		return 6, nil
	})
}
