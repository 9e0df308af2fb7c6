package checks

import (
	"fmt"
	"reflect"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

type linkS struct {
	V    *int
	Next *linkS
	Any  any
}

// bigValues: values with many elements, or many levels. Each holds pointers to numbers.
var bigValues = []struct {
	name string
	mk   func(p []*int) any
}{
	{"array", func(p []*int) any {
		v := reflect.New(reflect.ArrayOf(len(p), reflect.TypeFor[*int]())).Elem()
		for i := range p {
			v.Index(i).Set(reflect.ValueOf(p[i]))
		}
		return v.Interface()
	}},
	{"struct", func(p []*int) any {
		var fs []reflect.StructField
		for i := range p {
			fs = append(fs, reflect.StructField{Name: fmt.Sprint("F", i), Type: reflect.TypeFor[*int]()})
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		for i := range p {
			v.Field(i).Set(reflect.ValueOf(p[i]))
		}
		return v.Interface()
	}},
	{"[]*int", func(p []*int) any { return append([]*int{}, p...) }},
	{"[]any", func(p []*int) any {
		a := []any{}
		for _, x := range p {
			a = append(a, x)
		}
		return a
	}},
	{"map[string]any", func(p []*int) any {
		m := map[string]any{}
		for i, x := range p {
			m[fmt.Sprint(i)] = x
		}
		return m
	}},
	{"map[int]*int", func(p []*int) any {
		m := map[int]*int{}
		for i, x := range p {
			m[i] = x
		}
		return m
	}},
	{"nested slices", func(p []*int) any {
		var a any
		for _, x := range p {
			a = []any{x, a}
		}
		return a
	}},
	{"nested maps", func(p []*int) any {
		var a any
		for _, x := range p {
			a = map[string]any{"v": x, "n": a}
		}
		return a
	}},
	{"chain", func(p []*int) any {
		var a *linkS
		for _, x := range p {
			a = &linkS{V: x, Next: a}
		}
		return a
	}},
	{"chain of any", func(p []*int) any {
		var a any
		for _, x := range p {
			a = linkS{V: x, Any: a}
		}
		return a
	}},
	{"mixed", func(p []*int) any {
		var a any
		for i, x := range p {
			switch i % 4 {
			case 0:
				a = []any{a, x}
			case 1:
				a = map[int]any{1: a, 2: x}
			case 2:
				a = &linkS{V: x, Any: a}
			case 3:
				a = [2]any{x, a}
			}
		}
		return a
	}},
}

// numbers lists the pointers of a value in a fixed order.
func numbers(v reflect.Value, out *[]*int) {
	switch v.Kind() {
	case reflect.Interface:
		numbers(v.Elem(), out)
	case reflect.Pointer:
		if p, ok := v.Interface().(*int); ok {
			*out = append(*out, p)
		} else {
			numbers(v.Elem(), out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			numbers(v.Index(i), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			numbers(v.Field(i), out)
		}
	case reflect.Map:
		for i := 0; i < 2000; i++ { // the keys are numbers
			k := reflect.ValueOf(i)
			if v.Type().Key().Kind() == reflect.String {
				k = reflect.ValueOf(fmt.Sprint(i))
			}
			if e := v.MapIndex(k); e.IsValid() {
				numbers(e, out)
			} else if i > 3 {
				break
			}
		}
		for _, k := range []string{"v", "n"} {
			if v.Type().Key().Kind() == reflect.String {
				if e := v.MapIndex(reflect.ValueOf(k)); e.IsValid() {
					numbers(e, out)
				}
			}
		}
	}
}

// cloneBig: clones of big values share nothing with them, and are equal to them.
func cloneBig(c *eng.Ctx) {
	sizes := []int{31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257}
	for i := 20; i >= 0; i-- {
		sizes = append(sizes, i)
	}
	nb := len(bigValues)
	eng.Enum(c, "clone-big", nb*len(sizes), func(i int) string {
		return fmt.Sprintf("%s of %d", bigValues[i%nb].name, sizes[i/nb])
	}, func(i int) (int, error) {
		n := sizes[i/nb]
		ps := make([]*int, n)
		for j := range ps {
			x := j
			ps[j] = &x
		}
		v := bigValues[i%nb].mk(ps)
		st := store.New()
		st.Set("a.v", v)
		st.Set("a.w", 1)
		cl := st.Clone()
		var got, orig []*int
		numbers(reflect.ValueOf(cl.MustGet("a.v")), &got)
		numbers(reflect.ValueOf(v), &orig)
		if len(orig) != n || len(got) != n {
			return 1, errf("the clone has %d of the %d elements", len(got), n)
		}
		if !reflect.DeepEqual(cl.MustGet("a.v"), v) {
			return 1, errf("the clone differs")
		}
		for j := range orig {
			if got[j] == orig[j] {
				return 1, errf("the clone shares the element %d", j)
			}
			was := *got[j]
			*orig[j] = -1
			if *got[j] != was {
				return 1, errf("the element %d of the clone changes with its origin", j)
			}
		}
		return n + 1, nil
	})
}
