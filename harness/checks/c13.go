package checks

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C13", runC13, "conversions with a loss (overflow, fractions, malformed texts) are not claimed beyond not panicking")
}

type getter struct {
	name string
	must bool
	ret  reflect.Type
	def  reflect.Type // the type of one default value
	idx  int
}

var getterRe = regexp.MustCompile(`^(Get|Must)(String|Bool|U?[Ii]nt(8|16|32|64)?|Float(32|64)|Complex(64|128)|Duration|Time)(Slice|Map)?$`)

func getters() (ret []getter) {
	t := reflect.TypeFor[store.Store]()
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		if !getterRe.MatchString(m.Name) {
			continue
		}
		ret = append(ret, getter{name: m.Name, must: strings.HasPrefix(m.Name, "Must"), ret: m.Type.Out(0), def: m.Type.In(1).Elem(), idx: i})
	}
	sort.Slice(ret, func(i, j int) bool { return ret[i].name < ret[j].name })
	return
}

type pair struct{ A, B int }

// the stored values: all kinds, with their extremes
func catalogue() []any {
	var nilp *int
	n := 7
	vals := []any{
		nil, true, false,
		0, 1, -1, 42, math.MaxInt, math.MinInt,
		int8(0), int8(-1), int8(math.MaxInt8), int8(math.MinInt8),
		int16(0), int16(300), int16(math.MaxInt16), int16(math.MinInt16),
		int32(0), int32(70000), int32(math.MaxInt32), int32(math.MinInt32),
		int64(0), int64(5000000000), int64(math.MaxInt64), int64(math.MinInt64),
		uint(0), uint(1), uint(math.MaxUint), uint8(0), uint8(200), uint8(math.MaxUint8), uint16(0), uint16(300), uint16(math.MaxUint16),
		uint32(0), uint32(70000), uint32(math.MaxUint32), uint64(0), uint64(5000000000), uint64(math.MaxUint64), uint64(1 << 63),
		float32(0), float32(1.5), float32(-2), float32(16777216), float32(math.MaxFloat32), 0.0, 1.5, -2.0, 3e9, 0.1, math.MaxFloat64, math.Inf(1), 1e100,
		complex64(complex(1, 0)), complex64(complex(1.5, -2)), complex(1.0, 0), complex(0.1, 2),
		"", "text", "true", "false", "0", "1", "-1", "42", "127", "128", "255", "32768", "65535", "2147483648", "9223372036854775807", "18446744073709551615",
		"1.5", "-0.25", "3s", "1h2m3s", "-5ms", "2024-05-06T07:08:09Z", "a,b,c", "[1,2]", "日本",
		time.Duration(0), time.Second, -time.Millisecond, 90 * time.Minute,
		time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC), time.Time{},
		[]string{}, []string{"a"}, []string{"1", "2", "-3"}, []string{"true", "false"}, []string{"1.5", "2"}, []string{"1s", "2m"},
		[]bool{true, false}, []int{}, []int{1, -2, 300, 70000, 5000000000}, []int8{1, -128}, []int16{1, -300}, []int32{1, -70000}, []int64{1, -5000000000},
		[]uint{1, 300, 5000000000}, []uint8{1, 255}, []uint16{1, 65535}, []uint32{1, math.MaxUint32}, []uint64{1, math.MaxUint64},
		[]float32{1.5, -2}, []float64{1.5, -2, 3}, []complex64{complex(1, 2)}, []complex128{complex(1, 2), 3},
		[]time.Duration{time.Second, 5}, []time.Time{time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)},
		[]any{}, []any{"a", "b"}, []any{1, 2}, []any{1, "2", 3.0, true}, []any{nil, 1},
		map[string]string{}, map[string]string{"a": "x", "b": ""}, map[string]string{"a": "1", "b": "-2"}, map[string]bool{"a": true, "b": false},
		map[string]int{"a": 1, "b": -70000}, map[string]int8{"a": -128}, map[string]int16{"a": 300}, map[string]int32{"a": 70000}, map[string]int64{"a": 5000000000},
		map[string]uint{"a": 1}, map[string]uint8{"a": 255}, map[string]uint16{"a": 65535}, map[string]uint32{"a": math.MaxUint32}, map[string]uint64{"a": math.MaxUint64},
		map[string]float32{"a": 1.5}, map[string]float64{"a": 1.5, "b": -2}, map[string]complex64{"a": complex(1, 2)}, map[string]complex128{"a": complex(1, 2)},
		map[string]time.Duration{"a": time.Second}, map[string]time.Time{"a": time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)},
		map[string]any{}, map[string]any{"a": 1, "b": "2"}, map[string]any{"a": "x"}, map[string]any{"a": map[string]any{"b": 1}}, map[int]int{1: 2}, map[any]any{"a": 1},
		pair{1, 2}, &pair{1, 2}, nilp, &n, errFault, []byte("bytes"), []rune("runes"), [][]int{{1}, {2}}, make(chan int), func() {}, store.ValPkg{Value: 1},
	}
	// exact times, and long lists and maps
	zone := time.FixedZone("Z", 5400)
	vals = append(vals, time.Date(1999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2024, 5, 6, 7, 8, 9, 123456789, zone), time.Duration(1), time.Duration(math.MaxInt64), time.Duration(math.MinInt64),
		[]time.Time{time.Date(2024, 5, 6, 7, 8, 9, 123456789, zone), {}, time.Date(1970, 1, 1, 0, 0, 0, 1, time.UTC)}, []time.Duration{1, -1, math.MaxInt64, time.Hour + 1},
		map[string]time.Time{"a": time.Date(2024, 5, 6, 7, 8, 9, 123456789, zone), "b.c": {}}, map[string]time.Duration{"a": 1, "": math.MaxInt64})
	for _, n := range []int{9, 17, 33, 65, 129, 257, 1025} {
		is, ss, fs, bs, as := []int{}, []string{}, []float64{}, []bool{}, []any{}
		mi, ms := map[string]int{}, map[string]string{}
		for i := 0; i < n; i++ {
			is, ss, fs, bs, as = append(is, i%120), append(ss, fmt.Sprint(i%120)), append(fs, float64(i%120)), append(bs, i%3 == 0), append(as, i%120)
			mi[fmt.Sprint("k", i)], ms[fmt.Sprint("k", i)] = i%120, fmt.Sprint(i%120)
		}
		vals = append(vals, is, ss, fs, bs, as, mi, ms, strings.Repeat("x", n), strings.Repeat("日", n))
	}
	return vals
}

var (
	durT  = reflect.TypeFor[time.Duration]()
	timeT = reflect.TypeFor[time.Time]()
)

func isInt(k reflect.Kind) bool   { return k >= reflect.Int && k <= reflect.Int64 }
func isUint(k reflect.Kind) bool  { return k >= reflect.Uint && k <= reflect.Uint64 }
func isFloat(k reflect.Kind) bool { return k == reflect.Float32 || k == reflect.Float64 }

// convert v to the type t without a loss; claimed is false if the outcome is not specified.
func convert(v reflect.Value, t reflect.Type) (ret reflect.Value, claimed bool) {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return
	}
	if v.Type() == t {
		return v, true
	}
	k, vk := t.Kind(), v.Kind()
	ret = reflect.New(t).Elem()
	special := func(x reflect.Type) bool { return x == durT || x == timeT }
	switch {
	case t == durT:
		switch {
		case isInt(vk):
			ret.SetInt(v.Int())
			return ret, true
		case vk == reflect.String:
			d, err := time.ParseDuration(v.String())
			ret.SetInt(int64(d))
			return ret, err == nil
		}
		return
	case t == timeT:
		if vk == reflect.String {
			x, err := time.Parse(time.RFC3339, v.String())
			return reflect.ValueOf(x), err == nil
		}
		return
	case special(v.Type()) && k != reflect.String && !(isInt(k) && v.Type() == durT):
		return
	case isInt(k):
		switch {
		case isInt(vk):
			ret.SetInt(v.Int())
			return ret, ret.Int() == v.Int()
		case isUint(vk):
			if v.Uint() > math.MaxInt64 {
				return
			}
			ret.SetInt(int64(v.Uint()))
			return ret, uint64(ret.Int()) == v.Uint()
		case isFloat(vk):
			f := v.Float()
			if f != math.Trunc(f) || math.Abs(f) > 1<<53 {
				return
			}
			ret.SetInt(int64(f))
			return ret, float64(ret.Int()) == f
		case vk == reflect.String:
			i, err := strconv.ParseInt(v.String(), 10, t.Bits())
			ret.SetInt(i)
			return ret, err == nil
		}
	case isUint(k):
		switch {
		case isInt(vk):
			if v.Int() < 0 {
				return
			}
			ret.SetUint(uint64(v.Int()))
			return ret, int64(ret.Uint()) == v.Int()
		case isUint(vk):
			ret.SetUint(v.Uint())
			return ret, ret.Uint() == v.Uint()
		case isFloat(vk):
			f := v.Float()
			if f != math.Trunc(f) || f < 0 || f > 1<<53 {
				return
			}
			ret.SetUint(uint64(f))
			return ret, float64(ret.Uint()) == f
		case vk == reflect.String:
			i, err := strconv.ParseUint(v.String(), 10, t.Bits())
			ret.SetUint(i)
			return ret, err == nil && i <= math.MaxInt64
		}
	case isFloat(k):
		switch {
		case isInt(vk):
			ret.SetFloat(float64(v.Int()))
			return ret, ret.Float() > -(1<<53) && ret.Float() < 1<<53 && int64(ret.Float()) == v.Int()
		case isUint(vk):
			ret.SetFloat(float64(v.Uint()))
			return ret, ret.Float() < 1<<53 && uint64(ret.Float()) == v.Uint()
		case isFloat(vk):
			ret.SetFloat(v.Float())
			return ret, ret.Float() == v.Float()
		case vk == reflect.String:
			f, err := strconv.ParseFloat(v.String(), t.Bits())
			ret.SetFloat(f)
			return ret, err == nil
		}
	case k == reflect.Complex64 || k == reflect.Complex128:
		switch {
		case vk == reflect.Complex64 || vk == reflect.Complex128:
			ret.SetComplex(v.Complex())
			return ret, ret.Complex() == v.Complex()
		case isInt(vk) || isUint(vk) || isFloat(vk):
			f, ok := convert(v, reflect.TypeFor[float64]())
			if !ok {
				return ret, false
			}
			ret.SetComplex(complex(f.Float(), 0))
			return ret, real(ret.Complex()) == f.Float()
		}
	case k == reflect.Bool:
		switch {
		case isInt(vk):
			ret.SetBool(v.Int() != 0)
			return ret, true
		case isUint(vk):
			ret.SetBool(v.Uint() != 0)
			return ret, true
		case vk == reflect.String:
			b, err := strconv.ParseBool(v.String())
			ret.SetBool(b)
			return ret, err == nil
		}
	case k == reflect.String:
		switch {
		case v.Type() == durT:
			ret.SetString(v.Interface().(time.Duration).String())
			return ret, true
		case vk == reflect.Bool:
			ret.SetString(strconv.FormatBool(v.Bool()))
			return ret, true
		case isInt(vk):
			ret.SetString(strconv.FormatInt(v.Int(), 10))
			return ret, true
		case isUint(vk):
			ret.SetString(strconv.FormatUint(v.Uint(), 10))
			return ret, true
		case isFloat(vk):
			// any text which reads as the same number
			return v, true
		}
	case k == reflect.Slice:
		if vk == reflect.Slice {
			if et, vt := t.Elem(), v.Type().Elem(); vt == durT && et != durT && isInt(et.Kind()) || vt.Kind() == reflect.Interface && (et.Kind() == reflect.Complex64 || et.Kind() == reflect.Complex128) {
				return // unsupported by the converter
			}
			ret = reflect.MakeSlice(t, 0, v.Len())
			for i := 0; i < v.Len(); i++ {
				e, ok := convert(v.Index(i), t.Elem())
				if !ok || e.Type() != t.Elem() {
					return ret, false
				}
				ret = reflect.Append(ret, e)
			}
			return ret, true
		}
	case k == reflect.Map:
		if vk == reflect.Map && v.Type().Key().Kind() == reflect.String {
			if et, vt := t.Elem(), v.Type().Elem(); vt.Kind() != reflect.Interface && vt != et && (vt == durT || et == durT && vt.Kind() != reflect.String || et.Kind() == reflect.String || et.Kind() == reflect.Bool) {
				return // unsupported by the converter
			}
			ret = reflect.MakeMap(t)
			for it := v.MapRange(); it.Next(); {
				e, ok := convert(it.Value(), t.Elem())
				if !ok || e.Type() != t.Elem() {
					return ret, false
				}
				ret.SetMapIndex(it.Key(), e)
			}
			return ret, true
		}
	}
	return ret, false
}

func sameValue(got, want reflect.Value) bool {
	if got.Type() != want.Type() { // a text of a float
		if got.Kind() == reflect.String && isFloat(want.Kind()) {
			f, err := strconv.ParseFloat(got.String(), want.Type().Bits())
			return err == nil && f == want.Float()
		}
		return false
	}
	if got.Kind() == reflect.Slice || got.Kind() == reflect.Map {
		if got.Len() == 0 && want.Len() == 0 {
			return true
		}
	}
	if got.Type() == timeT {
		return got.Interface().(time.Time).Equal(want.Interface().(time.Time))
	}
	return reflect.DeepEqual(got.Interface(), want.Interface())
}

// sameResult: of two calls of the same getter.
func sameResult(a, b reflect.Value) bool {
	return sameValue(a, b) || fmt.Sprintf("%#v", a.Interface()) == fmt.Sprintf("%#v", b.Interface())
}

// defaults makes two different default values.
func defaults(t reflect.Type) []reflect.Value {
	mk := func(i int64) reflect.Value {
		v := reflect.New(t).Elem()
		switch k := t.Kind(); {
		case t == timeT:
			return reflect.ValueOf(time.Unix(i, 0).UTC())
		case isInt(k):
			v.SetInt(i)
		case isUint(k):
			v.SetUint(uint64(i))
		case isFloat(k):
			v.SetFloat(float64(i) + 0.5)
		case k == reflect.Complex64 || k == reflect.Complex128:
			v.SetComplex(complex(float64(i), 1))
		case k == reflect.Bool:
			v.SetBool(true)
		case k == reflect.String:
			v.SetString(fmt.Sprint("default", i))
		case k == reflect.Map:
			v.Set(reflect.MakeMap(t))
			e := reflect.New(t.Elem()).Elem()
			v.SetMapIndex(reflect.ValueOf(fmt.Sprint("d", i)), e)
		default:
			panic(t.String())
		}
		return v
	}
	return []reflect.Value{mk(11), mk(12)}
}

func (g *getter) call(st store.Store, path string, def []reflect.Value) (ret reflect.Value, err error) {
	out := reflect.ValueOf(st).MethodByName(g.name).Call(append([]reflect.Value{reflect.ValueOf(path)}, def...))
	if !g.must {
		if e := out[1].Interface(); e != nil {
			err = e.(error)
		}
	}
	return out[0], err
}

// The findings in the converter library, which are listed in the known-findings file.
func knownConv(c *eng.Ctx, g getter, v any) bool {
	switch x := v.(type) {
	case []byte: // never returns
		return g.ret.Kind() != reflect.Slice && c.Known["C13-bytes"] != ""
	case string: // panics
		return x == "" && g.ret == reflect.TypeFor[[]bool]() && c.Known["C13-boolslice"] != ""
	case []any: // panics
		return len(x) == 0 && (g.ret == reflect.TypeFor[[]complex64]() || g.ret == reflect.TypeFor[[]complex128]()) && c.Known["C13-complexslice"] != ""
	}
	return false
}

// reportKnown tells which of the known findings are still there.
func reportKnown(c *eng.Ctx) {
	if c.Replay != nil {
		return
	}
	tell := func(id string, f func(st store.Store)) {
		if c.Known[id] == "" {
			return
		}
		bad := make(chan bool, 1)
		go func() {
			bad <- try(func() { f(store.New()) }) != nil
		}()
		select {
		case b := <-bad:
			if !b {
				return
			}
		case <-time.After(2 * time.Second):
		}
		fmt.Printf("KNOWN-FINDING: property=C13 %s\n", c.Known[id])
	}
	tell("C13-boolslice", func(st store.Store) { st.Set("k", ""); st.MustBoolSlice("k") })
	tell("C13-complexslice", func(st store.Store) { st.Set("k", []any{}); st.MustComplex64Slice("k") })
	tell("C13-bytes", func(st store.Store) { st.Set("k", []byte("bytes")); st.MustString("k") })
}

func runC13(c *eng.Ctx) {
	defer reportKnown(c)
	gs, vals := getters(), catalogue()
	if len(gs) < 60 {
		panic("getters are missing")
	}
	one := func(i int) (steps int, err error) {
		g, v := gs[i/len(vals)], vals[i%len(vals)]
		if knownConv(c, g, v) {
			return 0, nil
		}
		st := store.New()
		st.Set("sec.key", v)
		st.Set("sec.keys", "other")
		st.Set("top", v)
		before := structure(st)
		view := st.WithPrefix("sec")
		want, claimed := convert(reflect.ValueOf(v), g.ret)
		defs := defaults(g.def)
		twin := g // the other form of the getter
		if twin.must = !g.must; twin.must {
			twin.name = "Must" + strings.TrimPrefix(g.name, "Get")
		} else {
			twin.name = "Get" + strings.TrimPrefix(g.name, "Must")
		}
		var first reflect.Value
		for nd := 0; nd <= 2; nd++ {
			for _, q := range []struct {
				st   store.Store
				path string
			}{{st, "sec.key"}, {st, "top"}, {view, "key"}} {
				steps++
				got, e := g.call(q.st, q.path, defs[:nd])
				if e != nil {
					return steps, errf("%s(%q) of %s: %v", g.name, q.path, show(v), e)
				}
				if claimed && !sameValue(got, want) {
					return steps, errf("%s(%q) of %s = %s, want %s", g.name, q.path, show(v), show(got.Interface()), show(want.Interface()))
				}
				// it depends neither on the defaults, nor on the form, for a key
				if first.IsValid() && !sameResult(got, first) {
					return steps, errf("%s(%q) of %s with %d defaults = %s, without it is %s", g.name, q.path, show(v), nd, show(got.Interface()), show(first.Interface()))
				}
				first = got
				if tw, e := twin.call(q.st, q.path, defs[:nd]); e != nil || !sameResult(got, tw) {
					return steps, errf("%s(%q) of %s = %s, but %s = %s", g.name, q.path, show(v), show(got.Interface()), twin.name, show(tw.Interface()))
				}
			}
			for _, q := range []struct {
				st   store.Store
				path string
			}{{st, "absent"}, {st, "sec.ke"}, {st, "sec.key.sub"}, {view, "sec.key"}, {st, "se"}} {
				steps++
				got, e := g.call(q.st, q.path, defs[:nd])
				if !g.must && !store.ErrorIsNotFound(e) {
					return steps, errf("%s(%q) of an absent path: the error is %v", g.name, q.path, e)
				}
				w := reflect.Zero(g.ret)
				if nd > 0 {
					w = defs[0]
					if g.ret.Kind() == reflect.Slice {
						w = reflect.Append(reflect.MakeSlice(g.ret, 0, nd), defs[:nd]...)
					}
				}
				if !sameValue(got, w) && !(nd > 1 && sameValue(got, defs[1])) {
					return steps, errf("%s(%q) of an absent path with %d defaults = %s, want %s", g.name, q.path, nd, show(got.Interface()), show(w.Interface()))
				}
			}
			// a section has no value
			steps++
			got, e := g.call(st, "sec", defs[:nd])
			if e != nil {
				return steps, errf("%s of a section: %v", g.name, e)
			}
			_ = got
		}
		if after := structure(st); after != before {
			return steps, errf("%s changed the store from %s to %s", g.name, before, after)
		}
		return
	}
	eng.Enum(c, "getters x values", len(gs)*len(vals), func(i int) string {
		return fmt.Sprintf("%s of %s", gs[i/len(vals)].name, show(vals[i%len(vals)]))
	}, one)

	// all small integers and the neighbours of the powers of two, in all types, by all scalar getters of numbers
	var ints []int64
	lim := int64(pick(c, 300, 70000))
	for i := -lim; i <= lim; i++ {
		ints = append(ints, i)
	}
	for b := 4; b < 63; b++ {
		for d := int64(-2); d <= 2; d++ {
			ints = append(ints, 1<<b+d, -1<<b+d)
		}
	}
	types := []reflect.Type{reflect.TypeFor[int](), reflect.TypeFor[int8](), reflect.TypeFor[int16](), reflect.TypeFor[int32](), reflect.TypeFor[int64](),
		reflect.TypeFor[uint](), reflect.TypeFor[uint8](), reflect.TypeFor[uint16](), reflect.TypeFor[uint32](), reflect.TypeFor[uint64](),
		reflect.TypeFor[float32](), reflect.TypeFor[float64](), reflect.TypeFor[string](), durT}
	var num []getter
	for _, g := range gs {
		if k := g.ret.Kind(); isInt(k) || isUint(k) || isFloat(k) || k == reflect.String || k == reflect.Bool {
			num = append(num, g)
		}
	}
	eng.Enum(c, "integers", len(ints), func(i int) string { return fmt.Sprint(ints[i]) }, func(i int) (steps int, err error) {
		for _, t := range types {
			v, ok := convert(reflect.ValueOf(ints[i]), t)
			if !ok || v.Type() != t {
				continue
			}
			st := store.New()
			st.Set("a.k", v.Interface())
			for _, g := range num {
				want, claimed := convert(v, g.ret)
				got, e := g.call(st, "a.k", nil)
				steps++
				if e != nil {
					return steps, errf("%s of %s: %v", g.name, show(v.Interface()), e)
				}
				if claimed && !sameValue(got, want) {
					return steps, errf("%s of %s = %s, want %s", g.name, show(v.Interface()), show(got.Interface()), show(want.Interface()))
				}
			}
		}
		return
	})
}
