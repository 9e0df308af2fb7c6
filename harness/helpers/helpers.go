// Package helpers decides the properties of the internal helper packages (it is built apart from the others, for it needs their API).
package helpers

import (
	"fmt"
	"maps"
	"math"
	"math/big"
	"slices"
	"strconv"
	"strings"
	"time"

	"github.com/hedzr/store/internal/ctx"
	"github.com/hedzr/store/internal/times"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C29", runC29,
		"how a duration is split into parts is not claimed, but that its text is read back, and has a day part if asked for",
		"parts of a nanosecond are cut off, a text with fractions may be off by one nanosecond per part",
		"a text which several layouts understand may be read by any of them",
		"two parts of exactly 2^63 ns each are not claimed (package time takes them for 0, too)")
	register("C30", runC30, "adding names while iterating is seen after Reset; empty names are not claimed")
}

type check struct {
	run         func(c *eng.Ctx)
	assumptions []string
}

var registry = map[string]check{}

func register(id string, run func(c *eng.Ctx), assumptions ...string) {
	registry[id] = check{run, append([]string{"the Go compiler, runtime and standard library behave as documented"}, assumptions...)}
}

func errf(format string, args ...any) error { return fmt.Errorf(format, args...) }

func pick[T any](c *eng.Ctx, quick, thorough T) T {
	if c.Thorough {
		return thorough
	}
	return quick
}

func runC29(c *eng.Ctx) {
	durTexts(c)
	durParse(c)
	timeParse(c)
	numParse(c)
}

func durTexts(c *eng.Ctx) {
	units := []time.Duration{24 * time.Hour, time.Hour, time.Minute, time.Second, time.Millisecond, time.Microsecond, 1}
	nums := [][]int64{{0, 1, 10, 106750}, {0, 1, 23}, {0, 1, 10, 59}, {0, 1, 10, 59}, {0, 1, 10, 100, 999}, {0, 1, 10, 100, 999}, {0, 1, 10, 100, 999}}
	n := 2
	for _, x := range nums {
		n *= len(x)
	}
	dur := func(i int) time.Duration {
		var d time.Duration
		neg := i%2 == 1
		i /= 2
		for j, x := range nums {
			d += time.Duration(x[i%len(x)]) * units[j]
			i /= len(x)
		}
		if neg {
			d = -d
		}
		return d
	}
	check := func(d time.Duration) error {
		for _, frac := range []bool{false, true} {
			s := times.SmartDurationStringEx(d, frac)
			got, err := times.ParseDuration(s)
			if err != nil || got != d {
				return errf("the text of %v (fraction %v) is %q, which reads as %v, %v", d, frac, s, got, err)
			}
			if frac && strings.Contains(s, "d") {
				return errf("the text of %v is %q", d, s)
			}
			if a := d.Abs(); !frac && (a >= 24*time.Hour || a == math.MaxInt64) != strings.Contains(s, "d") {
				return errf("the text of %v is %q", d, s)
			}
			if frac {
				if std, err := time.ParseDuration(s); err != nil || std != d {
					return errf("the text of %v is %q, which is another duration for package time: %v, %v", d, s, std, err)
				}
			}
		}
		if a, b := times.SmartDurationString(d), times.SmartDurationStringEx(d, false); a != b || times.MustParseDuration(a) != d {
			return errf("SmartDurationString(%v) = %q, otherwise %q", d, a, b)
		}
		return nil
	}
	eng.Enum(c, "durations", n, func(i int) string { return fmt.Sprintf("the text of %v", dur(i)) }, func(i int) (int, error) { return 3, check(dur(i)) })
	var edge []time.Duration
	for _, m := range []time.Duration{0, 1000, 1000000, time.Second, time.Minute, time.Hour, 24 * time.Hour, math.MaxInt64, math.MinInt64, -time.Second} {
		for k := -300; k <= 300; k++ {
			edge = append(edge, m+time.Duration(k))
		}
	}
	eng.Enum(c, "durations at the limits", len(edge), func(i int) string { return fmt.Sprintf("the text of %v", edge[i]) }, func(i int) (int, error) { return 3, check(edge[i]) })
	secs := []float64{0, 1, 0.5, 1.25, 60, 3600.001, 86400, 1e-9, 1e-6, 123456.789}
	eng.Enum(c, "from float", len(secs)*2, func(i int) string { return fmt.Sprint(secs[i/2]) }, func(i int) (int, error) {
		f := secs[i/2]
		if i%2 == 1 {
			f = -f
		}
		if got := times.DurationFromFloat(f); math.Abs(float64(got)-f*1e9) > 1 {
			return 1, errf("DurationFromFloat(%v) = %v", f, got)
		}
		return 1, nil
	})
}

// refDuration reads a duration exactly; parts is the number of parts with fractions.
func refDuration(s string) (d time.Duration, parts int, ok bool) {
	unit := map[string]int64{"ns": 1, "us": 1e3, "µs": 1e3, "μs": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9, "d": 24 * 3600e9}
	neg := strings.HasPrefix(s, "-")
	if neg || strings.HasPrefix(s, "+") {
		s = s[1:]
	}
	if s == "0" {
		return 0, 0, true
	}
	if s == "" {
		return 0, 0, false
	}
	sum := new(big.Int)
	for s != "" {
		i := 0
		for i < len(s) && (s[i] == '.' || s[i] >= '0' && s[i] <= '9') {
			i++
		}
		j := i
		for j < len(s) && !(s[j] == '.' || s[j] >= '0' && s[j] <= '9') {
			j++
		}
		u, known := unit[s[i:j]]
		x := s[:i]
		if !known || strings.Count(x, ".") > 1 || strings.Trim(x, ".") == "" {
			return 0, 0, false
		}
		r, _ := new(big.Rat).SetString("0" + strings.TrimSuffix(x, "."))
		r.Mul(r, new(big.Rat).SetInt64(u))
		if strings.Contains(x, ".") {
			parts++
		}
		sum.Add(sum, new(big.Int).Quo(r.Num(), r.Denom()))
		s = s[j:]
	}
	if neg {
		sum.Neg(sum)
	}
	return time.Duration(sum.Int64()), parts, sum.IsInt64()
}

func durParse(c *eng.Ctx) {
	check := func(s string) error {
		want, parts, ok := refDuration(s)
		got, err := times.ParseDuration(s)
		if (err == nil) != ok {
			return errf("ParseDuration(%q) = %v, %v, want ok=%v", s, got, err, ok)
		}
		if ok {
			if diff := got - want; diff > time.Duration(parts) || -diff > time.Duration(parts) {
				return errf("ParseDuration(%q) = %v, want %v", s, got, want)
			}
		} else if got != 0 {
			return errf("ParseDuration(%q) = %v, %v", s, got, err)
		}
		if times.MustParseDuration(s) != got {
			return errf("MustParseDuration(%q) = %v, want %v", s, times.MustParseDuration(s), got)
		}
		if !strings.Contains(s, "d") {
			if std, serr := time.ParseDuration(s); std != got || (serr == nil) != (err == nil) {
				return errf("ParseDuration(%q) = %v, %v, package time says %v, %v", s, got, err, std, serr)
			}
		}
		return nil
	}
	alpha := []string{"0", "1", "9", ".", "-", "+", "d", "h", "m", "s", "n", "u", "µ", "μ", " "}
	k := pick(c, 5, 6)
	n := 0
	for i, p := 0, 1; i <= k; i++ {
		n += p
		p *= len(alpha)
	}
	text := func(i int) string {
		s := ""
		for p := 1; i >= p; p *= len(alpha) { // length
			i -= p
			s += "."
		}
		b := ""
		for range s {
			b += alpha[i%len(alpha)]
			i /= len(alpha)
		}
		return b
	}
	eng.Enum(c, "parse short texts", n, func(i int) string { return fmt.Sprintf("ParseDuration(%q)", text(i)) }, func(i int) (int, error) { return 1, check(text(i)) })
	part := []string{"", "0", "1d", "3d", "1.5d", ".5d", "106751d", "106752d", "23h", "1.25h", "59m", "16s", "1.000001s", "854ms", "775µs", "775us", "775μs", "807ns", "808ns", "1000000000ns", "9223372036854775807ns", "99999999999999999999s", "0d", "d", "7", "x", "0.0000000001s"}
	np := len(part)
	eng.Enum(c, "parse parts", 3*np*np*np, func(i int) string {
		return fmt.Sprintf("ParseDuration(%q)", []string{"", "-", "+"}[i%3]+part[i/3%np]+part[i/3/np%np]+part[i/3/np/np])
	}, func(i int) (int, error) {
		return 1, check([]string{"", "-", "+"}[i%3] + part[i/3%np] + part[i/3/np%np] + part[i/3/np/np])
	})
}

func timeParse(c *eng.Ctx) {
	layouts := []string{
		"2006-01-02 15:04:05.999999999 -0700", "2006-01-02 15:04:05.999999999Z07:00", "2006-01-02 15:04:05.999999999", "2006-01-02 15:04:05.999", "2006-01-02 15:04:05",
		"2006-01-02", "2006/01/02", "01/02/2006", "01-02", "2006-1-2 15:4:5.999999999 -0700", "2006-1-2 15:4:5.999999999Z07:00", "2006-1-2 15:4:5.999999999", "2006-1-2 15:4:5.999",
		"2006-1-2 15:4:5", "2006-1-2", "2006/1/2", "1/2/2006", "1-2", "15:04:05.999999999", "15:04.999999999", "15:04:05.999", "15:04.999", "15:04:05", "15:04",
		"15:4:5.999999999", "15:4.999999999", "15:4:5.999", "15:4.999", "15:4:5", "15:4",
		time.RFC3339, time.RFC3339Nano, time.RFC1123Z, time.RFC1123, time.RFC850, time.RFC822Z, time.RFC822, time.RubyDate, time.UnixDate, time.ANSIC,
	}
	var at []time.Time
	for _, y := range []int{1999, 2000, 2024} {
		for _, m := range []time.Month{1, 2, 10, 12} {
			for _, d := range []int{1, 9, 28} {
				for _, h := range []int{0, 3, 12, 23} {
					for _, mi := range []int{0, 7, 59} {
						for _, s := range []int{0, 8, 59} {
							for _, ns := range []int{0, 5e8, 123e6, 123456789, 1} {
								at = append(at, time.Date(y, m, d, h, mi, s, ns, time.UTC), time.Date(y, m, d, h, mi, s, ns, time.FixedZone("", -5*3600)))
							}
						}
					}
				}
			}
		}
	}
	c.Serial(func() {
		n := len(layouts) * len(at)
		eng.Enum(c, "times", n, func(i int) string { return fmt.Sprintf("%q as %q", at[i/len(layouts)], layouts[i%len(layouts)]) }, func(i int) (int, error) {
			l := layouts[i%len(layouts)]
			s := at[i/len(layouts)].Format(l)
			want, err := time.Parse(l, s)
			if err != nil {
				return 0, nil // package time cannot read it either
			}
			got, err := times.SmartParseTime(s)
			if err != nil {
				return 1, errf("SmartParseTime(%q): %v", s, err)
			}
			if !got.Equal(want) {
				ok := false
				for _, o := range layouts { // read by another layout
					t, err := time.Parse(o, s)
					ok = ok || err == nil && t.Equal(got)
				}
				if !ok {
					return 1, errf("SmartParseTime(%q) = %v, want %v", s, got, want)
				}
			}
			if x := times.MustSmartParseTime(s); !x.Equal(got) {
				return 1, errf("MustSmartParseTime(%q) = %v, want %v", s, x, got)
			}
			if x := times.MustSmartParseTimePtr(s); x == nil || !x.Equal(got) {
				return 1, errf("MustSmartParseTimePtr(%q) = %v, want %v", s, x, got)
			}
			return 1, nil
		})
		bad := []string{"", "x", "2024", "2024-13-01", "2024-02-30", "24:00:01", "12:60", "1:2:3:4", "2024-01-01 12:00:00 PST8", "99/99/9999", "tomorrow"}
		eng.Enum(c, "bad times", len(bad), func(i int) string { return bad[i] }, func(i int) (int, error) {
			if t, err := times.SmartParseTime(bad[i]); err == nil || !times.MustSmartParseTime(bad[i]).IsZero() || !times.MustSmartParseTimePtr(bad[i]).IsZero() {
				return 1, errf("SmartParseTime(%q) = %v, %v", bad[i], t, err)
			}
			return 1, nil
		})
		more := []string{"20060102T150405", "Jan 2 2006", "02.01.2006", "2006.002"}
		step := 0
		eng.Enum(c, "more layouts", 1, func(i int) string { return "AddKnownTimeFormats" }, func(i int) (int, error) {
			t := time.Date(2023, 7, 19, 21, 43, 56, 0, time.UTC)
			for j := 0; j < len(more); j += 2 {
				times.AddKnownTimeFormats(more[j : j+2]...)
				step++
				for _, l := range append(append([]string{}, more[:j+2]...), layouts...) {
					s := t.Format(l)
					want, err := time.Parse(l, s)
					if err != nil {
						continue
					}
					if got, err := times.SmartParseTime(s); err != nil || !got.Equal(want) && strings.Contains(l, "2006") {
						return step, errf("with %q added, SmartParseTime(%q) = %v, %v, want %v", more[:j+2], s, got, err, want)
					}
				}
			}
			return step, nil
		})
	})
}

func numParse(c *eng.Ctx) {
	in := []string{"", "0", "1", "-1", "+7", "0x1f", "0b101", "0o17", "017", "1_000", "9223372036854775807", "9223372036854775808", "18446744073709551615", "1.5", "-2.5e3", "1e400", "inf", "nan", "1+2i", "-i", "x", " 1", "1 "}
	eng.Enum(c, "numbers", len(in), func(i int) string { return fmt.Sprintf("%q", in[i]) }, func(i int) (int, error) {
		s := in[i]
		a, aerr := strconv.ParseInt(s, 0, 64)
		if b, err := times.SmartParseInt(s); b != a || (err == nil) != (aerr == nil) || times.MustSmartParseInt(s) != a {
			return 1, errf("SmartParseInt(%q) = %v, %v, want %v, %v", s, b, err, a, aerr)
		}
		u, uerr := strconv.ParseUint(s, 0, 64)
		if b, err := times.SmartParseUint(s); b != u || (err == nil) != (uerr == nil) || times.MstSmartParseUint(s) != u {
			return 1, errf("SmartParseUint(%q) = %v, %v, want %v, %v", s, b, err, u, uerr)
		}
		f, ferr := strconv.ParseFloat(s, 64)
		if b, err := times.ParseFloat(s); b != f && !(b != b && f != f) || (err == nil) != (ferr == nil) {
			return 1, errf("ParseFloat(%q) = %v, %v, want %v, %v", s, b, err, f, ferr)
		} else if m := times.MustParseFloat(s); m != b && m == m {
			return 1, errf("MustParseFloat(%q) = %v, want %v", s, m, b)
		}
		z, zerr := strconv.ParseComplex(s, 64)
		if b, err := times.ParseComplex(s); fmt.Sprint(b) != fmt.Sprint(z) || (err == nil) != (zerr == nil) || fmt.Sprint(times.MustParseComplex(s)) != fmt.Sprint(b) {
			return 1, errf("ParseComplex(%q) = %v, %v, want %v, %v", s, b, err, z, zerr)
		}
		return 4, nil
	})
}

type ctxWorld struct {
	c    ctx.Ctx
	m    map[string]any
	rest []string // names to come, nil: not started
	cur  string
	step int
}

type strer string

func (s strer) String() string { return string(s) }

func runC30(c *eng.Ctx) {
	type op = eng.Op[ctxWorld]
	var ops []op
	names := []string{"a", "b", "ab"}
	for _, n := range names {
		ops = append(ops,
			op{Name: fmt.Sprintf("WithValue(%q)", n), Do: func(w *ctxWorld) error {
				w.step++
				w.c = ctx.WithValue(w.c, n, w.step)
				w.m[n] = w.step
				return nil
			}},
			op{Name: fmt.Sprintf("c.WithValue(%q)", n), Do: func(w *ctxWorld) error {
				w.step++
				w.c.WithValue(n, w.step)
				w.m[n] = w.step
				return nil
			}})
	}
	ops = append(ops,
		op{Name: "WithValues(b, strer a)", Do: func(w *ctxWorld) error {
			w.step++
			w.c = ctx.WithValues(w.c, "b", w.step, strer("a"), "x")
			w.m["b"], w.m["a"] = w.step, "x"
			return nil
		}},
		op{Name: "c.WithValues(nil value, odd)", Do: func(w *ctxWorld) error {
			w.c.WithValues("a", nil, "odd")
			w.m["a"] = nil
			return nil
		}},
		op{Name: "Reset", Do: func(w *ctxWorld) error { w.c.Reset(); w.rest, w.cur = nil, ""; return nil }},
		op{Name: "Next", Do: func(w *ctxWorld) error {
			if w.rest == nil {
				w.rest = slices.Sorted(maps.Keys(w.m))
				if w.rest == nil {
					w.rest = []string{}
				}
			}
			want := len(w.rest) > 0
			if got := w.c.Next(); got != want {
				return errf("Next() = %v, want %v; names %v", got, want, w.m)
			}
			if want {
				w.cur, w.rest = w.rest[0], w.rest[1:]
			}
			return nil
		}})
	s := &eng.Sys[ctxWorld]{Name: "ctx", Ops: ops, New: func() *ctxWorld { return &ctxWorld{c: ctx.TODO(), m: map[string]any{}} },
		Obs: func(w *ctxWorld) error {
			if n := w.c.NamesCount(); n != len(w.m) {
				return errf("NamesCount() = %d, want %d", n, len(w.m))
			}
			v, ok := w.m[w.cur]
			k := w.cur
			if !ok {
				k = ""
			}
			ek, ev := w.c.Entry()
			if ek != k || ev != v || w.c.Key() != k || w.c.Value() != v {
				return errf("Entry() = %q, %v, Key() = %q, Value() = %v, want %q, %v", ek, ev, w.c.Key(), w.c.Value(), k, v)
			}
			by := w.c.(interface{ ValueBy(string) ctx.Val })
			for _, n := range append([]string{"odd", "zz"}, names...) {
				if by.ValueBy(n) != w.m[n] {
					return errf("ValueBy(%q) = %v, want %v", n, by.ValueBy(n), w.m[n])
				}
			}
			return nil
		}}
	eng.DFS(c, s, pick(c, 5, 7))
	eng.Enum(c, "nil parent", 2, func(i int) string { return fmt.Sprint(i) }, func(i int) (int, error) {
		var x ctx.Ctx
		if i == 0 {
			x = ctx.WithValue(nil, "a", 1)
		} else {
			x = ctx.WithValues(nil, "a", 1)
		}
		if x == nil || x.NamesCount() != 1 || !x.Next() || x.Key() != "a" || x.Value() != 1 || x.Next() {
			return 1, errf("a context made from nil: %v", x)
		}
		return 1, nil
	})
}
