package checks

import (
	"fmt"
	"strings"
)

// family is a set of keys which exercises certain shapes of the tree.
type family struct {
	name string
	keys []string
	pre  []string // keys set before the exploration begins
}

func wide(n int) (ret []string) {
	for i := 0; i < n; i++ {
		ret = append(ret, fmt.Sprintf("w.%c%d", 'a'+i, i))
	}
	return
}

func deep(n int) (ret []string) {
	for i := 1; i <= n; i++ {
		var a []string
		for j := 0; j < i; j++ {
			a = append(a, fmt.Sprintf("l%d", j))
		}
		ret = append(ret, strings.Join(a, "."))
	}
	return
}

var families = []family{
	{name: "split", keys: []string{"a", "ab", "abc", "a.b", "a.bc", "a.b.c", "ab.c"}},
	{name: "app", keys: []string{"app.debug", "app.dump", "app.dump.to", "app.logging", "app.logging.file", "app.l"}},
	{name: "uni", keys: []string{"é", "éa", "日.本", "日.木", "日本.x", "日"}},
	{name: "chain", keys: []string{"a.b.c.d.e.f", "a.b.c.d.e", "a.b.c", "a.b.c.x", "a.b.c.d.e.g.h", "a"}},
	{name: "num", keys: []string{"list.0", "list.1", "list.10", "list.1.x", "list", "list.11"}},
	{name: "case", keys: []string{"App.Name", "app.name", "APP", "app-x.y_z", "app", "App"}},
	{name: "long", keys: []string{strings.Repeat("k", 63), strings.Repeat("k", 64), strings.Repeat("k", 65) + ".x", strings.Repeat("s", 70) + "." + strings.Repeat("t", 70), strings.Repeat("s", 70)}},
	{name: "punct", keys: []string{"a:b", "a*b.c", "a/b", "a/b.c", "a%d", "a\\b", "a-b"}},
	{name: "lowbyte", keys: []string{"a", "š", "慡.b", "x.a", "x.慡", "x.\U00010061", "x.š"}},
	{name: "wide", keys: append(wide(14)[10:], "w", "w.a", "w.a0.x", "w.b1"), pre: wide(12)},
	{name: "tall", keys: append(deep(12)[8:], "l0.l1.x", "l0.l1.l2.l3.l4.l5.l6.y"), pre: []string{deep(12)[10], deep(12)[4]}},
}

// split: keys grouped so that removal of one must keep the others.
var smallFamilies = families[:4]

func withDelim(f family, d string) family {
	rep := func(in []string) (out []string) {
		for _, k := range in {
			// the new delimiter and the dot swap their roles
			k = strings.ReplaceAll(k, d, "\x00")
			k = strings.ReplaceAll(k, ".", d)
			k = strings.ReplaceAll(k, "\x00", ".")
			out = append(out, k)
		}
		return
	}
	return family{name: f.name + "@" + d, keys: rep(f.keys), pre: rep(f.pre)}
}
