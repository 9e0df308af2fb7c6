package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// ent is one live key of the reference model.
type ent struct {
	val           any
	desc, comment string
	tag           any
	mod           bool
}

// ref is the reference model of a store: a plain map from full key to entry.
// A path p exists if it is a key, or a section, i.e. the non-empty set of the
// keys starting with p + delimiter. It must stay boring.
type ref struct {
	m map[string]*ent
	d string // delimiter
}

func newRef(d string) *ref { return &ref{m: map[string]*ent{}, d: d} }

func (r *ref) clone() *ref {
	n := newRef(r.d)
	for k, e := range r.m {
		c := *e
		n.m[k] = &c
	}
	return n
}

func (r *ref) keys() (ret []string) {
	for k := range r.m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return
}

// trim drops one trailing delimiter of a section path.
func (r *ref) trim(p string) string { return strings.TrimSuffix(p, r.d) }

func (r *ref) isKey(p string) bool { _, ok := r.m[p]; return ok }

// isSection: some key is strictly below p.
func (r *ref) isSection(p string) bool {
	p = r.trim(p) + r.d
	for k := range r.m {
		if len(k) > len(p) && strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

func (r *ref) exists(p string) bool { return r.isKey(p) || r.isSection(p) }

// under returns the keys which are p itself or below p; only the latter ones
// if p ends with the delimiter.
func (r *ref) under(p string) (ret []string) {
	q := p
	p = r.trim(p)
	for k := range r.m {
		if k == q || strings.HasPrefix(k, p+r.d) {
			ret = append(ret, k)
		}
	}
	sort.Strings(ret)
	return
}

func (r *ref) set(k string, v any) (old any, isNew bool) {
	e, ok := r.m[k]
	if !ok {
		e = &ent{}
		r.m[k] = e
	}
	old, e.val = e.val, v
	return old, !ok
}

func (r *ref) remove(p string) (removed []string) {
	removed = r.under(p)
	for _, k := range removed {
		delete(r.m, k)
	}
	return
}

// String is the canonical form.
func (r *ref) String() string {
	var sb strings.Builder
	for _, k := range r.keys() {
		e := r.m[k]
		fmt.Fprintf(&sb, "%q=%#v/%q/%q/%v/%v;", k, e.val, e.desc, e.comment, e.tag, e.mod)
	}
	return sb.String()
}

func eq(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int:
		y, ok := b.(int)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	}
	return reflect.DeepEqual(a, b)
}

func show(v any) string { return fmt.Sprintf("%T(%#v)", v, v) }

func errf(format string, args ...any) error { return fmt.Errorf(format, args...) }

// probesOf derives the paths to be observed from a family of keys: the keys,
// all of their prefixes (by rune), with and without a trailing delimiter, and
// some extensions.
func probesOf(keys []string, d string) (ret []string) {
	seen := map[string]bool{"": true}
	add := func(p string) {
		if !seen[p] {
			seen[p] = true
			ret = append(ret, p)
		}
	}
	for _, k := range keys {
		rs := []rune(k)
		for i := 1; i <= len(rs); i++ {
			add(string(rs[:i]))
		}
		add(k + d)
		add(k + "x")
		add(k + d + "x")
		for i, r := range rs {
			if string(r) == d && i > 0 {
				add(string(rs[:i]) + "x")
			}
		}
	}
	// bare delimiters and double delimiters are not meaningful paths
	out := ret[:0]
	for _, p := range ret {
		if p != d && !strings.HasPrefix(p, d) && !strings.Contains(p, d+d) {
			out = append(out, p)
		}
	}
	return out
}
