package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

// world is the real store in lockstep with the reference model.
type world struct {
	st   store.Store
	r    *ref
	step int

	// notifications received by the handlers
	events []string
	want   []string

	extra map[string]any
}

func newWorld(f family, d string, opts ...store.Opt) *world {
	w := &world{r: newRef(d)}
	if d != "." {
		opts = append(opts, store.WithDelimiter([]rune(d)[0]))
	}
	w.st = store.New(opts...)
	for i, k := range f.pre {
		w.st.Set(k, i)
		w.r.set(k, i)
		w.r.m[k].mod = true
	}
	return w
}

func (w *world) set(k string, v any) error {
	isKey := w.r.isKey(k)
	old, isNew := w.r.set(k, v)
	w.r.m[k].mod = true
	n, o := w.st.Set(k, v)
	if n == nil {
		return errf("Set(%q) returned no node", k)
	}
	if n.Key() != k || !eq(n.Data(), v) {
		return errf("Set(%q, %s) returned a node with key %q and data %s", k, show(v), n.Key(), show(n.Data()))
	}
	if isKey && !eq(o, old) {
		return errf("Set(%q, %s) returned the old value %s, want %s", k, show(v), show(o), show(old))
	}
	if !isKey && o != nil {
		return errf("Set(%q, %s) of a new key returned the old value %s (isNew=%v)", k, show(v), show(o), isNew)
	}
	return nil
}

func (w *world) remove(p string) error {
	had := w.r.exists(p)
	w.r.remove(p)
	if got := w.st.Remove(p); got != had {
		return errf("Remove(%q) = %v, want %v", p, got, had)
	}
	return nil
}

func opSet(k string, v any) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("Set(%q,%v)", k, v), Do: func(w *world) error { w.step++; return w.set(k, v) }}
}

// opSetS sets a value which is unique in the history.
func opSetS(k string) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("Set(%q,#step)", k), Do: func(w *world) error { w.step++; return w.set(k, 1000+w.step) }}
}

func opRemove(p string) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("Remove(%q)", p), Do: func(w *world) error { w.step++; return w.remove(p) }}
}

// structure renders the whole tree of the implementation canonically,
// including the shape of the radix tree and the order of the children.
func structure(st interface {
	Walk(path string, cb func(path, fragment string, node radix.Node[any]))
}) string {
	var sb strings.Builder
	st.Walk("", func(path, fragment string, n radix.Node[any]) {
		fmt.Fprintf(&sb, "%q|%q|%v%v%v|%v|%q|%q|%v;", path, fragment, n.IsLeaf(), n.HasData(), n.Modified(), n.Data(), n.Description(), n.Comment(), n.Tag())
	})
	return sb.String()
}

func (w *world) key() string { return structure(w.st) + "##" + w.r.String() }

// obsGet: the values, for all of the probes.
func (w *world) obsGet(probes []string) error {
	for _, p := range probes {
		v, found := w.st.Get(p)
		mv := w.st.MustGet(p)
		if e, ok := w.r.m[p]; ok {
			if !found || !eq(v, e.val) || !eq(mv, e.val) {
				return errf("Get(%q) = (%s, %v), MustGet = %s, want (%s, true); keys: %v", p, show(v), found, show(mv), show(e.val), w.r.keys())
			}
		} else if w.r.isSection(p) {
			if !found || v != nil || mv != nil {
				return errf("Get(%q) = (%s, %v), MustGet = %s for a section, want (nil, true); keys: %v", p, show(v), found, show(mv), w.r.keys())
			}
		} else if found || v != nil || mv != nil {
			return errf("Get(%q) = (%s, %v), MustGet = %s for an absent path; keys: %v", p, show(v), found, show(mv), w.r.keys())
		}
	}
	return nil
}

type querier interface {
	Query(path string, kvpair radix.KVPair) (data any, branch, found bool, err error)
	Search(path string) bool
	HasPart(path string) bool
	StartsWith(path string, r rune) bool
	EndsWith(path string, r rune) bool
}

// obsHas: the existence, for all of the probes.
func (w *world) obsHas(probes []string) error {
	q, _ := w.st.(querier)
	if !w.st.Has("") {
		// the root always exists
		return errf(`Has("") = false`)
	}
	for _, p := range probes {
		want := w.r.exists(p)
		if got := w.st.Has(p); got != want {
			return errf("Has(%q) = %v, want %v; keys: %v", p, got, want, w.r.keys())
		}
		if q != nil {
			if got := q.Search(p); got != want {
				return errf("Search(%q) = %v, want %v; keys: %v", p, got, want, w.r.keys())
			}
			_, branch, found, err := q.Query(p, nil)
			if found != want || (err == nil) != want || (err != nil && !store.ErrorIsNotFound(err)) {
				return errf("Query(%q): found = %v, err = %v, want found = %v; keys: %v", p, found, err, want, w.r.keys())
			}
			if found && branch == w.r.isKey(p) {
				return errf("Query(%q): branch = %v, but isKey = %v; keys: %v", p, branch, w.r.isKey(p), w.r.keys())
			}
			part := false
			for k := range w.r.m {
				part = part || strings.HasPrefix(k, p)
			}
			part = part || want
			if got := q.HasPart(p); got != part && !strings.HasSuffix(p, w.r.d) {
				return errf("HasPart(%q) = %v, want %v; keys: %v", p, got, part, w.r.keys())
			}
		}
		if q != nil && p != "" && !strings.HasSuffix(p, w.r.d) {
			frag := []rune(p[strings.LastIndex(w.r.d+p, w.r.d):])
			first, last := frag[0], frag[len(frag)-1]
			for _, r := range []rune{first, last, 'q', []rune(w.r.d)[0]} {
				if a, b := q.StartsWith(p, r), q.EndsWith(p, r); a != (want && r == first) || b != (want && r == last) {
					return errf("StartsWith(%q, %q) = %v, EndsWith = %v; exists %v; keys: %v", p, r, a, b, want, w.r.keys())
				}
			}
		}
		node, _, partial, found := w.st.Locate(p, nil)
		if w.r.isKey(p) {
			if !found || partial || node.Key() != p || !eq(node.Data(), w.r.m[p].val) {
				return errf("Locate(%q): found = %v, partialMatched = %v for a key; keys: %v", p, found, partial, w.r.keys())
			}
		} else if found && !want {
			return errf("Locate(%q): found = true for an absent path; keys: %v", p, w.r.keys())
		}
	}
	return nil
}

// leaves collects the live keys enumerated by Walk.
func leaves(st store.Store, path string) (ret map[string]any, dup string) {
	ret = map[string]any{}
	st.Walk(path, func(p, fragment string, n radix.Node[any]) {
		if n.IsLeaf() {
			if _, ok := ret[n.Key()]; ok {
				dup = n.Key()
			}
			ret[n.Key()] = n.Data()
		}
	})
	return
}

func sameMap(got map[string]any, want map[string]any) bool {
	if len(got) != len(want) {
		return false
	}
	for k, v := range want {
		if g, ok := got[k]; !ok || !eq(g, v) {
			return false
		}
	}
	return true
}

func (r *ref) values(keys []string) map[string]any {
	m := map[string]any{}
	for _, k := range keys {
		m[k] = r.m[k].val
	}
	return m
}

// obsWalk: Walk("") visits each of the keys exactly once.
func (w *world) obsWalk() error {
	got, dup := leaves(w.st, "")
	if dup != "" {
		return errf("Walk visits the key %q twice", dup)
	}
	if want := w.r.values(w.r.keys()); !sameMap(got, want) {
		return errf("Walk visits %v, want %v", got, want)
	}
	return nil
}

func sorted(m map[string]any) (ret []string) {
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return
}

// flatten turns nested maps into full keys.
func flatten(m map[string]any, prefix, d string, out map[string]any) map[string]any {
	if out == nil {
		out = map[string]any{}
	}
	for k, v := range m {
		if prefix != "" {
			k = prefix + d + k
		}
		if mm, ok := v.(map[string]any); ok {
			flatten(mm, k, d, out)
		} else {
			out[k] = v
		}
	}
	return out
}
