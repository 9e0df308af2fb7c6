package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C15", runC15, "whether the top level itself counts as an enclosing section is not claimed",
		"the queried paths have no empty segments")
}

type brFam struct {
	name  string
	d     string
	keys  []string
	query []string
}

var brFams = []brFam{
	{"nest", ".", []string{"a.k", "a.b.k", "a.b.c.k", "a.b.kk", "a.b.c.d.z", "b.k"},
		[]string{"a.k", "a.b.k", "a.b.c.k", "a.b.c.d.k", "a.x.k", "a.b.x.y.k", "b.c.k", "c.k", "c.d.k", "k", "a.b.c", "a.b", "a.b.c.d.e.kk", "a.kk", "a.b.c.z", "a.b.c.d.e.z", "a.c", "a.b.x.c", "a.z.b"}},
	{"section", ".", []string{"a.k", "a.b.k.x", "a.b.k.y", "a.b.c.kx", "a.k.z", "a.b.c.k"},
		[]string{"a.k", "a.b.k", "a.b.c.k", "a.b.c.d.k", "a.b.x.k", "a.b.c.x", "a.b.k.c.x", "a.b.k.k", "a.k.k", "a.b.c.d.kx", "a.b.d.c", "a.x.k.z", "a.b.c.z", "a.k.b.z"}},
	{"split", ".", []string{"p.mid", "p.middle", "p.q.mid-x", "p.q.r.mi", "p.q.r.middle", "p.q.mid"},
		[]string{"p.q.r.mid", "p.q.r.s.mid", "p.q.mid", "p.x.mid", "p.q.r.m", "p.q.r.mi", "p.q.r.s.mi", "p.q.r.s.t.middle", "p.q.midd", "p.q.r.mid-x", "p.q.r.mid-", "p.mid", "p.mi", "q.mid"}},
	{"slash", "/", []string{"a/k.k", "a/b.c/k.k", "a/b.c/d/k", "a/k", "a.k"},
		[]string{"a/b.c/k.k", "a/b.c/d/k.k", "a/b.c/d/e/k", "a/b.c/k", "a/x/k", "a/x/k.k", "a.b.k", "a/b.k", "a.k", "x/y/k"}},
	{"wide", "→", []string{"日→k", "日→本→k", "日→本→x→k", "日→本→kk"},
		[]string{"日→本→x→k", "日→本→x→y→k", "日→本→y→k", "日→本→k", "日→z→k", "日→本→x→kk", "日→本→z→x", "本→k"}},
}

// up is the oracle: what a recursive-up lookup of the path may hit.
func (r *ref) up(p string) (hits []string) {
	for a := strings.Split(p, r.d); ; {
		if w := strings.Join(a, r.d); r.exists(w) {
			return []string{w}
		}
		if len(a) <= 2 {
			break
		}
		n := append([]string{}, a[:len(a)-2]...)
		a = append(n, a[len(a)-1])
	}
	// the top level
	if a := strings.Split(p, r.d); len(a) > 1 && r.exists(a[len(a)-1]) {
		return []string{a[len(a)-1], ""}
	}
	return []string{""}
}

// brLook compares all of the readers with one of the admissible hits.
func brLook(name string, st store.Store, r *ref, p string, hits []string) (err error) {
	for _, h := range hits {
		if err = brLook1(name, st, r, p, h); err == nil {
			return
		}
	}
	return
}

func brLook1(name string, st store.Store, r *ref, p, hit string) error {
	want, found, branch := any(nil), hit != "", false
	if e, ok := r.m[hit]; ok {
		want = e.val
	} else {
		branch = found
	}
	if v, ok := st.Get(p); ok != found || !eq(v, want) {
		return errf("%s.Get(%q) = (%s, %v), want (%s, %v) by %q; keys: %v", name, p, show(v), ok, show(want), found, hit, r.keys())
	}
	if v := st.MustGet(p); !eq(v, want) {
		return errf("%s.MustGet(%q) = %s, want %s by %q; keys: %v", name, p, show(v), show(want), hit, r.keys())
	}
	if got := st.Has(p); got != found {
		return errf("%s.Has(%q) = %v, want %v by %q; keys: %v", name, p, got, found, hit, r.keys())
	}
	if q, ok := st.(querier); ok {
		v, br, ok, err := q.Query(p, nil)
		if ok != found || !eq(v, want) || (err == nil) != found || found && br != branch {
			return errf("%s.Query(%q) = (%s, branch %v, found %v, %v), want %s by %q; keys: %v", name, p, show(v), br, ok, err, show(want), hit, r.keys())
		}
	}
	node, _, _, ok := st.Locate(p, nil)
	if ok && !found || found && !branch && (!ok || node.Key() != hit || !eq(node.Data(), want)) {
		return errf("%s.Locate(%q): found = %v, want %v by %q; keys: %v", name, p, ok, found, hit, r.keys())
	}
	if name != "root." && name != "root.BR" && !strings.HasPrefix(name, "BR") {
		return nil
	}
	s, err := st.GetString(p)
	ws, _ := want.(string)
	if (err == nil) != found || !branch && s != ws || err != nil && !store.ErrorIsNotFound(err) {
		return errf("%s.GetString(%q) = (%q, %v), want (%q, found %v) by %q; keys: %v", name, p, s, err, ws, found, hit, r.keys())
	}
	if !branch {
		def := "def"
		if found {
			def = ws
		}
		if s = st.MustString(p, "def"); s != def {
			return errf("%s.MustString(%q, def) = %q, want %q by %q; keys: %v", name, p, s, def, hit, r.keys())
		}
	}
	return nil
}

// upDeep: lookups from deep paths; the key is at one or two of the levels.
func upDeep(c *eng.Ctx) {
	var jobs [][3]int
	for n := 2; n <= pick(c, 24, 48); n++ {
		for i := 0; i <= n; i++ {
			for j := i; j <= n; j++ {
				jobs = append(jobs, [3]int{n, i, j})
			}
		}
	}
	for _, n := range []int{63, 64, 65, 127, 128, 129, 255, 256, 257} {
		for _, i := range []int{0, 1, 2, n / 2, n - 1, n} {
			jobs = append(jobs, [3]int{n, 0, i}, [3]int{n, i, n})
		}
	}
	lvl := func(i int, last string) string {
		var a []string
		for k := 1; k <= i; k++ {
			a = append(a, fmt.Sprint("l", k))
		}
		return strings.Join(append(a, last), ".")
	}
	eng.Enum(c, "up-deep", len(jobs), func(i int) string {
		return fmt.Sprintf("a key at the levels %d and %d (0: none), asked at level %d", jobs[i][1], jobs[i][2], jobs[i][0])
	}, func(i int) (int, error) {
		n := jobs[i][0]
		st, r := store.New(), newRef(".")
		set := func(k string, v any) { st.Set(k, v); r.set(k, v) }
		set(lvl(n, "other"), "o")
		for _, l := range jobs[i][1:] {
			if l > 0 {
				set(lvl(l, "key"), fmt.Sprint("at ", l))
			}
		}
		br := st.BR()
		for _, q := range []string{lvl(n, "key"), lvl(n-1, "key"), lvl(n, "x.y.key"), lvl(n/2, "z.key"), lvl(n, "none")} {
			if err := brLook("BR", br, r, q, r.up(q)); err != nil {
				return 1, err
			}
			hits := []string{""}
			if r.exists(q) {
				hits = []string{q}
			}
			if err := brLook("root.", st, r, q, hits); err != nil {
				return 1, err
			}
		}
		v := st.WithPrefix(lvl(n/2, "")[:max(0, len(lvl(n/2, ""))-1)]).BR()
		if q := lvl(n, "key"); n > 1 {
			rest := strings.TrimPrefix(q, v.Prefix()+".")
			return 12, brLook("BR view", v, r, rest, r.up(q))
		}
		return 10, nil
	})
}

func runC15(c *eng.Ctx) {
	upDeep(c)
	modes := []string{"", "N", "R", "BR", "BR.N", "N.BR", "R.BR", "BR.R"}
	derive := func(st store.Store, mode string) store.Store {
		for _, m := range strings.Split(mode, ".") {
			switch m {
			case "N":
				st = st.N()
			case "R":
				st = st.R()
			case "BR":
				st = st.BR()
			}
		}
		return st
	}
	for _, f := range brFams {
		fam := family{name: f.name, keys: f.keys}
		// all of the views: mode × prefix, made before and after the prefix
		type view struct {
			name, prefix string
			st           store.Store
			up           bool
		}
		var prefixes []string
		seen := map[string]bool{"": true}
		for _, q := range f.query {
			a := strings.Split(q, f.d)
			for i := 1; i < len(a); i++ {
				if p := strings.Join(a[:i], f.d); !seen[p] {
					seen[p] = true
					prefixes = append(prefixes, p)
				}
			}
		}
		views := func(w *world) []*view {
			if v, ok := w.extra["views"]; ok {
				return v.([]*view)
			}
			var ret []*view
			for _, m := range modes {
				up := strings.HasSuffix(m, "BR")
				ret = append(ret, &view{"root." + m, "", derive(w.st, m), up})
				if m != "" && m != "BR" {
					continue
				}
				for _, p := range prefixes {
					ret = append(ret, &view{fmt.Sprintf("WithPrefix(%q).%s", p, m), p, derive(w.st.WithPrefix(p), m), up})
					if m == "BR" {
						ret = append(ret, &view{fmt.Sprintf("%s.WithPrefix(%q)", m, p), p, derive(w.st, m).WithPrefix(p), up})
					}
				}
			}
			w.extra = map[string]any{"views": ret}
			return ret
		}
		obs := func(w *world) error {
			if err := w.obsWalk(); err != nil {
				return err
			}
			for _, v := range views(w) {
				wantMode := radix.RecusiveNone
				if strings.HasSuffix(v.name, ".R") {
					wantMode = radix.RecusiveDown
				} else if v.up {
					wantMode = radix.RecusiveUp
				}
				if got := v.st.RecursiveMode(); got != wantMode {
					return errf("%s: RecursiveMode = %v, want %v", v.name, got, wantMode)
				}
				for _, q := range f.query {
					p := q
					if v.prefix != "" {
						if p = strings.TrimPrefix(q, v.prefix+f.d); p == q {
							continue
						}
					}
					hits := []string{""}
					if v.up {
						hits = w.r.up(q)
					} else if w.r.exists(q) {
						hits = []string{q}
					}
					if err := brLook(v.name, v.st, w.r, p, hits); err != nil {
						return err
					}
				}
			}
			return nil
		}
		ops := stdOps(fam)
		// writes through a view in the recursive-up mode touch the very path only
		for _, q := range f.query {
			ops = append(ops, eng.Op[world]{Name: fmt.Sprintf("BR.Remove(%q)", q), Do: func(w *world) error {
				had := w.r.exists(q)
				w.r.remove(q)
				if got := w.st.BR().Remove(q); got != had {
					return errf("BR.Remove(%q) = %v, want %v; keys: %v", q, got, had, w.r.keys())
				}
				return nil
			}})
			ops = append(ops, eng.Op[world]{Name: fmt.Sprintf("BR.SetComment/SetTag(%q)", q), Do: func(w *world) error {
				br := w.st.BR()
				_, isKey := w.r.m[q]
				if !isKey && w.r.exists(q) {
					return nil // not claimed for sections
				}
				ok1, ok2 := br.SetComment(q, "d", "c"), br.SetTag(q, "t")
				if ok1 != isKey || ok2 != isKey {
					return errf("BR.SetComment(%q) = %v, SetTag = %v, want %v; keys: %v", q, ok1, ok2, isKey, w.r.keys())
				}
				if isKey {
					e := w.r.m[q]
					e.desc, e.comment, e.tag = "d", "c", "t"
				}
				return w.metaSame()
			}})
			if state := q; true {
				ops = append(ops, eng.Op[world]{Name: fmt.Sprintf("BR.SetTTL(%q)", q), Do: func(w *world) error {
					if w.r.exists(state) {
						return nil
					}
					br := w.st.BR()
					if got := br.SetTTL(state, 1<<40, nil); got == 0 {
						br.Close()
						return errf("BR.SetTTL(%q) = 0 for an absent path; keys: %v", state, w.r.keys())
					}
					return nil
				}})
			}
		}
		for i, k := range f.keys {
			ops = append(ops, eng.Op[world]{Name: fmt.Sprintf("BR.Set(%q)", k), Do: func(w *world) error {
				v := fmt.Sprintf("v%d", i)
				had := w.r.isKey(k)
				old, _ := w.r.set(k, v)
				w.r.m[k].mod = true
				if n, o := w.st.BR().Set(k, v); n == nil || n.Key() != k || had && !eq(o, old) || !had && o != nil {
					return errf("BR.Set(%q): node and old value %s, want %s", k, show(o), show(old))
				}
				return nil
			}})
		}
		s := &eng.Sys[world]{Name: "up/" + f.name, New: func() *world { return newWorld(fam, f.d) }, Obs: obs, Key: (*world).key, Ops: ops}
		eng.BFS(c, s, pick(c, 4, 0), pick(c, 30000, 600000))
		s2 := *s
		s2.Name, s2.Ops = "up-dfs/"+f.name, ops[:2*len(f.keys)]
		eng.DFS(c, &s2, pick(c, 3, 4))
	}
}

// metaSame compares the metadata of all keys with the model.
func (w *world) metaSame() error {
	var bad error
	w.st.Walk("", func(path, fragment string, n radix.Node[any]) {
		if e, ok := w.r.m[n.Key()]; ok && n.IsLeaf() && (n.Description() != e.desc || n.Comment() != e.comment || !eq(n.Tag(), e.tag)) {
			bad = errf("metadata of %q: %q %q %v, want %q %q %v", n.Key(), n.Description(), n.Comment(), n.Tag(), e.desc, e.comment, e.tag)
		}
	})
	return bad
}
