package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C16", runC16, "at each position below the same literal or pattern prefix there is at most one name of a :name pattern (as in other routers)",
		"the segments of the queried paths are not empty and do not start with : or *",
		"which one of several matching patterns wins is not claimed, only that a literal route wins over all of them")
}

type routeFam struct {
	name   string
	d      string
	routes []string
	alpha  []string // segments of the queried paths
	maxSeg int
}

var routeFams = []routeFam{
	{"base", "/", []string{"/a", "/a/:x", "/a/:x/b", "/a/:x/:y", "/a/b", "/a/b/c", "/ab/:x", "/a/b/:z"}, []string{"a", "b", "c", "ab", "bc"}, 4},
	{"root", "/", []string{"/:v", "/:v/b", "/a/b", "/a", "/:v/:w/c", "/a/:x/d"}, []string{"a", "b", "c", "d", "aa"}, 4},
	{"wild", "/", []string{"/s/*rest", "/s/lit", "/s", "/st/:id", "/s/lit/:k", "/t/*all", "/s/lion"}, []string{"s", "t", "st", "lit", "li", "x"}, 4},
	{"blog", "/", []string{"/blog/:year/:month/:post", "/blog/:year", "/blog/:year/archive", "/blog/latest", "/blog/:year/:month", "/blog/late"}, []string{"blog", "late", "latest", "archive", "2011"}, 4},
	{"dots", ".", []string{"a.:x.k", "a.:x", "a.b.k", "a.:x.k.:y", "a.bb", "c.*r"}, []string{"a", "b", "bb", "k", "c"}, 4},
	{"uni", "/", []string{"/日/:名", "/日/:名/本", "/日本/:名", "/日/本", "/木/*残"}, []string{"日", "本", "日本", "木", "é"}, 4},
	{"tail", "/", []string{"/id/:id/", "/id/:id/x", "/b/:p/c/", "/b/:p/c/:q", "/id/all/", "/w/*r"}, []string{"id", "b", "c", "x", "all", "w"}, 4},
	{"long", "/", []string{"/u/:identifier", "/u/:identifier/x", "/u/:identifier/profile", "/u/:identifier/p/:q", "/u/me"}, []string{"u", "x", "me", "p", "profile", "averyveryverylongsegment"}, 4},
	// an ident starts behind a delimiter only
	{"mid", "/", []string{"/x/:a/b:c", "/x/:a/b*c", "/x/:a/b", "/x/y:z/:k", "/x/y:z", "/x/:a/b:c/:d", "/x/y*"}, []string{"x", "b", "b2", "b:c", "b*c", "y:z", "y*", "yz"}, 4},
}

// paths: all of the paths over the alphabet.
func (f routeFam) paths() (ret []string) {
	lead := ""
	if f.d == "/" {
		lead = "/"
	}
	level := []string{""}
	for n := 0; n < f.maxSeg; n++ {
		var next []string
		for _, p := range level {
			for _, s := range f.alpha {
				q := p + s
				if p != "" {
					q = p + f.d + s
				}
				next = append(next, q)
				ret = append(ret, lead+q)
				if f.name == "tail" {
					ret = append(ret, lead+q+f.d)
				}
			}
		}
		level = next
	}
	return
}

// match is the oracle for one route.
func match(route, path, d string) (ok bool, kv map[string]string) {
	rs, ps := strings.Split(route, d), strings.Split(path, d)
	kv = map[string]string{}
	for i, r := range rs {
		if i >= len(ps) {
			return false, nil
		}
		switch {
		case ps[i] == "" && strings.HasPrefix(r, ":"), strings.HasPrefix(r, "*") && i == len(rs)-1 && ps[i] == "":
			return false, nil // a pattern matches at least one character
		case strings.HasPrefix(r, "*") && i == len(rs)-1:
			kv[r[1:]] = strings.Join(ps[i:], d)
			return true, kv
		case strings.HasPrefix(r, ":"):
			kv[r[1:]] = ps[i]
		case r != ps[i]:
			return false, nil
		}
	}
	return len(rs) == len(ps), kv
}

func sameKV(got radix.KVPair, want map[string]string, exact bool) bool {
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return false
		}
	}
	return !exact || len(got) == len(want)
}

// verdict is what one route says about one path.
type verdict struct {
	ok      bool              // it matches
	opt     bool              // it matches if the trailing delimiter of the route is ignored
	section bool              // the path is a section of the route
	kv      map[string]string // the captures
}

// table: all of the verdicts, by path and route.
func (f routeFam) table(paths []string) (ret []map[string]verdict) {
	for _, p := range paths {
		m := map[string]verdict{}
		for _, k := range f.routes {
			v := verdict{}
			if k == p {
				v.ok, v.kv = true, map[string]string{}
			} else if v.ok, v.kv = match(k, p, f.d); !v.ok && strings.HasSuffix(k, f.d) {
				v.opt, v.kv = match(k, p+f.d, f.d)
			}
			for rs := strings.Split(k, f.d); len(rs) > 1 && !v.section; {
				rs = rs[:len(rs)-1]
				v.section, _ = match(strings.Join(rs, f.d), p, f.d)
			}
			if v.ok || v.opt || v.section {
				m[k] = v
			}
		}
		ret = append(ret, m)
	}
	return
}

func (w *world) obsRoutes(paths []string, table []map[string]verdict) error {
	q := w.st.(querier)
	for i, p := range paths {
		var hits, opt []string
		caps := map[string]map[string]string{}
		section := false // a section of routes, too: whether the section or a pattern wins is not claimed
		for k, v := range table[i] {
			if !w.r.isKey(k) {
				continue
			}
			section = section || v.section
			if v.ok {
				hits, caps[k] = append(hits, k), v.kv
			} else if v.opt { // a route with a trailing delimiter may match a path without it
				opt, caps[k] = append(opt, k), v.kv
			}
		}
		if w.r.isKey(p) {
			hits, opt, section = []string{p}, nil, false
			caps = map[string]map[string]string{p: {}}
		}
		kv := radix.KVPair{}
		node, _, partial, found := w.st.Locate(p, kv)
		isRoute := found && !partial && node.IsLeaf()
		if isRoute != (len(hits) > 0) && !(section && !isRoute) && !(len(opt) > 0) {
			return errf("Locate(%q): found a route = %v (found %v, partial %v), want one of %v; routes: %v", p, isRoute, found, partial, hits, w.r.keys())
		}
		if isRoute {
			want, ok := caps[node.Key()]
			if !ok {
				return errf("Locate(%q) = %q, want one of %v; routes: %v", p, node.Key(), hits, w.r.keys())
			}
			if !sameKV(kv, want, true) {
				return errf("Locate(%q) = %q captures %v, want %v; routes: %v", p, node.Key(), kv, want, w.r.keys())
			}
			if !eq(node.Data(), w.r.m[node.Key()].val) {
				return errf("Locate(%q) = %q has the data %s", p, node.Key(), show(node.Data()))
			}
		}
		kv = radix.KVPair{}
		data, branch, found, err := q.Query(p, kv)
		isRoute2 := found && !branch
		if isRoute2 != isRoute || (err == nil) != found {
			return errf("Query(%q): found = %v, branch = %v, err = %v, want one of %v; routes: %v", p, found, branch, err, hits, w.r.keys())
		}
		if isRoute2 {
			good := false
			for _, h := range append(hits, opt...) {
				good = good || eq(data, w.r.m[h].val) && sameKV(kv, caps[h], true)
			}
			if !good {
				return errf("Query(%q) = %s captures %v, want one of %v; routes: %v", p, show(data), kv, caps, w.r.keys())
			}
		}
	}
	return nil
}

// longRoutes: names and values of all lengths up to a bound, and routes of many segments.
func longRoutes(c *eng.Ctx) {
	n := pick(c, 140, 300)
	forms := []string{"/u/:N", "/u/:N/x", "/u/:N/:M", "/s/*N", "/:N", "/u/:N/x/*M"}
	one := func(routes []string, path, hit string, caps map[string]string) error {
		t := radix.NewTrieBy[any]('/')
		for i, r := range routes {
			t.Set(r, i)
		}
		kv := radix.KVPair{}
		v, branch, found, err := t.Query(path, kv)
		if !found || branch || err != nil || v != any(0) || !sameKV(kv, caps, true) {
			return errf("Query(%q) = %s, branch %v, found %v, %v, captures %v, want %v; routes: %q", path, show(v), branch, found, err, kv, caps, routes)
		}
		kv = radix.KVPair{}
		node, _, partial, found := t.Locate(path, kv)
		if !found || partial || node.Key() != hit || !sameKV(kv, caps, true) {
			return errf("Locate(%q): found %v, partial %v, captures %v, want %q, %v; routes: %q", path, found, partial, kv, hit, caps, routes)
		}
		return nil
	}
	text := func(a string, n int) string { return strings.Repeat(a, n/2+1)[:n] }
	eng.Enum(c, "long", len(forms)*n*n, func(i int) string {
		return fmt.Sprintf("the route %q with a name of %d and a value of %d characters", forms[i%len(forms)], i/len(forms)/n+1, i/len(forms)%n+1)
	}, func(i int) (int, error) {
		f := forms[i%len(forms)]
		nl, vl := i/len(forms)/n+1, i/len(forms)%n+1
		name, val := text("nm", nl), text("vx", vl)
		route := strings.NewReplacer("N", name, "M", "m"+name).Replace(f)
		path := strings.NewReplacer(":N", val, ":M", "w"+val, "*N", val+"/"+val, "*M", val+"/z").Replace(f)
		caps := map[string]string{name: val}
		switch {
		case strings.Contains(f, "*N"):
			caps[name] = val + "/" + val
		case strings.Contains(f, ":M"):
			caps["m"+name] = "w" + val
		case strings.Contains(f, "*M"):
			caps["m"+name] = val + "/z"
		}
		if err := one([]string{route}, path, route, caps); err != nil {
			return 1, err
		}
		return 2, one([]string{route, "/u2", "/u/q/literal", "/s/literal"}, path, route, caps)
	})
	// many segments: each one is literal or a pattern
	segs := pick(c, 11, 15)
	eng.Enum(c, "segments", 1<<segs, func(i int) string { return fmt.Sprintf("a route of %d segments, the patterns are %b", segs, i) }, func(i int) (int, error) {
		var route, path strings.Builder
		caps := map[string]string{}
		for j := 0; j < segs; j++ {
			if i>>j&1 != 0 {
				name, val := fmt.Sprintf("n%d", j), fmt.Sprintf("val%d", j)
				caps[name] = val
				_, _ = route.WriteString("/:" + name)
				_, _ = path.WriteString("/" + val)
			} else {
				_, _ = fmt.Fprintf(&route, "/lit%d", j)
				_, _ = fmt.Fprintf(&path, "/lit%d", j)
			}
		}
		r := route.String()
		if err := one([]string{r}, path.String(), r, caps); err != nil {
			return 1, err
		}
		return 2, one([]string{r, r + "/more", r + "/:less"}, path.String(), r, caps)
	})
}

func runC16(c *eng.Ctx) {
	longRoutes(c)
	for _, rf := range routeFams {
		fam := family{name: rf.name, keys: rf.routes}
		paths := rf.paths()
		table := rf.table(paths)
		s := &eng.Sys[world]{Name: "routes/" + rf.name, New: func() *world { return newWorld(fam, rf.d) },
			Obs: func(w *world) error { return w.obsRoutes(paths, table) }, Key: (*world).key}
		for i, k := range rf.routes {
			s.Ops = append(s.Ops, opSet(k, fmt.Sprintf("r%d", i)))
		}
		for _, k := range rf.routes {
			s.Ops = append(s.Ops, opRemove(k))
		}
		eng.BFS(c, s, pick(c, 4, 0), pick(c, 30000, 1000000))
	}
}
