package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C23", runC23, "a node is bound to its key until the key is removed, the nodes of removed keys are not used any more",
		"an update sets the value by the node in its callback")
}

type nodeSetter interface {
	SetNode(path string, data any, tag any, descriptionAndComments ...string) (ret radix.Node[any], oldData any)
	SetEx(path string, data any, cb radix.OnSetEx[any]) (oldData any)
	Update(path string, cb func(node radix.Node[any], old any))
}

type handle struct {
	how string
	n   radix.Node[any]
}

type handleWorld struct {
	world
	held map[string][]handle // the nodes handed out since the key is alive
}

func (w *handleWorld) hold(k, how string, n radix.Node[any]) error {
	if n == nil {
		return errf("%s gave no node for %q", how, k)
	}
	if n.Key() != k {
		return errf("%s gave the node %q for %q", how, n.Key(), k)
	}
	w.held[k] = append(w.held[k], handle{how, n})
	return nil
}

// gather takes the nodes of all live keys by all means.
func (w *handleWorld) gather() (err error) {
	for _, k := range w.r.keys() {
		if len(w.held[k]) > 1 {
			continue
		}
		n, _, _, found := w.st.Locate(k, nil)
		if !found {
			return errf("Locate(%q) finds nothing", k)
		}
		if err = w.hold(k, "Locate", n); err != nil {
			return
		}
		calls := 0
		w.st.GetEx(k, func(node radix.Node[any], data any, branch bool, _ radix.KVPair) {
			calls++
			if err = w.hold(k, "GetEx", node); err == nil && (branch || !eq(data, w.r.m[k].val)) {
				err = errf("GetEx(%q) gave data %s, branch %v", k, show(data), branch)
			}
		})
		if err == nil && calls != 1 {
			err = errf("GetEx(%q) called back %d times", k, calls)
		}
		if err != nil {
			return
		}
		if i := strings.LastIndex(k, "."); i > 0 {
			calls = 0
			w.st.WithPrefix(k[:i]).GetEx(k[i+1:], func(node radix.Node[any], data any, branch bool, _ radix.KVPair) {
				calls++
				err = w.hold(k, "view.GetEx", node)
			})
			if err == nil && calls != 1 {
				err = errf("GetEx(%q) by a view called back %d times", k, calls)
			}
			if err != nil {
				return
			}
		}
	}
	w.st.Walk("", func(path, fragment string, n radix.Node[any]) {
		if k := n.Key(); n.IsLeaf() && len(w.held[k]) < 8 && w.r.isKey(k) {
			w.held[k] = append(w.held[k], handle{"Walk", n})
		}
	})
	return
}

func (w *handleWorld) obs(probes []string) error {
	for k, hs := range w.held {
		e, ok := w.r.m[k]
		if !ok {
			continue
		}
		for _, h := range hs {
			n := h.n
			if n.Key() != k || !n.IsLeaf() || n.IsBranch() || !n.HasData() || n.Empty() {
				return errf("the node of %q (by %s) has the key %q, leaf %v, has data %v; keys: %v", k, h.how, n.Key(), n.IsLeaf(), n.HasData(), w.r.keys())
			}
			if !eq(n.Data(), e.val) || n.Description() != e.desc || n.Comment() != e.comment || !eq(n.Tag(), e.tag) || n.Modified() != e.mod {
				return errf("the node of %q (by %s) shows %s %q %q %v %v, want %s %q %q %v %v; keys: %v", k, h.how, show(n.Data()), n.Description(), n.Comment(), n.Tag(), n.Modified(),
					show(e.val), e.desc, e.comment, e.tag, e.mod, w.r.keys())
			}
			piece := []rune(n.KeyPiece())
			if !strings.HasSuffix(k, n.KeyPiece()) || len(piece) == 0 {
				return errf("the node of %q (by %s) has the piece %q", k, h.how, n.KeyPiece())
			}
			first, last := piece[0], piece[len(piece)-1]
			if !n.StartsWith(first) || !n.EndsWith(last) || n.StartsWith(last) != (first == last) || n.EndsWith(first) != (first == last) || n.StartsWith(0) || n.EndsWith(0) {
				return errf("the node of %q (by %s) with the piece %q: StartsWith %v %v, EndsWith %v %v", k, h.how, n.KeyPiece(), n.StartsWith(first), n.StartsWith(last), n.EndsWith(last), n.EndsWith(first))
			}
			// a copy of the node is a node of its own
			d := n.Dup()
			if d.Key() != k || d.KeyPiece() != n.KeyPiece() || !eq(d.Data(), e.val) || d.Description() != e.desc || d.Comment() != e.comment || !eq(d.Tag(), e.tag) || d.Modified() != e.mod || !d.IsLeaf() || !d.HasData() {
				return errf("the copy of the node of %q (by %s) is %q: %s %q %q %v %v, want %s %q %q %v %v", k, h.how, d.Key(), show(d.Data()), d.Description(), d.Comment(), d.Tag(), d.Modified(),
					show(e.val), e.desc, e.comment, e.tag, e.mod)
			}
			d.Walk(func(path, fragment string, n radix.Node[any]) { // what is written to it is seen nowhere else
				n.SetData("copy")
				n.SetTag("copy")
				n.SetComment("copy", "copy")
				n.ToggleModified()
			})
			// the keys below the node
			var got, want []string
			n.Walk(func(path, fragment string, n radix.Node[any]) {
				if n.IsLeaf() && (n.Key() == k || strings.HasPrefix(n.Key(), k+".")) {
					got = append(got, n.Key())
				}
			})
			want = w.r.under(k)
			sort.Strings(got)
			if strings.Join(got, " ") != strings.Join(want, " ") {
				return errf("the node of %q (by %s) has %v below it, want %v", k, h.how, got, want)
			}
		}
	}
	for _, k := range w.r.keys() {
		e := w.r.m[k]
		if v, ok := w.st.Get(k); !ok || !eq(v, e.val) {
			return errf("Get(%q) = %s, %v, want %s", k, show(v), ok, show(e.val))
		}
		if w.st.MustGetDesc(k) != e.desc || w.st.MustGetComment(k) != e.comment || !eq(w.st.MustGetTag(k), e.tag) {
			return errf("%q has %q %q %v, want %q %q %v", k, w.st.MustGetDesc(k), w.st.MustGetComment(k), w.st.MustGetTag(k), e.desc, e.comment, e.tag)
		}
	}
	for _, p := range probes {
		if !w.r.exists(p) {
			calls := 0
			w.st.GetEx(p, func(node radix.Node[any], data any, branch bool, _ radix.KVPair) { calls++ })
			if calls != 0 {
				return errf("GetEx(%q) of an absent path called back", p)
			}
		} else if !w.r.isKey(p) && p != "" { // a section
			calls, err := 0, error(nil)
			w.st.GetEx(p, func(node radix.Node[any], data any, branch bool, _ radix.KVPair) {
				calls++
				if node == nil || !branch || data != nil {
					err = errf("GetEx(%q) of a section gave the node %v, data %s, branch %v", p, node, show(data), branch)
					return
				}
				// the keys of the section are below the node
				var got, want []string
				node.Walk(func(path, fragment string, n radix.Node[any]) {
					if n.IsLeaf() && strings.HasPrefix(n.Key(), strings.TrimSuffix(p, ".")+".") {
						got = append(got, n.Key())
					}
				})
				for _, k := range w.r.keys() {
					if strings.HasPrefix(k, strings.TrimSuffix(p, ".")+".") {
						want = append(want, k)
					}
				}
				sort.Strings(want)
				sort.Strings(got)
				if strings.Join(got, " ") != strings.Join(want, " ") {
					err = errf("the node of the section %q has %v below it, want %v", p, got, want)
				}
			})
			if err != nil {
				return err
			}
			if calls > 1 { // not every section has a node of its own
				return errf("GetEx(%q) of a section called back %d times; keys: %v", p, calls, w.r.keys())
			}
		}
	}
	if err := w.obsWalk(); err != nil {
		return err
	}
	return w.gather()
}

func (w *handleWorld) drop() {
	for k := range w.held {
		if !w.r.isKey(k) {
			delete(w.held, k)
		}
	}
}

func handleSys(f family, meta bool) *eng.Sys[handleWorld] {
	all := append(append([]string{}, f.keys...), f.pre...)
	probes := probesOf(all, ".")
	s := &eng.Sys[handleWorld]{Name: "handles/" + f.name,
		New: func() *handleWorld { return &handleWorld{world: *newWorld(f, "."), held: map[string][]handle{}} },
		Obs: func(w *handleWorld) error { return w.obs(probes) },
		Key: func(w *handleWorld) string {
			var sb strings.Builder
			for _, k := range sorted2(w.held) {
				fmt.Fprintf(&sb, "%s:", k)
				n, _, _, _ := w.st.Locate(k, nil)
				for _, h := range w.held[k] {
					fmt.Fprint(&sb, h.how, h.n == radix.Node[any](n), " ")
				}
			}
			return w.key() + sb.String()
		},
	}
	add := func(name string, do func(w *handleWorld) error) {
		s.Ops = append(s.Ops, eng.Op[handleWorld]{Name: name, Do: func(w *handleWorld) error {
			w.step++
			err := do(w)
			w.drop()
			return err
		}})
	}
	made := func(w *handleWorld, k string, v any) (old any) {
		was := w.r.isKey(k)
		old, _ = w.r.set(k, v)
		if !was {
			old = nil
		}
		return
	}
	for i, k := range f.keys {
		switch i % 4 {
		case 0, 1:
			add(fmt.Sprintf("Set(%q)", k), func(w *handleWorld) error {
				made(w, k, w.step)
				w.r.m[k].mod = true
				n, _ := w.st.Set(k, w.step)
				return w.hold(k, "Set", n)
			})
		case 2:
			add(fmt.Sprintf("SetEx(%q)", k), func(w *handleWorld) (err error) {
				v := w.step
				old := made(w, k, v)
				calls := 0
				o := w.st.(nodeSetter).SetEx(k, v, func(path string, oldData any, node radix.Node[any], trie radix.Trie[any]) {
					calls++
					if path != k || !eq(oldData, old) || !eq(node.Data(), v) {
						err = errf("SetEx(%q): the callback got path %q, old %s, data %s", k, path, show(oldData), show(node.Data()))
						return
					}
					err = w.hold(k, "SetEx", node)
				})
				if err == nil && (calls != 1 || !eq(o, old)) {
					err = errf("SetEx(%q): %d calls, old value %s, want %s", k, calls, show(o), show(old))
				}
				return
			})
		case 3:
			add(fmt.Sprintf("SetNode(%q)", k), func(w *handleWorld) error {
				made(w, k, w.step)
				e := w.r.m[k]
				e.tag, e.desc, e.comment = w.step, "d", fmt.Sprint("c", w.step)
				n, _ := w.st.(nodeSetter).SetNode(k, w.step, w.step, "d", e.comment)
				return w.hold(k, "SetNode", n)
			})
		}
		add(fmt.Sprintf("Remove(%q)", k), func(w *handleWorld) error { return w.remove(k) })
		if i == 1 || i == 4 {
			add(fmt.Sprintf("Update(%q)", k), func(w *handleWorld) (err error) {
				old := made(w, k, w.step)
				calls := 0
				w.st.(nodeSetter).Update(k, func(node radix.Node[any], o any) {
					calls++
					if !eq(o, old) {
						err = errf("Update(%q): the callback got the old value %s, want %s", k, show(o), show(old))
						return
					}
					node.SetData(w.step)
					err = w.hold(k, "Update", node)
				})
				if err == nil && calls != 1 {
					err = errf("Update(%q) called back %d times", k, calls)
				}
				return
			})
		}
	}
	// writing through the oldest and the newest handle of some keys
	by := func(k string, name string, do func(n radix.Node[any], e *ent, step int)) {
		for _, newest := range []bool{false, true} {
			s.Ops = append(s.Ops, eng.Op[handleWorld]{Name: fmt.Sprintf("node(%q).%s newest=%v", k, name, newest),
				En: func(w *handleWorld) bool { return len(w.held[k]) > 0 },
				Do: func(w *handleWorld) error {
					w.step++
					h := w.held[k][0]
					if newest {
						h = w.held[k][len(w.held[k])-1]
					}
					do(h.n, w.r.m[k], w.step)
					return nil
				}})
		}
	}
	ks := []string{f.keys[0], f.keys[len(f.keys)-2]}
	for _, k := range ks {
		by(k, "SetData", func(n radix.Node[any], e *ent, step int) { n.SetData(step); e.val = step })
		if meta {
			by(k, "SetComment", func(n radix.Node[any], e *ent, step int) {
				n.SetComment("d2", "c2")
				e.desc, e.comment = "d2", "c2"
			})
			by(k, "clear", func(n radix.Node[any], e *ent, step int) {
				n.SetComment("", "")
				n.SetTag(nil)
				n.SetData(nil)
				e.desc, e.comment, e.tag, e.val = "", "", nil, nil
			})
			by(k, "SetTag", func(n radix.Node[any], e *ent, step int) { n.SetTag("t"); e.tag = "t" })
			by(k, "SetEmpty", func(n radix.Node[any], e *ent, step int) { n.SetEmpty(); e.val, e.tag = nil, nil })
			by(k, "ToggleModified", func(n radix.Node[any], e *ent, step int) { n.ToggleModified(); e.mod = !e.mod })
			by(k, "SetModified(false)", func(n radix.Node[any], e *ent, step int) { n.SetModified(false); e.mod = false })
			by(k, "SetModified(true)", func(n radix.Node[any], e *ent, step int) { n.SetModified(true); e.mod = true })
		}
	}
	return s
}

func sorted2(m map[string][]handle) (ret []string) {
	for k := range m {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return
}

func runC23(c *eng.Ctx) {
	scaleHandles(c)
	for _, f := range families {
		s := handleSys(f, false)
		eng.DFS(c, s, pick(c, 4, 5))
		s = handleSys(f, true)
		s.Name = "meta/" + f.name
		eng.DFS(c, s, pick(c, 3, 4))
	}
	// all reachable shapes of the tree: constant values
	for _, f := range families {
		if f.name == "wide" {
			continue
		}
		all := append(append([]string{}, f.keys...), f.pre...)
		probes := probesOf(all, ".")
		s := handleSys(f, false)
		s.Name, s.Ops = "shapes/"+f.name, nil
		s.Obs = func(w *handleWorld) error { return w.obs(probes) }
		for _, k := range f.keys {
			s.Ops = append(s.Ops, eng.Op[handleWorld]{Name: fmt.Sprintf("Set(%q)", k), Do: func(w *handleWorld) error {
				w.r.set(k, k)
				w.r.m[k].mod = true
				n, _ := w.st.Set(k, k)
				if len(w.held[k]) > 0 {
					return nil // the former ones are of more interest
				}
				return w.hold(k, "Set", n)
			}}, eng.Op[handleWorld]{Name: fmt.Sprintf("Remove(%q)", k), Do: func(w *handleWorld) error {
				err := w.remove(k)
				w.drop()
				return err
			}})
		}
		eng.BFS(c, s, 0, pick(c, 6000, 200000))
	}
}
