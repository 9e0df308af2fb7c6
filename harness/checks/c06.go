package checks

import (
	"fmt"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C06", runC06, "metadata of sections (paths without a key of their own) is not claimed, except that setting it does not affect any key")
}

// trieAPI is the part of the trie API which a store offers too.
type trieAPI interface {
	SetNode(path string, data any, tag any, descriptionAndComments ...string) (ret radix.Node[any], oldData any)
	SetEmpty(path string) (oldData any)
	Insert(path string, data any) (oldData any)
	RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any], removed bool)
}

// obsMeta: the metadata, for all of the probes.
func (w *world) obsMeta(st store.Store, prefix string, probes []string) error {
	for _, p := range probes {
		desc, e1 := st.GetDesc(p)
		comment, e2 := st.GetComment(p)
		tag, e3 := st.GetTag(p)
		mdesc, mcomment, mtag := st.MustGetDesc(p), st.MustGetComment(p), st.MustGetTag(p)
		full := p
		if prefix != "" {
			full = prefix + w.r.d + p
		}
		if e, ok := w.r.m[full]; ok {
			if e1 != nil || e2 != nil || e3 != nil || desc != e.desc || comment != e.comment || !eq(tag, e.tag) ||
				mdesc != e.desc || mcomment != e.comment || !eq(mtag, e.tag) {
				return errf("metadata of %q: GetDesc = %q,%v GetComment = %q,%v GetTag = %s,%v (Must: %q %q %s), want %q %q %s; keys: %v",
					full, desc, e1, comment, e2, show(tag), e3, mdesc, mcomment, show(mtag), e.desc, e.comment, show(e.tag), w.r.keys())
			}
		} else if !w.r.isSection(full) {
			if e1 == nil || e2 == nil || e3 == nil || !store.ErrorIsNotFound(e1) || !store.ErrorIsNotFound(e2) || !store.ErrorIsNotFound(e3) ||
				desc != "" || comment != "" || tag != nil || mdesc != "" || mcomment != "" || mtag != nil {
				return errf("metadata of the absent path %q: GetDesc = %q,%v GetComment = %q,%v GetTag = %s,%v; keys: %v", full, desc, e1, comment, e2, show(tag), e3, w.r.keys())
			}
		}
	}
	return nil
}

// obsMetaWalk: the metadata as seen by the nodes of a walk.
func (w *world) obsMetaWalk() (err error) {
	w.st.Walk("", func(path, fragment string, n radix.Node[any]) {
		if e, ok := w.r.m[n.Key()]; ok && n.IsLeaf() && (n.Description() != e.desc || n.Comment() != e.comment || !eq(n.Tag(), e.tag) || !eq(n.Data(), e.val)) {
			err = errf("Walk: the node of %q has %q %q %s %s, want %q %q %s %s", n.Key(), n.Description(), n.Comment(), show(n.Tag()), show(n.Data()), e.desc, e.comment, show(e.tag), show(e.val))
		}
	})
	return
}

func (w *world) setComment(st store.Store, prefix, p, desc, comment string) error {
	full := p
	if prefix != "" {
		full = prefix + w.r.d + p
	}
	ok := st.SetComment(p, desc, comment)
	if e, is := w.r.m[full]; is {
		e.desc, e.comment = desc, comment
		if !ok {
			return errf("SetComment(%q) = false for a key", full)
		}
	} else if ok && !w.r.isSection(full) {
		return errf("SetComment(%q) = true for an absent path; keys: %v", full, w.r.keys())
	}
	return nil
}

func (w *world) setTag(st store.Store, prefix, p string, tag any) error {
	full := p
	if prefix != "" {
		full = prefix + w.r.d + p
	}
	ok := st.SetTag(p, tag)
	if e, is := w.r.m[full]; is {
		e.tag = tag
		if !ok {
			return errf("SetTag(%q) = false for a key", full)
		}
	} else if ok && !w.r.isSection(full) {
		return errf("SetTag(%q) = true for an absent path; keys: %v", full, w.r.keys())
	}
	return nil
}

func opComment(p, desc, comment string) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("SetComment(%q,%q,%q)", p, desc, comment), Do: func(w *world) error { w.step++; return w.setComment(w.st, "", p, desc, comment) }}
}

func opTag(p string, tag any) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("SetTag(%q,%v)", p, tag), Do: func(w *world) error { w.step++; return w.setTag(w.st, "", p, tag) }}
}

// opSetNode sets all of the fields by the trie API.
func opSetNode(k string, v, tag any, dc ...string) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("SetNode(%q,%v,%v,%q)", k, v, tag, dc), Do: func(w *world) error {
		w.step++
		n, _ := w.st.(trieAPI).SetNode(k, v, tag, dc...)
		w.r.set(k, v)
		e := w.r.m[k]
		e.tag = tag
		if len(dc) > 0 {
			e.desc = dc[0]
		}
		if len(dc) > 1 {
			e.comment = strings.Join(dc[1:], "\n")
		}
		if n == nil || n.Key() != k {
			return errf("SetNode(%q) returned %v", k, n)
		}
		return nil
	}}
}

func opSetEmpty(k string) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("SetEmpty(%q)", k), Do: func(w *world) error {
		w.step++
		w.st.(trieAPI).SetEmpty(k)
		w.r.set(k, nil)
		w.r.m[k].tag = nil
		return nil
	}}
}

// opNode sets the metadata by the node.
func opNode(k string) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("node(%q).Set*", k), En: func(w *world) bool { return w.r.isKey(k) }, Do: func(w *world) error {
		w.step++
		calls := 0
		w.st.GetEx(k, func(n radix.Node[any], data any, branch bool, kvpair radix.KVPair) {
			calls++
			n.SetComment("nd", "nc")
			n.SetTag("nt")
			n.SetData("nv")
		})
		if calls != 1 {
			return errf("GetEx(%q) called back %d times", k, calls)
		}
		e := w.r.m[k]
		e.desc, e.comment, e.tag, e.val = "nd", "nc", "nt", "nv"
		return nil
	}}
}

// opNodeMeta sets or clears the metadata by the node.
func opNodeMeta(k string, desc, comment string, tag any) eng.Op[world] {
	return eng.Op[world]{Name: fmt.Sprintf("node(%q).SetComment(%q,%q).SetTag(%v)", k, desc, comment, tag), En: func(w *world) bool { return w.r.isKey(k) }, Do: func(w *world) error {
		w.step++
		n, _, _, found := w.st.Locate(k, nil)
		if !found || n.Key() != k {
			return errf("Locate(%q) found %v", k, found)
		}
		n.SetComment(desc, comment)
		n.SetTag(tag)
		e := w.r.m[k]
		e.desc, e.comment, e.tag = desc, comment, tag
		return nil
	}}
}

// metaValues: all values of the metadata, set one after another by all means.
func metaValues(c *eng.Ctx) {
	texts := []string{"", "d", "two\nlines", "日本"}
	tags := []any{nil, "", "t", 0, false, []string{"x"}, map[string]any{"k": 1}}
	keys := []string{"a.b", "a", "a.bc"}
	how := []string{"store", "node", "SetNode"}
	n := len(texts) * len(texts) * len(tags) * len(how)
	at := func(i int) (h, desc, comment string, tag any) {
		return how[i%3], texts[i/3%4], texts[i/12%4], tags[i/48%len(tags)]
	}
	eng.Enum(c, "meta-values", n*n, func(i int) string {
		h1, d1, c1, t1 := at(i % n)
		h2, d2, c2, t2 := at(i / n)
		return fmt.Sprintf("%s: %q %q %v, then %s: %q %q %v", h1, d1, c1, t1, h2, d2, c2, t2)
	}, func(i int) (int, error) {
		w := newWorld(family{}, ".")
		for j, k := range keys {
			_ = w.set(k, j)
		}
		_ = w.setComment(w.st, "", "a.bc", "od", "oc")
		for j, x := range []int{i % n, i / n} {
			h, desc, comment, tag := at(x)
			for _, k := range keys[:2] {
				var err error
				switch h {
				case "store":
					if err = w.setComment(w.st, "", k, desc, comment); err == nil {
						err = w.setTag(w.st, "", k, tag)
					}
				case "node":
					err = opNodeMeta(k, desc, comment, tag).Do(w)
				case "SetNode":
					err = opSetNode(k, j, tag, desc, comment).Do(w)
				}
				if err != nil {
					return j + 1, err
				}
			}
			if err := w.obsMeta(w.st, "", append(probesOf(keys, "."), "x")); err != nil {
				return j + 1, err
			}
			if err := w.obsMetaWalk(); err != nil {
				return j + 1, err
			}
		}
		return 4, nil
	})
}

// C06: the metadata is bound to its key.
func runC06(c *eng.Ctx) {
	scaleMeta(c)
	metaValues(c)
	for _, f := range families {
		all := append(append([]string{}, f.keys...), f.pre...)
		probes := probesOf(all, ".")
		if len(probes) > 50 {
			probes = append(append([]string{}, all...), sections(all, ".")...)
		}
		obs := func(w *world) error {
			if err := w.obsGet(all); err != nil {
				return err
			}
			if err := w.obsMeta(w.st, "", probes); err != nil {
				return err
			}
			return w.obsMetaWalk()
		}
		mk := func(name string, ops []eng.Op[world]) *eng.Sys[world] {
			return &eng.Sys[world]{Name: name + "/" + f.name, New: func() *world { return newWorld(f, ".") }, Obs: obs, Key: (*world).key, Ops: ops}
		}
		// 1. all states: each key is absent, plain, or has metadata
		var ops []eng.Op[world]
		for i, k := range f.keys {
			ops = append(ops, opSet(k, i), opRemove(k), opComment(k, "d-"+k, "c-"+k), opTag(k, "t-"+k))
		}
		eng.BFS(c, mk("meta", ops), pick(c, 5, 6), pick(c, 100000, 3000000))
		// 2. all ways to set metadata, on all paths
		ops = nil
		for i, k := range f.keys {
			ops = append(ops, opSet(k, i), opRemove(k), opSetNode(k, 100+i, "T-"+k), opSetNode(k, 200+i, nil, "D"), opSetNode(k, 300+i, 3, "D2-"+k, "C2"), opSetNode(k, 400+i, 4, "", "C4", "C5-"+k, "", "C7"), opSetEmpty(k), opNode(k), opNodeMeta(k, "", "", nil), opNodeMeta(k, "", "nc2", ""))
		}
		for _, p := range probes {
			if !contains(all, p) && !strings.HasSuffix(p, "x") {
				ops = append(ops, opComment(p, "bad", "bad"), opTag(p, "bad"))
			}
		}
		eng.DFS(c, mk("ways", ops), pick(c, 2, 3))
		// 3. one key with metadata, all histories of the others
		for i, k := range f.keys {
			if !c.Thorough && i > 2 {
				break
			}
			ops = []eng.Op[world]{opComment(k, "d1", "c1"), opTag(k, 1), opComment(k, "", "c2"), opTag(k, nil)}
			for _, l := range f.keys {
				ops = append(ops, opSet(l, 1))
				if l != k {
					ops = append(ops, opRemove(l))
				}
			}
			s := mk("one-"+fmt.Sprint(i), ops)
			s.New = func() *world {
				w := newWorld(f, ".")
				_ = w.set(k, 0)
				_ = w.setComment(w.st, "", k, "d0", "c0")
				_ = w.setTag(w.st, "", k, "t0")
				return w
			}
			eng.BFS(c, s, pick(c, 6, 8), pick(c, 30000, 600000))
		}
	}
}
