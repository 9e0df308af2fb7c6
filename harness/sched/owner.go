package sched

import (
	"context"
	"fmt"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/vs"
)

const ownKey = "app.b.ttl"

func node(s store.Store) radix.Node[any] {
	n, _, _, found := s.Locate(ownKey, nil)
	if !found {
		return nil
	}
	return n
}

func onNode(f func(n radix.Node[any]) any) func(s, _ store.Store) any {
	return func(s, _ store.Store) any {
		if n := node(s); n != nil {
			return f(n)
		}
		return "none"
	}
}

// ownerOps are what the owner of a store may do while a time-to-live of
// one of its keys runs out. Each of them changes, or reads, one thing of
// the key, or something else.
var ownerOps = []op{
	{"Set", func(s, _ store.Store) any { n, o := s.Set(ownKey, "new"); return []any{n.Key(), o} }},
	{"Set other type", func(s, _ store.Store) any { _, o := s.Set(ownKey, []int{4, 5}); return o }},
	{"SetEx", func(s, _ store.Store) any {
		var ret any
		s.(interface {
			SetEx(string, any, radix.OnSetEx[any]) any
		}).SetEx(ownKey, 8, func(path string, old any, n radix.Node[any], _ radix.Trie[any]) { ret = []any{path, old, n.Key()} })
		return ret
	}},
	{"view.Set", func(s, _ store.Store) any { _, o := s.WithPrefix("app.b").Set("ttl", 9); return o }},
	{"SetTag", func(s, _ store.Store) any { return s.SetTag(ownKey, "tagged") }},
	{"SetComment", func(s, _ store.Store) any { return s.SetComment(ownKey, "d2", "c2") }},
	{"SetEmpty", func(s, _ store.Store) any {
		s.(interface{ SetEmpty(string) any }).SetEmpty(ownKey)
		return nil
	}},
	{"Update", func(s, _ store.Store) any {
		s.Update(ownKey, func(n radix.Node[any], _ any) { n.SetData("updated") })
		return nil
	}},
	{"Merge", func(s, _ store.Store) any { return s.Merge("app.b", map[string]any{"ttl": "merged"}) }},
	{"Remove", func(s, _ store.Store) any { return s.Remove(ownKey) }},
	{"Remove section", func(s, _ store.Store) any { return s.Remove("app.b") }},
	{"Set below", func(s, _ store.Store) any { s.Set(ownKey+".x.y", 1); return nil }},
	{"Set beside", func(s, _ store.Store) any { s.Set("app.b.ttm", 1); return nil }},
	{"Set above", func(s, _ store.Store) any { s.Set("app.bb", 1); s.Set("app.b", 5); return nil }},
	{"node.SetData", onNode(func(n radix.Node[any]) any { n.SetData("direct"); return nil })},
	{"node.SetTag", onNode(func(n radix.Node[any]) any { n.SetTag(3); return nil })},
	{"node.SetComment", onNode(func(n radix.Node[any]) any { n.SetComment("d3", "c3"); return nil })},
	{"node.SetEmpty", onNode(func(n radix.Node[any]) any { n.SetEmpty(); return nil })},
	{"node.ToggleModified", onNode(func(n radix.Node[any]) any { n.ToggleModified(); return n.Modified() })},
	{"node.SetModified", onNode(func(n radix.Node[any]) any { n.SetModified(false); return n.Modified() })},
	{"Dup and change", func(s, _ store.Store) any {
		c := s.Dup()
		v, tag := c.MustGet(ownKey), c.MustGetTag(ownKey)
		c.Set(ownKey, "of the copy")
		c.SetTag(ownKey, "of the copy")
		return []any{v, tag, c.MustGet(ownKey)}
	}},
	{"Dump", func(s, _ store.Store) any { return s.Dump() }},
	{"Get", func(s, _ store.Store) any { v, ok := s.Get(ownKey); return []any{v, ok} }},
	{"Load", func(s, _ store.Store) any {
		_, err := s.Load(context.TODO(), store.WithStorePrefix("app.b"), store.WithProvider(loadS{}))
		return err
	}},
	{"Close", func(s, _ store.Store) any { s.Close(); return nil }},
}

// loadS is a provider of one key.
type loadS struct{}

func (loadS) Read() (map[string]store.ValPkg, error) {
	return map[string]store.ValPkg{"ttl": {Value: "loaded"}}, nil
}
func (loadS) GetPosition() (pos string) { return "" }
func (loadS) WithPosition(string)       {}
func (loadS) GetCodec() store.Codec     { return nil }
func (loadS) WithCodec(store.Codec)     {}

func ownerOp(name string) op {
	for _, o := range ownerOps {
		if o.name == name {
			return o
		}
	}
	panic("no op " + name)
}

// outcome of an owner: the results of its ops and what is stored then.
func outcomeOf(res []any, s store.Store) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%#v\n", res)
	m, err := s.GetM("")
	fmt.Fprintf(&sb, "%#v %v\n", m, err)
	s.Walk("", func(path, fragment string, n radix.Node[any]) {
		fmt.Fprintf(&sb, "%q %q %v %v %#v %#v %q %q %v\n", path, fragment, n.IsLeaf(), n.HasData(), n.Data(), n.Tag(), n.Comment(), n.Description(), n.Modified())
	})
	return sb.String()
}

// serial runs the owner and the expiry in each of the serial orders.
func (sc *scenario) serial(t *testing.T) map[string]string {
	ret := map[string]string{}
	// an expiry which is under way goes on after Close
	for at, late := 0, false; at <= len(sc.owner); at, late = at+iif(late, 1, 0), !late {
		synctest.Test(t, func(*testing.T) {
			s, routes := world()
			s.SetTTL(ownKey, ttl, nil)
			var res []any
			for i, o := range sc.owner {
				if i == at {
					time.Sleep(ttl + time.Millisecond)
					synctest.Wait()
				}
				if o.name == "Close" && late {
					res = append(res, nil)
					continue
				}
				res = append(res, call(o, s, routes))
			}
			if at == len(sc.owner) {
				time.Sleep(ttl + time.Millisecond)
				synctest.Wait()
			}
			k := outcomeOf(res, s)
			if _, ok := ret[k]; !ok {
				ret[k] = fmt.Sprintf("the expiry after %d ops", at)
			}
			s.Close()
			routes.Close()
		})
	}
	return ret
}

// exec2 runs the owner of a store and the expiry of one of its keys.
func (sc *scenario) exec2(plan []int, record bool, exp *expect) (r vs.Result, err error) {
	vs.Reset()
	s, routes := world()
	var rang atomic.Int32
	var cb radix.OnTTLRinging[any]
	if sc.ringing {
		cb = func(_ *radix.TTL[any], nd radix.Node[any]) {
			rang.Add(1)
			_, _, _ = nd.Key(), nd.Data(), nd.Tag()
		}
	}
	if st := s.SetTTL(ownKey, ttl, cb); st != 0 {
		return r, fmt.Errorf("SetTTL(%q) = %d", ownKey, st)
	}
	closes := false
	res := make([]any, len(sc.owner))
	fs := []func(){func() {
		for j, o := range sc.owner {
			res[j] = call(o, s, routes)
		}
	}}
	for _, o := range sc.owner {
		closes = closes || o.name == "Close"
	}
	synctest.Wait()
	fs = append(fs, func() { time.Sleep(ttl + time.Millisecond) })
	r = vs.Run(plan, record, fs)
	if r.Deadlock {
		return r, fmt.Errorf("deadlock: every thread waits for a lock")
	}
	got := outcomeOf(res, s)
	if _, ok := exp.serial[got]; !ok {
		var sb strings.Builder
		for k, v := range exp.serial {
			fmt.Fprintf(&sb, "\n-- %s:\n%s", v, k)
		}
		return r, fmt.Errorf("the ops of the owner and the expiry yield\n%swhich is that of none of the serial orders:%s", got, sb.String())
	}
	if n := rang.Load(); sc.ringing && (n > 1 || n == 0 && !closes) {
		return r, fmt.Errorf("the callback was called %d times", n)
	}
	s.Close()
	routes.Close()
	return r, nil
}

var short = map[string]bool{"Set": true, "SetTag": true, "node.SetData": true, "node.ToggleModified": true, "Get": true}

func ownerScenarios(thorough bool) (ret []*scenario) {
	keys := []string{ownKey}
	for i, x := range ownerOps {
		ret = append(ret, &scenario{name: "owner " + x.name, bound: iif(thorough && x.name == "SetTag", 3, 2), ttl: keys, owner: []op{x}})
		ret = append(ret, &scenario{name: "owner ringing " + x.name, bound: iif(thorough, 2, 1), ringing: true, ttl: keys, owner: []op{x}})
		for j, y := range ownerOps {
			if thorough || i%3 == j%3 || i < 10 {
				ret = append(ret, &scenario{name: "owner " + x.name + ", " + y.name, bound: iif(thorough && short[x.name] && short[y.name], 2, 1), ringing: (i+j)%2 == 0, ttl: keys, owner: []op{x, y}})
			}
		}
	}
	return
}
