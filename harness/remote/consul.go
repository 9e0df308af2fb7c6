package remote

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/hashicorp/consul/api"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/consul"
	"github.com/hedzr/store/verifharness/eng"
)

// consulFake is a consul agent: the key/value part of its HTTP interface,
// with blocking queries which are answered when the exploration says so.
type consulFake struct {
	kv    map[string]*api.KVPair
	grave map[string]uint64
	index uint64

	q    chan *query // queries of the watch, each is held until answered
	addr string
}

type query struct {
	r      *http.Request
	index  uint64
	answer chan func(w http.ResponseWriter)
	gone   chan struct{}
}

func newConsulFake() *consulFake {
	return &consulFake{kv: map[string]*api.KVPair{}, grave: map[string]uint64{}, index: 10, q: make(chan *query, 4)}
}

func (f *consulFake) put(k, v string) {
	f.index++
	n := &api.KVPair{Key: k, Value: []byte(v), CreateIndex: f.index, ModifyIndex: f.index, Flags: 1<<63 + uint64(len(v))}
	if o, ok := f.kv[k]; ok {
		n.CreateIndex = o.CreateIndex
		n.LockIndex, n.Session = o.LockIndex+1, "s-"+k
	}
	f.kv[k] = n
}

func (f *consulFake) del(k string) {
	f.index++
	f.grave[k] = f.index
	delete(f.kv, k)
}

// reply answers a read of the current state.
func (f *consulFake) reply(w http.ResponseWriter, r *http.Request) {
	key := strings.TrimPrefix(r.URL.Path, "/v1/kv/")
	_, rec := r.URL.Query()["recurse"]
	idx := uint64(1)
	in := func(k string) bool {
		if rec {
			return strings.HasPrefix(k, key)
		}
		return k == key
	}
	var ks []string
	for k, p := range f.kv {
		if in(k) {
			ks = append(ks, k)
			idx = max(idx, p.ModifyIndex)
		}
	}
	if len(ks) == 0 || rec {
		for k, i := range f.grave {
			if in(k) {
				idx = max(idx, i)
			}
		}
	}
	sort.Strings(ks)
	w.Header().Set("X-Consul-Index", strconv.FormatUint(idx, 10))
	w.Header().Set("X-Consul-LastContact", "0")
	w.Header().Set("X-Consul-KnownLeader", "true")
	if len(ks) == 0 {
		w.WriteHeader(http.StatusNotFound)
		return
	}
	var ret []*api.KVPair
	for _, k := range ks {
		ret = append(ret, f.kv[k])
	}
	w.Header().Set("Content-Type", "application/json")
	_ = json.NewEncoder(w).Encode(ret)
}

func (f *consulFake) indexOf(r *http.Request) uint64 {
	rec := httptest.NewRecorder()
	f.reply(rec, r)
	i, _ := strconv.ParseUint(rec.Header().Get("X-Consul-Index"), 10, 64)
	return i
}

// RoundTrip serves the reads of the provider itself.
func (f *consulFake) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.Method != http.MethodGet {
		panic("the provider writes: " + r.Method)
	}
	rec := httptest.NewRecorder()
	f.reply(rec, r)
	return rec.Result(), nil
}

// ServeHTTP serves the watching plan, which makes its own connection.
func (f *consulFake) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	q := &query{r: r, answer: make(chan func(http.ResponseWriter), 1), gone: make(chan struct{})}
	q.index, _ = strconv.ParseUint(r.URL.Query().Get("index"), 10, 64)
	f.q <- q
	select {
	case a := <-q.answer:
		a(w)
	case <-r.Context().Done():
		close(q.gone)
	}
}

// The plans connect to a server of this process. Every world gets an address
// of its own in 127/8, so the ports of closed connections do not run out.
var hub struct {
	once   sync.Once
	err    error
	port   string
	worlds sync.Map
	no     atomic.Int64
}

func openHub() error {
	hub.once.Do(func() {
		ln, err := net.Listen("tcp4", "0.0.0.0:0")
		for port := 17000; err != nil && port < 17200; port++ { // the ports chosen by the system may be worn out
			ln, err = net.Listen("tcp4", fmt.Sprint("0.0.0.0:", port))
		}
		if err != nil {
			hub.err = err
			return
		}
		_, hub.port, _ = net.SplitHostPort(ln.Addr().String())
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			if f, ok := hub.worlds.Load(r.Host); ok {
				f.(*consulFake).ServeHTTP(w, r)
			} else {
				http.Error(w, "gone", http.StatusGone)
			}
		})}
		go func() { _ = srv.Serve(ln) }()
		for _, ip := range []string{"127.1.1.1", "127.250.1.1"} {
			conn, err := net.DialTimeout("tcp4", ip+":"+hub.port, 5*time.Second)
			if err != nil {
				hub.err = err
				return
			}
			_ = conn.Close()
		}
	})
	return hub.err
}

func (f *consulFake) serve() error {
	if err := openHub(); err != nil {
		return err
	}
	n := hub.no.Add(1)
	f.addr = fmt.Sprintf("127.%d.%d.%d:%s", 1+n/62500%250, 1+n/250%250, 1+n%250, hub.port)
	hub.worlds.Store(f.addr, f)
	return nil
}

type consulWorld struct {
	c      remoteCfg
	f      *consulFake
	st     store.Store
	q      *query // the query which is held
	remote map[string]string
	seen   map[string]string
	own    map[string]string
	loaded bool
	closed bool
	fresh  bool
	step   int

	seenIdx map[string]uint64
}

func (w *consulWorld) next() error {
	select {
	case w.q = <-w.f.q:
		return nil
	case <-time.After(patience):
		return fmt.Errorf("the source is not asked again within %v", patience)
	}
}

func consulProvider(c remoteCfg, f *consulFake, addr string) store.Provider {
	opts := []consul.Opt{consul.WithWatchEnabled(c.watch), consul.WithRecursive(c.rec), consul.WithProcessMeta(c.meta),
		consul.WithStripPrefix(c.strip), consul.WithPrependPrefix(c.prep), consul.WithDelimiter(c.delim),
		consul.WithConsulConfig(&api.Config{Address: addr, HttpClient: &http.Client{Transport: f}})}
	if !c.posOpt {
		opts = append(opts, consul.WithPosition(c.pos))
	}
	return consul.New(opts...)
}

func (w *consulWorld) load() error {
	c := w.c
	addr := "127.0.0.1:1"
	if c.watched() {
		if err := w.f.serve(); err != nil {
			return err
		}
		addr = w.f.addr
	}
	p := consulProvider(c, w.f, addr)
	w.saw()
	if _, err := c.target(w.st).Load(context.Background(), c.loadOpts(p)...); err != nil {
		return fmt.Errorf("Load: %v", err)
	}
	w.loaded = true
	if !c.watched() {
		return nil
	}
	w.fresh = true
	if err := w.next(); err != nil {
		return err
	}
	return w.checkMeta()
}

// checkMeta looks at the tags which a read gives.
func (w *consulWorld) checkMeta() error {
	for k := range w.seen {
		if !w.c.selects(k) {
			continue
		}
		if err := metaOf(w.c, w.st, w.f.kv[k]); err != nil {
			return err
		}
	}
	return nil
}

func metaOf(c remoteCfg, st store.Store, p *api.KVPair) error {
	tag, err := st.GetTag(c.key(p.Key))
	if err != nil {
		return fmt.Errorf("GetTag(%q): %v", c.key(p.Key), err)
	}
	if !c.meta {
		if tag != nil {
			return fmt.Errorf("GetTag(%q) = %v, none was asked for", c.key(p.Key), tag)
		}
		return nil
	}
	session := p.Session
	if session == "" {
		session = "-"
	}
	want := map[string]any{"CreateIndex": fmt.Sprint(p.CreateIndex), "ModifyIndex": fmt.Sprint(p.ModifyIndex), "Flags": fmt.Sprint(p.Flags),
		"LockIndex": fmt.Sprint(p.LockIndex), "Session": session, "Value": string(p.Value)}
	if fmt.Sprint(tag) != fmt.Sprint(want) {
		return fmt.Errorf("GetTag(%q) = %v, want %v", c.key(p.Key), tag, want)
	}
	return nil
}

// deliver answers the query of the watch, if it is to be answered.
func (w *consulWorld) deliver() error {
	idx := w.f.indexOf(w.q.r)
	if !w.fresh && idx <= w.q.index {
		return nil // nothing which the watch has asked for did change
	}
	w.fresh = false
	done := make(chan struct{})
	w.q.answer <- func(rw http.ResponseWriter) { w.f.reply(rw, w.q.r); close(done) }
	<-done
	w.saw()
	return w.next() // the answer was handled when the plan asks again
}

func (w *consulWorld) put(k, v string) {
	w.f.put(k, v)
	w.remote[k] = v
}

func (f *consulFake) indexes() map[string]uint64 {
	ret := map[string]uint64{}
	for k, p := range f.kv {
		ret[k] = p.ModifyIndex
	}
	return ret
}

// saw notes that the store knows the current state: the values of the user
// for the keys which have changed are gone.
func (w *consulWorld) saw() {
	now := w.f.indexes()
	for _, k := range w.c.keys {
		if now[k] != w.seenIdx[k] && w.c.selects(k) {
			delete(w.own, w.c.key(k))
		}
	}
	w.seen, w.seenIdx = cp(w.remote), now
}

func consulSys(c remoteCfg) *eng.Sys[consulWorld] {
	type op = eng.Op[consulWorld]
	var ops []op
	for _, k := range c.keys {
		ops = append(ops,
			op{Name: "put " + k, Do: func(w *consulWorld) error {
				w.step++
				w.put(k, fmt.Sprint("v", w.step))
				return nil
			}},
			op{Name: "delete " + k, En: func(w *consulWorld) bool { _, ok := w.remote[k]; return ok }, Do: func(w *consulWorld) error {
				w.f.del(k)
				delete(w.remote, k)
				return nil
			}})
	}
	k0 := c.keys[0]
	ops = append(ops,
		op{Name: "put an empty " + k0, Do: func(w *consulWorld) error { w.put(k0, ""); return nil }},
		op{Name: "put " + k0 + " again", En: func(w *consulWorld) bool { _, ok := w.remote[k0]; return ok && w.own[c.key(k0)] != "" }, Do: func(w *consulWorld) error { w.put(k0, w.remote[k0]); return nil }},
		op{Name: "Set(" + c.key(k0) + ")", En: func(w *consulWorld) bool { return w.loaded && w.own[c.key(k0)] == "" }, Do: func(w *consulWorld) error {
			w.st.Set(c.key(k0), "user")
			w.own[c.key(k0)] = "user"
			return nil
		}},
		op{Name: "Load", En: func(w *consulWorld) bool { return !w.loaded }, Do: (*consulWorld).load},
		op{Name: "answer the watch", En: func(w *consulWorld) bool { return w.q != nil && !w.closed }, Do: (*consulWorld).deliver},
		op{Name: "Set(own)", En: func(w *consulWorld) bool { return w.own["own.k"] == "" }, Do: func(w *consulWorld) error { w.st.Set("own.k", "o"); w.own["own.k"] = "o"; return nil }},
		op{Name: "Close", En: func(w *consulWorld) bool { return w.q != nil && !w.closed }, Do: func(w *consulWorld) error {
			w.closed = true
			w.st.Close()
			select {
			case <-w.q.gone:
			case <-time.After(patience):
				return fmt.Errorf("the source is still watched after Close")
			}
			return nil
		}},
	)
	return &eng.Sys[consulWorld]{Name: "consul/" + c.name,
		New: func() *consulWorld {
			return &consulWorld{c: c, f: newConsulFake(), st: store.New(store.WithWatchEnable(c.stw)), remote: map[string]string{}, own: map[string]string{}, seen: map[string]string{}}
		},
		Ops: ops,
		Obs: func(w *consulWorld) error { return compare(c, w.st, w.seen, w.own) },
		Fin: func(w *consulWorld) {
			if w.loaded && !w.closed {
				w.st.Close()
			}
			hub.worlds.Delete(w.f.addr)
		},
	}
}

// ---- reading: every content

func pick(keys []string, n int) []string {
	var ret []string
	for i, k := range keys {
		if n>>i&1 == 1 {
			ret = append(ret, k)
		}
	}
	return ret
}

// reads enumerates the options of reading with all contents over some keys.
func reads(c *eng.Ctx) {
	keys := []string{"app/a", "app/b/c", "app/b/c/d/e/app/f/g", "apple", "/app/a", "b", "x/app/b/c/d/e"}
	vals := []string{"", "x", "true", "{\"a\":1}", "\x00\xff", "ä→", strings.Repeat("long", 300)}
	var all []remoteCfg
	for _, pos := range []string{"", "app", "app/", "app/a", "app/b", "/app", "nowhere"} {
		for _, rec := range []bool{true, false} {
			for _, strip := range []string{"", "app", "app/b", "/app", "x"} {
				for _, prep := range []string{"", "pre", "pre.fix"} {
					for _, delim := range []string{".", "_", ""} {
						if prep != "" && delim == "" {
							continue
						}
						for _, meta := range []bool{true, false} {
							all = append(all, remoteCfg{pos: pos, rec: rec, strip: strip, prep: prep, delim: delim, meta: meta})
						}
					}
				}
			}
		}
	}
	nk := len(keys)
	per := 1 << nk
	eng.Enum(c, "consul/read", len(all)*per, func(i int) string { return fmt.Sprintf("%+v of %q", all[i/per], pick(keys, i%per)) }, func(i int) (int, error) {
		cfg := all[i/per]
		f := newConsulFake()
		for j, k := range pick(keys, i%per) {
			if k[0] == '/' {
				return 0, nil
			}
			f.put(k, vals[(j+i)%len(vals)])
			if j%2 == 1 {
				f.put(k, vals[(j+i+1)%len(vals)])
			}
		}
		if cfg.pos == "" && !cfg.rec || strings.HasPrefix(cfg.pos, "/") {
			return 0, nil // consul has no empty key, and none with a leading slash
		}
		p := consulProvider(cfg, f, "127.0.0.1:1")
		got, err := p.Read()
		if err != nil {
			return 1, err
		}
		want := map[string]string{}
		src := map[string]*api.KVPair{}
		n := 0
		for k, kv := range f.kv {
			if cfg.selects(k) {
				want[cfg.key(k)] = string(kv.Value)
				src[cfg.key(k)] = kv
				n++
			}
		}
		if n != len(want) {
			return 0, nil // two keys get the same name: the source decides
		}
		if err = sameRead(got, want); err != nil {
			return 1, err
		}
		for k, v := range got {
			if v.Desc != "" || v.Comment != "" {
				return 1, fmt.Errorf("Read gives %q the texts %q, %q", k, v.Desc, v.Comment)
			}
			if !cfg.meta {
				if v.Tag != nil {
					return 1, fmt.Errorf("Read gives %q the tag %v, none was asked for", k, v.Tag)
				}
				continue
			}
			kv := src[k]
			session := kv.Session
			if session == "" {
				session = "-"
			}
			wt := map[string]any{"CreateIndex": fmt.Sprint(kv.CreateIndex), "ModifyIndex": fmt.Sprint(kv.ModifyIndex), "Flags": fmt.Sprint(kv.Flags),
				"LockIndex": fmt.Sprint(kv.LockIndex), "Session": session, "Value": string(kv.Value)}
			if fmt.Sprint(v.Tag) != fmt.Sprint(wt) {
				return 1, fmt.Errorf("Read gives %q the tag %v, want %v", k, v.Tag, wt)
			}
		}
		return 1, nil
	})
	eng.Enum(c, "etcd/read", len(all)*per, func(i int) string { return fmt.Sprintf("%+v of %q", all[i/per], pick(keys, i%per)) }, func(i int) (int, error) {
		cfg := all[i/per]
		if cfg.pos == "" && !cfg.rec {
			return 0, nil
		}
		f := newEtcdFake()
		for j, k := range pick(keys, i%per) {
			f.put(k, vals[(j+i)%len(vals)])
			if j%2 == 1 {
				f.put(k, vals[(j+i+1)%len(vals)])
			}
		}
		p := etcdProvider(cfg, f)
		got, err := p.Read()
		if err != nil {
			return 1, err
		}
		want := map[string]string{}
		n := 0
		for k, kv := range f.kv {
			if cfg.selects(k) {
				want[cfg.key(k)] = string(kv.Value)
				n++
			}
		}
		if n != len(want) {
			return 0, nil
		}
		return 1, sameRead(got, want)
	})
}

func sameRead(got map[string]store.ValPkg, want map[string]string) error {
	for k, v := range want {
		g, ok := got[k]
		if s, is := g.Value.(string); !ok || !is || s != v {
			return fmt.Errorf("Read gives %q the value %T(%v), %v; the source has %q", k, g.Value, g.Value, ok, v)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("Read gives %v, the source has %v", got, want)
	}
	return nil
}
