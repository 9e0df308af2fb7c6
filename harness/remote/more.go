package remote

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"runtime"
	"strings"
	"time"

	"github.com/hashicorp/consul/api"
	clientv3 "go.etcd.io/etcd/client/v3"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/consul"
	"github.com/hedzr/store/providers/etcd"
	"github.com/hedzr/store/verifharness/eng"
)

type nullCodec struct{ n int }

func (*nullCodec) Marshal(map[string]any) ([]byte, error)   { return nil, nil }
func (*nullCodec) Unmarshal([]byte) (map[string]any, error) { return nil, nil }

type failing struct{ clientv3.KV }

func (failing) Get(context.Context, string, ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	return nil, errors.New("no server")
}

type failTrip struct{}

func (failTrip) RoundTrip(*http.Request) (*http.Response, error) { return nil, errors.New("no server") }

type badTrip struct{ status int }

func (b badTrip) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: b.status, Status: fmt.Sprint(b.status), Body: http.NoBody, Header: http.Header{}, Request: r}, nil
}

// faults enumerates the failing sources: the error is reported and nothing
// is changed nor watched.
func faults(c *eng.Ctx) {
	type item struct {
		name string
		p    func(rec bool) store.Provider
	}
	cons := func(t http.RoundTripper) func(rec bool) store.Provider {
		return func(rec bool) store.Provider {
			return consul.New(consul.WithRecursive(rec), consul.WithWatchEnabled(true), consul.WithPosition("app"),
				consul.WithConsulConfig(&api.Config{Address: "127.0.0.1:1", HttpClient: &http.Client{Transport: t}}))
		}
	}
	items := []item{
		{"etcd", func(rec bool) store.Provider {
			f := newEtcdFake()
			p := etcd.New(etcd.WithRecursive(rec), etcd.WithWatchEnabled(true), etcd.WithPosition("app"))
			p.Client = f.client(context.Background())
			p.Client.KV = failing{}
			p.Client.Watcher = noWatcher{}
			return p
		}},
		{"consul", cons(failTrip{})}, {"consul-500", cons(badTrip{500})}, {"consul-403", cons(badTrip{403})},
	}
	eng.Enum(c, "faults", len(items)*4, func(i int) string { return fmt.Sprint(items[i/4].name, i%4) }, func(i int) (int, error) {
		it := items[i/4]
		st := store.New(store.WithWatchEnable(true))
		st.Set("app.k", "own")
		if i&2 != 0 {
			st.Set("app.x", "own")
		}
		d := st.Dump()
		p := it.p(i&1 == 0)
		if _, err := st.Load(context.Background(), store.WithProvider(p), store.WithStorePrefix("app")); err == nil {
			return 1, fmt.Errorf("Load of a failing source reports no error")
		}
		if st.Dump() != d {
			return 1, fmt.Errorf("Load of a failing source changes the store: %s", st.Dump())
		}
		return 1, nil
	})
}

type noWatcher struct{}

func (noWatcher) Watch(context.Context, string, ...clientv3.OpOption) clientv3.WatchChan {
	panic("a failed source is watched")
}
func (noWatcher) RequestProgress(context.Context) error { return nil }
func (noWatcher) Close() error                          { return nil }

type full interface {
	store.Provider
	store.Watchable
	GetCodec() store.Codec
	GetPosition() string
	WithCodec(store.Codec)
	WithPosition(string)
	NormalizeKey(string) string
	Count() int
	Has(string) bool
	Next() (string, bool)
	Keys() ([]string, error)
	Value(string) (any, bool)
	MustValue(string) any
	Reader() (store.Reader, error)
	Write([]byte) error
}

// options enumerates the settings of both providers which are only kept.
func options(c *eng.Ctx) {
	c1, c2 := &nullCodec{1}, &nullCodec{2}
	cfgC := &api.Config{Address: "127.0.0.1:1", HttpClient: &http.Client{Transport: failTrip{}}}
	mk := []func() full{
		func() full { return etcd.New(etcd.WithCodec(c1), etcd.WithPosition("p1")) },
		func() full { return etcd.New(etcd.WithCodec(c1), etcd.WithStorePrefix("p1")) },
		func() full { return etcd.New(etcd.WithCodec(c1), etcd.WithKey("p1")) },
		func() full {
			return consul.New(consul.WithCodec(c1), consul.WithPosition("p1"), consul.WithConsulConfig(cfgC))
		},
	}
	eng.Enum(c, "options", len(mk)*4, func(i int) string { return fmt.Sprint(i) }, func(i int) (int, error) {
		p := mk[i/4]()
		if i&1 != 0 {
			p.WithCodec(c2)
		}
		if i&2 != 0 {
			p.WithPosition("p2")
		}
		wc, wp := store.Codec(c1), "p1"
		if i&1 != 0 {
			wc = c2
		}
		if i&2 != 0 {
			wp = "p2"
		}
		if p.GetCodec() != wc || p.GetPosition() != wp {
			return 1, fmt.Errorf("the codec and position are %v, %q; want %v, %q", p.GetCodec(), p.GetPosition(), wc, wp)
		}
		if n := p.Count(); n != 0 {
			return 1, fmt.Errorf("Count = %d", n)
		}
		if _, err := p.Keys(); !errors.Is(err, store.ErrNotImplemented) {
			return 1, fmt.Errorf("Keys: %v", err)
		}
		if _, err := p.Reader(); !errors.Is(err, store.ErrNotImplemented) {
			return 1, fmt.Errorf("Reader: %v", err)
		}
		if err := p.Write([]byte("x")); !errors.Is(err, store.ErrNotImplemented) {
			return 1, fmt.Errorf("Write: %v", err)
		}
		if k, eol := p.Next(); !eol {
			return 1, fmt.Errorf("Next: %q", k)
		}
		if v, ok := p.Value("k"); ok || v != nil || p.MustValue("k") != nil || p.Has("k") {
			return 1, fmt.Errorf("Value: %v", v)
		}
		return 1, nil
	})
}

// ends checks that the watching of etcd ends with its context or channel,
// and that an error of it is handed on.
func ends(c *eng.Ctx) {
	c.Serial(func() {
		eng.Enum(c, "etcd/ends", 4, func(i int) string { return fmt.Sprint(i) }, func(i int) (int, error) {
			f := newEtcdFake()
			p := etcd.New(etcd.WithStorePrefix("app"), etcd.WithWatchEnabled(true))
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			p.Client = f.client(ctx)
			got := make(chan error, 64)
			if err := p.Watch(ctx, func(ev any, err error) {
				if err == nil || ev != nil {
					err = fmt.Errorf("the event %v, %v", ev, err)
				}
				select {
				case got <- err:
				default:
				}
			}); err != nil {
				return 1, err
			}
			w := <-f.reg
			switch i {
			case 0:
				cancel()
			case 1:
				close(w.ch)
			case 2, 3:
				if err := w.send(clientv3.WatchResponse{Canceled: true, CompactRevision: 7}); err != nil {
					return 1, err
				}
				close(w.ch)
				select {
				case err := <-got:
					if !strings.Contains(err.Error(), "compacted") {
						return 1, fmt.Errorf("the compacted watch reports %v", err)
					}
				case <-time.After(patience):
					return 1, fmt.Errorf("the compacted watch reports nothing")
				}
			}
			for end := time.Now().Add(patience); ; time.Sleep(time.Millisecond) {
				buf := make([]byte, 1<<20)
				if !strings.Contains(string(buf[:runtime.Stack(buf, true)]), "providers/etcd.(*pvdr).Watch") {
					break
				}
				if time.Now().After(end) {
					return 1, fmt.Errorf("the watching goes on after its end")
				}
			}
			select {
			case err := <-got:
				return 1, fmt.Errorf("the ended watch goes on to report: %v", err)
			default:
			}
			return 1, nil
		})
	})
}

// sections is the known finding: a key of the source whose name is a section
// of another one.
func sections(c *eng.Ctx) {
	what, known := c.Known["C26-section"]
	n := 0
	eng.Enum(c, "sections", 2, func(i int) string { return []string{"etcd", "consul"}[i] }, func(i int) (int, error) {
		cfg := remoteCfg{name: "sections", pos: "app", rec: true, delim: ".", watch: true, stw: true, keys: []string{"app/a", "app/a/b"}}
		var err error
		play := func(names []string, find func(string) error) {
			for _, name := range names {
				if err == nil {
					err = find(name)
				}
			}
		}
		if i == 0 {
			s := etcdSys(cfg)
			w := s.New()
			defer s.Fin(w)
			play([]string{"put app/a", "put app/a/b", "Load", "delete app/a", "deliver all events at once"}, func(name string) error {
				for _, o := range s.Ops {
					if o.Name == name {
						return o.Do(w)
					}
				}
				return fmt.Errorf("no operation %q", name)
			})
			if err == nil {
				err = s.Obs(w)
			}
		} else {
			if openHub() != nil {
				return 0, nil
			}
			s := consulSys(cfg)
			w := s.New()
			defer s.Fin(w)
			play([]string{"put app/a", "put app/a/b", "Load", "delete app/a", "answer the watch"}, func(name string) error {
				for _, o := range s.Ops {
					if o.Name == name {
						return o.Do(w)
					}
				}
				return fmt.Errorf("no operation %q", name)
			})
			if err == nil {
				err = s.Obs(w)
			}
		}
		if err != nil && known && strings.HasPrefix(err.Error(), `Get("app.a.b") = <nil>(<nil>), false`) {
			n++
			return 1, nil
		}
		return 1, err
	})
	if n > 0 {
		fmt.Printf("KNOWN-FINDING: property=C26 %s\n", what)
	}
}

// replacements enumerates the pairs of states of a source in which a key is
// replaced by a section of the same name, or the other way round; no state
// has both.
func replacements(c *eng.Ctx) {
	keys := []string{"app/a", "app/a/b", "app/a/b/c", "app/ab", "app/a/bb"}
	var states [][]string
	for n := 0; n < 1<<len(keys); n++ {
		st, ok := pick(keys, n), true
		for _, p := range st {
			for _, q := range st {
				ok = ok && !strings.HasPrefix(q, p+"/")
			}
		}
		if ok {
			states = append(states, st)
		}
	}
	n := len(states)
	name := func(i int) string {
		return fmt.Sprintf("%s: %q, %q, %q", []string{"etcd", "consul"}[i/n/n/n], states[i%n], states[i/n%n], states[i/n/n%n])
	}
	eng.Enum(c, "replacements", 2*n*n*n, name, func(i int) (int, error) {
		cfg := remoteCfg{name: "replacements", pos: "app", rec: true, delim: ".", watch: true, stw: true, keys: keys}
		seq := [][]string{states[i%n], states[i/n%n], states[i/n/n%n]}
		put, del := func(string) {}, func(string) {}
		load, deliver, obs := func() error { return nil }, func() error { return nil }, func() error { return nil }
		if i/n/n/n == 0 {
			s := etcdSys(cfg)
			w := s.New()
			defer s.Fin(w)
			put, del = w.put, w.del
			load, obs = func() error { return w.load("") }, func() error { return s.Obs(w) }
			deliver = func() error { return w.deliver(w.f.rev, false) }
		} else {
			if openHub() != nil {
				return 0, nil
			}
			s := consulSys(cfg)
			w := s.New()
			defer s.Fin(w)
			put = func(k string) { w.step++; w.put(k, fmt.Sprint("v", w.step)) }
			del = func(k string) { w.f.del(k); delete(w.remote, k) }
			load, deliver, obs = w.load, w.deliver, func() error { return s.Obs(w) }
		}
		for j, st := range seq {
			has := map[string]bool{}
			for _, k := range st {
				has[k] = true
			}
			if j > 0 {
				for _, k := range seq[j-1] {
					if !has[k] {
						del(k)
					}
				}
			}
			for _, k := range st {
				put(k)
			}
			step := deliver
			if j == 0 {
				step = load
			}
			if err := step(); err != nil {
				return j + 1, err
			}
			if err := obs(); err != nil {
				return j + 1, fmt.Errorf("after state %d: %v", j, err)
			}
		}
		return 3, nil
	})
}
