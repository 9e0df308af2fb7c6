package remote

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	clientv3 "go.etcd.io/etcd/client/v3"

	"github.com/hedzr/store"
	"github.com/hedzr/store/providers/etcd"
	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

// etcdFake is an etcd server in memory: revisions, ranges and watches.
type etcdFake struct {
	mu    sync.Mutex
	rev   int64
	kv    map[string]*mvccpb.KeyValue
	log   []*clientv3.Event
	onGet func() // called after the answer of a read is made

	watches []*etcdWatch
	reg     chan *etcdWatch
	closed  int
}

type etcdWatch struct {
	op   clientv3.Op
	from int64
	ch   chan clientv3.WatchResponse
	ctx  context.Context
}

func newEtcdFake() *etcdFake {
	return &etcdFake{rev: 1, kv: map[string]*mvccpb.KeyValue{}, reg: make(chan *etcdWatch, 8)}
}

func (f *etcdFake) put(k, v string) {
	f.rev++
	n := &mvccpb.KeyValue{Key: []byte(k), Value: []byte(v), CreateRevision: f.rev, ModRevision: f.rev, Version: 1}
	if o, ok := f.kv[k]; ok {
		n.CreateRevision, n.Version = o.CreateRevision, o.Version+1
	}
	f.kv[k] = n
	f.log = append(f.log, &clientv3.Event{Type: clientv3.EventTypePut, Kv: n})
}

func (f *etcdFake) del(k string) {
	f.rev++
	delete(f.kv, k)
	f.log = append(f.log, &clientv3.Event{Type: clientv3.EventTypeDelete, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: f.rev}})
}

func inRange(op clientv3.Op, k string) bool {
	key, end := string(op.KeyBytes()), string(op.RangeBytes())
	switch end {
	case "":
		return k == key
	case "\x00":
		return k >= key
	}
	return k >= key && k < end
}

func (f *etcdFake) Get(ctx context.Context, key string, opts ...clientv3.OpOption) (*clientv3.GetResponse, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	op := clientv3.OpGet(key, opts...)
	ret := &pb.RangeResponse{Header: &pb.ResponseHeader{Revision: f.rev}}
	var ks []string
	for k := range f.kv {
		if inRange(op, k) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	ret.Count = int64(len(ks))
	if op.Limit() > 0 && int64(len(ks)) > op.Limit() {
		ks, ret.More = ks[:op.Limit()], true
	}
	for _, k := range ks {
		kv := &mvccpb.KeyValue{Key: f.kv[k].Key, Value: f.kv[k].Value, CreateRevision: f.kv[k].CreateRevision, ModRevision: f.kv[k].ModRevision, Version: f.kv[k].Version}
		if op.IsKeysOnly() {
			kv.Value = nil
		}
		if !op.IsCountOnly() {
			ret.Kvs = append(ret.Kvs, kv)
		}
	}
	if f.onGet != nil {
		f.onGet()
	}
	return (*clientv3.GetResponse)(ret), nil
}

func (f *etcdFake) Watch(ctx context.Context, key string, opts ...clientv3.OpOption) clientv3.WatchChan {
	f.mu.Lock()
	defer f.mu.Unlock()
	w := &etcdWatch{op: clientv3.OpGet(key, opts...), ch: make(chan clientv3.WatchResponse), ctx: ctx}
	w.from = w.op.Rev()
	if w.from == 0 {
		w.from = f.rev + 1
	}
	f.watches = append(f.watches, w)
	f.reg <- w
	return w.ch
}

func (f *etcdFake) RequestProgress(context.Context) error { return nil }
func (f *etcdFake) Close() error                          { f.closed++; return nil }

func (f *etcdFake) Put(context.Context, string, string, ...clientv3.OpOption) (*clientv3.PutResponse, error) {
	panic("the provider writes")
}
func (f *etcdFake) GetStream(context.Context, string, ...clientv3.OpOption) (clientv3.GetStreamChan, error) {
	panic("not expected")
}
func (f *etcdFake) Delete(context.Context, string, ...clientv3.OpOption) (*clientv3.DeleteResponse, error) {
	panic("the provider deletes")
}
func (f *etcdFake) Compact(context.Context, int64, ...clientv3.CompactOption) (*clientv3.CompactResponse, error) {
	panic("the provider compacts")
}
func (f *etcdFake) Do(context.Context, clientv3.Op) (clientv3.OpResponse, error) {
	panic("not expected")
}
func (f *etcdFake) Txn(context.Context) clientv3.Txn { panic("not expected") }

const patience = 30 * time.Second

func (w *etcdWatch) send(r clientv3.WatchResponse) error {
	select {
	case w.ch <- r:
		return nil
	case <-time.After(patience):
		return fmt.Errorf("the watch of the source is not received within %v", patience)
	}
}

// deliver sends the events up to a revision and waits until they are handled.
func (f *etcdFake) deliver(w *etcdWatch, upto int64, single bool) error {
	var evs []*clientv3.Event
	for _, e := range f.log {
		if r := e.Kv.ModRevision; r >= w.from && r <= upto && inRange(w.op, string(e.Kv.Key)) {
			evs = append(evs, e)
		}
	}
	w.from = upto + 1
	if single {
		for _, e := range evs {
			if err := w.send(clientv3.WatchResponse{Header: &pb.ResponseHeader{Revision: upto}, Events: []*clientv3.Event{e}}); err != nil {
				return err
			}
		}
	} else if err := w.send(clientv3.WatchResponse{Header: &pb.ResponseHeader{Revision: upto}, Events: evs}); err != nil {
		return err
	}
	return w.send(clientv3.WatchResponse{Header: &pb.ResponseHeader{Revision: upto}}) // received only after the events are handled
}

func (f *etcdFake) client(ctx context.Context) *clientv3.Client {
	c := clientv3.NewCtxClient(ctx)
	c.KV, c.Watcher = f, f
	return c
}

// ---- configurations shared by both sources

type remoteCfg struct {
	name         string
	pos          string
	rec          bool
	strip, prep  string
	delim        string
	at           string // load prefix
	view         bool   // by a view instead of an option
	posOpt       bool   // the position is given by the load option
	meta         bool
	watch, stw   bool // provider / store watching
	noWatch      bool
	keys         []string
	sectionClash bool
}

func (c remoteCfg) selects(k string) bool {
	if c.rec {
		return strings.HasPrefix(k, c.pos)
	}
	return k == c.pos
}

func (c remoteCfg) key(k string) string {
	if c.strip != "" && strings.HasPrefix(k, c.strip+"/") {
		k = k[len(c.strip)+1:]
	}
	if c.prep != "" {
		k = c.prep + c.delim + k
	}
	if c.delim != "" {
		k = strings.Join(strings.Split(k, "/"), c.delim)
	}
	if c.at != "" {
		k = c.at + "." + k
	}
	return k
}

func (c remoteCfg) watched() bool { return c.watch && c.stw && !c.noWatch }

func (c remoteCfg) loadOpts(p store.Provider) (ret []store.LoadOpt) {
	ret = append(ret, store.WithProvider(p))
	if c.at != "" && !c.view {
		ret = append(ret, store.WithStorePrefix(c.at))
	}
	if c.posOpt {
		ret = append(ret, store.WithPosition(c.pos))
	}
	if c.noWatch {
		ret = append(ret, store.WithoutWatch(true))
	}
	return
}

func (c remoteCfg) target(st store.Store) store.Store {
	if c.view {
		return st.WithPrefix(c.at)
	}
	return st
}

var cfgs = []remoteCfg{
	{name: "recursive", pos: "app/", rec: true, strip: "app", prep: "etc", delim: ".", at: "conf", watch: true, stw: true, meta: true, keys: []string{"app/a", "app/b/c", "apple", "app/b/cd"}},
	{name: "recursive-leading-slash", pos: "/app", rec: true, strip: "/app", delim: ".", watch: true, stw: true, posOpt: true, keys: []string{"/app/a", "/app/b/c", "/ap", "/app/b/d"}},
	{name: "recursive-view", pos: "app", rec: true, delim: ".", at: "conf.x", view: true, watch: true, stw: true, meta: true, keys: []string{"app/a", "app/a2", "apple/a", "x"}},
	{name: "one-key", pos: "app/a", delim: ".", watch: true, stw: true, meta: true, keys: []string{"app/a", "app/ab", "app/a/b"}},
	{name: "one-key-stripped", pos: "app/b/a", strip: "app/b", prep: "p", delim: ".", at: "conf", posOpt: true, watch: true, stw: true, keys: []string{"app/b/a", "app/b"}},
	{name: "everything", rec: true, delim: ".", watch: true, stw: true, keys: []string{"a", "b/c", "x/app/b/c/d/e"}},
	{name: "slashes", pos: "app", rec: true, watch: true, stw: true, keys: []string{"app/a", "app/b/c", "b"}},
	{name: "store-unwatched", pos: "app", rec: true, delim: ".", watch: true, keys: []string{"app/a", "app/b/c"}},
	{name: "load-unwatched", pos: "app", rec: true, delim: ".", watch: true, stw: true, noWatch: true, keys: []string{"app/a", "app/b/c"}},
	{name: "source-unwatched", pos: "app", rec: true, delim: ".", stw: true, meta: true, keys: []string{"app/a", "app/b/c"}},
}

func leaves(st store.Store) (map[string]any, error) {
	ret := map[string]any{}
	dup := ""
	st.Walk("", func(path, fragment string, n radix.Node[any]) {
		if n.IsLeaf() {
			if _, ok := ret[n.Key()]; ok {
				dup = n.Key()
			}
			ret[n.Key()] = n.Data()
		}
	})
	if dup != "" {
		return nil, fmt.Errorf("%q is listed twice", dup)
	}
	return ret, nil
}

// compare checks that the store holds exactly the pairs, and the own keys.
func compare(c remoteCfg, st store.Store, pairs, own map[string]string) error {
	want := map[string]string{}
	for k, v := range pairs {
		if c.selects(k) {
			want[c.key(k)] = v
		}
	}
	for k, v := range own { // a value set by the user stays until the source changes the key
		want[k] = v
	}
	for k, v := range want {
		got, ok := st.Get(k)
		if s, is := got.(string); !ok || !is || s != v {
			return fmt.Errorf("Get(%q) = %T(%v), %v; the source has %q", k, got, got, ok, v)
		}
	}
	got, err := leaves(st)
	if err != nil {
		return err
	}
	for k, v := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("the store holds %q = %v, which the source does not have", k, v)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("the store lists %v, the source has %v", got, want)
	}
	return nil
}

func cp(m map[string]string) map[string]string {
	ret := map[string]string{}
	for k, v := range m {
		ret[k] = v
	}
	return ret
}

// ---- the worlds of etcd

type etcdWorld struct {
	c       remoteCfg
	f       *etcdFake
	st      store.Store
	cancel  context.CancelFunc
	w       *etcdWatch
	remote  map[string]string
	history []map[string]string // by revision
	seen    map[string]string   // what was delivered
	seenRev int64
	own     map[string]string
	loaded  bool
	closed  bool
	step    int
}

func (w *etcdWorld) hist() {
	for int64(len(w.history)) <= w.f.rev {
		w.history = append(w.history, cp(w.remote))
	}
}

// forget the values of the user for the keys which the source has changed.
func (w *etcdWorld) forget(after, upto int64) {
	for _, e := range w.f.log {
		if r := e.Kv.ModRevision; r > after && r <= upto && w.c.selects(string(e.Kv.Key)) {
			delete(w.own, w.c.key(string(e.Kv.Key)))
		}
	}
}

func (w *etcdWorld) put(k string) {
	w.step++
	w.putv(k, fmt.Sprint("v", w.step))
}

func (w *etcdWorld) putv(k, v string) {
	w.f.put(k, v)
	w.remote[k] = v
	w.hist()
}

func (w *etcdWorld) del(k string) {
	w.f.del(k)
	delete(w.remote, k)
	w.hist()
}

func etcdProvider(c remoteCfg, f *etcdFake) store.Provider {
	opts := []etcd.Opt{etcd.WithWatchEnabled(c.watch), etcd.WithStripPrefix(c.strip), etcd.WithPrependPrefix(c.prep), etcd.WithDelimiter(c.delim)}
	switch {
	case c.rec && !c.posOpt:
		opts = append(opts, etcd.WithStorePrefix(c.pos))
	case c.rec:
		opts = append(opts, etcd.WithRecursive(true))
	case !c.posOpt:
		opts = append(opts, etcd.WithKey(c.pos))
	}
	if c.meta {
		opts = append(opts, etcd.WithEtcdConfig(clientv3.Config{}), etcd.WithProcessMeta(true))
	}
	p := etcd.New(opts...)
	p.Client = f.client(context.Background())
	return p
}

func (w *etcdWorld) load(between string) error {
	ctx, cancel := context.WithCancel(context.Background())
	w.cancel = cancel
	c := w.c
	p := etcdProvider(c, w.f)
	w.seen, w.seenRev = cp(w.remote), w.f.rev
	if between != "" {
		w.f.onGet = func() { w.f.onGet = nil; w.put(between) }
	}
	if _, err := c.target(w.st).Load(ctx, c.loadOpts(p)...); err != nil {
		return fmt.Errorf("Load: %v", err)
	}
	w.loaded = true
	if !c.watched() {
		return nil
	}
	select {
	case w.w = <-w.f.reg:
	case <-time.After(patience):
		return fmt.Errorf("the source is not watched within %v", patience)
	}
	return nil
}

func (w *etcdWorld) deliver(upto int64, single bool) error {
	if err := w.f.deliver(w.w, upto, single); err != nil {
		return err
	}
	w.forget(w.seenRev, upto)
	w.seen, w.seenRev = w.history[upto], upto
	return nil
}

func etcdSys(c remoteCfg) *eng.Sys[etcdWorld] {
	type op = eng.Op[etcdWorld]
	live := func(w *etcdWorld) bool { return w.w != nil && !w.closed && w.seenRev < w.f.rev }
	var ops []op
	for _, k := range c.keys {
		ops = append(ops,
			op{Name: "put " + k, Do: func(w *etcdWorld) error { w.put(k); return nil }},
			op{Name: "delete " + k, En: func(w *etcdWorld) bool { _, ok := w.remote[k]; return ok }, Do: func(w *etcdWorld) error { w.del(k); return nil }})
	}
	unloaded := func(w *etcdWorld) bool { return !w.loaded }
	k0 := c.keys[0]
	ops = append(ops,
		op{Name: "put an empty " + k0, Do: func(w *etcdWorld) error { w.putv(k0, ""); return nil }},
		op{Name: "put " + k0 + " again", En: func(w *etcdWorld) bool { _, ok := w.remote[k0]; return ok && w.own[c.key(k0)] != "" }, Do: func(w *etcdWorld) error { w.putv(k0, w.remote[k0]); return nil }},
		op{Name: "Set(" + c.key(k0) + ")", En: func(w *etcdWorld) bool { return w.loaded && w.own[c.key(k0)] == "" }, Do: func(w *etcdWorld) error {
			w.st.Set(c.key(k0), "user")
			w.own[c.key(k0)] = "user"
			return nil
		}},
		op{Name: "Load", En: unloaded, Do: func(w *etcdWorld) error { return w.load("") }},
		op{Name: "Load, and put " + c.keys[0] + " between reading and watching", En: unloaded, Do: func(w *etcdWorld) error { return w.load(c.keys[0]) }},
		op{Name: "deliver the events of the next revision", En: live, Do: func(w *etcdWorld) error { return w.deliver(w.seenRev+1, false) }},
		op{Name: "deliver all events at once", En: live, Do: func(w *etcdWorld) error { return w.deliver(w.f.rev, false) }},
		op{Name: "deliver all events one by one", En: live, Do: func(w *etcdWorld) error { return w.deliver(w.f.rev, true) }},
		op{Name: "Set(own)", En: func(w *etcdWorld) bool { return w.own["own.k"] == "" }, Do: func(w *etcdWorld) error { w.st.Set("own.k", "o"); w.own["own.k"] = "o"; return nil }},
		op{Name: "Close", En: func(w *etcdWorld) bool { return w.w != nil && !w.closed }, Do: func(w *etcdWorld) error {
			w.closed = true
			w.st.Close()
			if w.f.closed != 1 {
				return fmt.Errorf("Close closed the watching of the source %d times", w.f.closed)
			}
			return nil
		}},
	)
	return &eng.Sys[etcdWorld]{Name: "etcd/" + c.name,
		New: func() *etcdWorld {
			w := &etcdWorld{c: c, f: newEtcdFake(), st: store.New(store.WithWatchEnable(c.stw)), remote: map[string]string{}, own: map[string]string{}, seen: map[string]string{}}
			w.hist()
			return w
		},
		Ops: ops,
		Obs: func(w *etcdWorld) error { return compare(c, w.st, w.seen, w.own) },
		Fin: func(w *etcdWorld) {
			if w.cancel != nil {
				w.cancel()
			}
			if !c.watched() {
				w.f.mu.Lock()
				defer w.f.mu.Unlock()
				if len(w.f.watches) > 0 {
					panic("the source is watched, which was not asked for")
				}
			}
		},
	}
}
