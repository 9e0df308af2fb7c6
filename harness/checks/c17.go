package checks

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"

	"github.com/hedzr/store"
	"github.com/hedzr/store/verifharness/eng"
)

func init() {
	register("C17", runC17, "streaming providers cannot report errors; if one panics, the pairs delivered before stay, and only the usability of the store is claimed")
	register("C18", runC18, "whether a watched change counts as a modification, and which kind of handler it is notified to, is not claimed")
	register("C19", runC19)
}

var errFault = errors.New("injected fault")

type faultWorld struct {
	evWorld
	provs []*watchBytesProv // all of the providers, to see which are watched
	wr    store.Writeable
	prov  *watchBytesProv
	codec *jsonCodec
	at    string
	fault error // instead of errFault
}

func (w *faultWorld) flt() error {
	if w.fault != nil {
		return w.fault
	}
	return errFault
}

type oddError struct{ s string }

func (e *oddError) Error() string { return e.s }

var oddErrors = []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrShortWrite, os.ErrNotExist, os.ErrPermission, os.ErrExist, os.ErrClosed, context.Canceled, context.DeadlineExceeded,
	fmt.Errorf("wrapped: %w", io.EOF), errors.Join(errors.New("first"), os.ErrNotExist), &oddError{""}, &oddError{"x"}, &fs.PathError{Op: "open", Path: "p", Err: os.ErrNotExist},
	errors.New("not implemented"), errors.New("not found")}

// oddFaults: errors which mean something to other code are reported like any other.
func oddFaults(c *eng.Ctx, s *eng.Sys[faultWorld], doc map[string]any) {
	points := []string{"Read error", "Read data", "Read error+bytes", "Read error+stream", "ReadBytes error", "ReadBytes data", "Unmarshal error", "Unmarshal data", "Marshal error", "Write error"}
	ats := []string{"", "app", "view"}
	n, m := len(points), len(oddErrors)
	eng.Enum(c, "odd-faults", n*m*len(ats)*2, func(i int) string {
		return fmt.Sprintf("%s: %T %q at %q codec=%v", points[i%n], oddErrors[i/n%m], oddErrors[i/n%m], ats[i/n/m%3], i/n/m/3 == 0)
	}, func(i int) (int, error) {
		point, kind, _ := strings.Cut(points[i%n], " ")
		at, useCodec := ats[i/n/m%3], i/n/m/3 == 0
		view := at == "view"
		if view {
			at = ""
		}
		if !useCodec && point == "Unmarshal" {
			return 0, nil
		}
		w := s.New()
		defer s.Fin(w)
		w.fault = oddErrors[i/n%m]
		if point == "Marshal" || point == "Write" {
			if err := w.goodLoad(at, view, doc); err != nil {
				return 1, err
			}
			w.st.Set(joinD(".", w.at, "a"), "user")
			w.doSet(joinD(".", w.at, "a"), "user", false)
			w.r.m[joinD(".", w.at, "a")].mod = true
			*w.evWorld.log = nil
			if err := w.failingSave(point, kind); err != nil {
				return 2, err
			}
		} else if err := w.failingLoad(at, view, useCodec, point, kind, doc); err != nil {
			return 1, err
		}
		return 2, s.Obs(w)
	})
}

// try runs f and tells whether it panics.
func try(f func()) (p any) {
	defer func() { p = recover() }()
	f()
	return
}

func runC17(c *eng.Ctx) {
	type op = eng.Op[faultWorld]
	type fault struct {
		point string
		kind  string // error, panic, data (an error together with data), garbage
	}
	var faults []fault
	for _, p := range []string{"Read", "ReadBytes", "Unmarshal"} {
		for _, k := range []string{"error", "panic", "data", "error+bytes", "error+stream"} {
			if p != "Read" && len(k) > 5 {
				continue
			}
			faults = append(faults, fault{p, k})
		}
	}
	faults = append(faults, fault{"ReadBytes", "garbage"}, fault{"ReadBytes", "truncated"}, fault{"GetCodec", "panic"}, fault{"Next", "panic"})
	doc := map[string]any{"a": "loaded", "n": map[string]any{"x": "1", "y": []any{"2"}}}
	var ops []op
	for _, at := range []string{"", "app"} {
		for _, viaView := range []bool{false, true} {
			if viaView && at != "" {
				continue
			}
			for _, useCodec := range []bool{true, false} {
				for _, f := range faults {
					if !useCodec && (f.point == "Unmarshal" || f.point == "Read") {
						continue
					}
					name := fmt.Sprintf("Load at %q view=%v codec=%v: %s at %s", at, viaView, useCodec, f.kind, f.point)
					ops = append(ops, op{Name: name, Do: func(w *faultWorld) error { return w.failingLoad(at, viaView, useCodec, f.point, f.kind, doc) }})
				}
			}
			ops = append(ops, op{Name: fmt.Sprintf("Load at %q view=%v", at, viaView), Do: func(w *faultWorld) error { return w.goodLoad(at, viaView, doc) }})
		}
	}
	for _, f := range []fault{{"Marshal", "error"}, {"Marshal", "panic"}, {"Write", "error"}, {"Write", "panic"}, {"Write", "notimpl"}, {"", ""}} {
		ops = append(ops, op{Name: fmt.Sprintf("Save: %s at %s", f.kind, f.point), En: func(w *faultWorld) bool { return w.wr != nil }, Do: func(w *faultWorld) error { return w.failingSave(f.point, f.kind) }})
	}
	set := func(k string) op {
		return op{Name: fmt.Sprintf("Set(%q)", k), Do: func(w *faultWorld) error {
			want := w.doSet(k, "user", false)
			w.r.m[k].mod = true
			n, _ := w.st.Set(k, "user")
			if !n.Modified() {
				return errf("Set(%q): the key is not flagged as modified", k)
			}
			return w.check(true, want)
		}}
	}
	ops = append(ops, set("a"), set("app.a"), set("n.x"),
		op{Name: "WithinLoading(panic)", Do: func(w *faultWorld) error {
			if p := try(func() { w.st.WithinLoading(func() { panic("wl") }) }); p != "wl" {
				return errf("the panic became %v", p)
			}
			return nil
		}})
	s := &eng.Sys[faultWorld]{Name: "faults", Ops: ops,
		New: func() *faultWorld {
			w := &faultWorld{evWorld: *newEvWorld(store.WithWatchEnable(true))}
			for i, k := range []string{"a", "app.a", "app.z", "q"} {
				w.st.Set(k, i)
				w.r.set(k, i)
				w.r.m[k].mod = true
			}
			w.st.SetComment("a", "D", "C")
			w.st.SetTag("app.a", "T")
			w.r.m["a"].desc, w.r.m["a"].comment, w.r.m["app.a"].tag = "D", "C", "T"
			*w.evWorld.log = nil
			return w
		},
		Obs: func(w *faultWorld) error {
			if err := w.r.same(w.st, w.st); err != nil {
				return err
			}
			// the loading state must have ended
			ran := false
			w.st.WithinLoading(func() { ran = true })
			if !ran {
				return errf("the store is still loading")
			}
			return nil
		},
		Fin: func(w *faultWorld) { w.st.Close() },
		Key: func(w *faultWorld) string { return w.key() + fmt.Sprint(w.wr != nil, w.at) }}
	oddFaults(c, s, doc)
	eng.DFS(c, s, pick(c, 3, 4))
	s2 := *s
	s2.Name = "faults-bfs"
	eng.BFS(c, &s2, pick(c, 4, 6), 1000000)
}

func (w *faultWorld) newProv(useCodec bool, doc map[string]any) (*watchBytesProv, *jsonCodec) {
	codec := &jsonCodec{}
	p := &watchBytesProv{bytesProv{b: mustJSON(doc)}}
	if useCodec {
		p.codec = codec
	}
	w.provs = append(w.provs, p)
	return p, codec
}

func (w *faultWorld) loadOpts(at string, viaView bool, p store.Provider) (store.Store, []store.LoadOpt) {
	opts := []store.LoadOpt{store.WithProvider(p)}
	if at != "" {
		opts = append(opts, store.WithStorePrefix(at))
	}
	st := w.st
	if viaView {
		st = st.WithPrefix("app")
	}
	return st, opts
}

func (w *faultWorld) goodLoad(at string, viaView bool, doc map[string]any) error {
	p, codec := w.newProv(true, doc)
	st, opts := w.loadOpts(at, viaView, p)
	wr, err := st.Load(bg, opts...)
	if err != nil || wr == nil {
		return errf("Load = %v, %v", wr, err)
	}
	if viaView {
		at = "app"
	}
	fl := map[string]any{}
	for k, v := range doc {
		flat(fl, joinD(".", at, k), ".", v, false)
	}
	var want []string
	for _, k := range sorted(fl) {
		want = append(want, w.doSet(k, fl[k], true))
	}
	if p.watched != 1 {
		return errf("the source is watched %d times", p.watched)
	}
	w.wr, w.prov, w.codec, w.at = wr, p, codec, at
	return w.check(false, want...)
}

// faulty providers which deliver data together with an error
type dataErrRead struct{ watchReadProv }

func (p *dataErrRead) Read() (map[string]store.ValPkg, error) { return p.m, p.err() }

type readFault struct {
	watchReadProv
	f func() error
}

func (p *readFault) Read() (map[string]store.ValPkg, error) { return nil, p.f() }

// readErrBytes cannot Read, but it has got the bytes.
type readErrBytes struct{ watchBytesProv }

func (p *readErrBytes) Read() (map[string]store.ValPkg, error) { return nil, p.err() }

// readErrStream cannot Read, but it has got a stream.
type readErrStream struct{ watchStreamProv }

func (p *readErrStream) Read() (map[string]store.ValPkg, error) { return nil, p.err() }

type dataErrBytes struct{ watchBytesProv }

func (p *dataErrBytes) ReadBytes() ([]byte, error) { return p.b, p.err() }

type dataErrCodec struct {
	jsonCodec
	e error
}

func (c *dataErrCodec) Unmarshal(b []byte) (map[string]any, error) {
	m, _ := c.jsonCodec.Unmarshal(b)
	return m, c.e
}

type panicCodecProv struct{ watchBytesProv }

func (p *panicCodecProv) GetCodec() store.Codec { panic("injected") }

type panicStream struct{ streamProv }

func (p *panicStream) Next() (string, bool) { panic("injected") }

func (w *faultWorld) failingLoad(at string, viaView, useCodec bool, point, kind string, doc map[string]any) error {
	p, codec := w.newProv(useCodec, doc)
	var prov store.Provider = p
	inject := func(name string) error {
		if name != point {
			return nil
		}
		switch kind {
		case "error":
			return w.flt()
		case "panic":
			panic("injected")
		}
		return nil
	}
	p.fe = w.fault
	watched := func() int { return p.watched }
	switch {
	case point == "Read" && kind == "data":
		d := &dataErrRead{watchReadProv{readProv{m: map[string]store.ValPkg{"a": {Value: "bad"}, "zz": {Value: "bad"}}}}}
		d.fe = w.fault
		prov, watched = d, func() int { return d.watched }
	case point == "Read" && kind == "error+bytes":
		d := &readErrBytes{*p}
		prov, watched = d, func() int { return d.watched }
	case point == "Read" && kind == "error+stream":
		d := &readErrStream{watchStreamProv{*newStream(map[string]any{"a": "bad", "zz": "bad"})}}
		d.fe = w.fault
		prov, watched = d, func() int { return d.watched }
	case point == "Read":
		d := &readFault{f: func() error { return inject("Read") }}
		prov, watched = d, func() int { return d.watched }
	case point == "ReadBytes" && kind == "data":
		d := &dataErrBytes{*p}
		prov, watched = d, func() int { return d.watched }
	case point == "ReadBytes" && kind == "garbage":
		p.b = []byte("\x00{not json")
	case point == "ReadBytes" && kind == "truncated":
		p.b = p.b[:len(p.b)-1]
	case point == "ReadBytes":
		p.fault = inject
	case point == "Unmarshal" && kind == "data":
		p.codec = &dataErrCodec{e: w.flt()}
	case point == "Unmarshal":
		codec.fault = inject
	case point == "GetCodec":
		d := &panicCodecProv{*p}
		prov, watched = d, func() int { return d.watched }
	case point == "Next":
		d := &panicStream{*newStream(map[string]any{"a": 1})}
		prov = d
	}
	st, opts := w.loadOpts(at, viaView, prov)
	var wr store.Writeable
	var err error
	pv := try(func() { wr, err = st.Load(bg, opts...) })
	if kind == "panic" {
		if pv == nil && err == nil {
			return errf("a panic of the source got lost")
		}
	} else {
		if pv != nil {
			return errf("Load panics: %v", pv)
		}
		if err == nil {
			return errf("Load reports no error")
		}
		if strings.HasPrefix(kind, "error") || kind == "data" {
			if f := w.flt(); !errors.Is(err, f) && !strings.Contains(err.Error(), f.Error()) {
				return errf("Load reports %v instead of the error of the source", err)
			}
		}
		if wr != nil {
			return errf("Load returns a Writeable though it fails")
		}
	}
	if n := watched(); n != 0 {
		return errf("the source is watched though the load failed")
	}
	// the view is usable, too
	ran := false
	st.WithinLoading(func() { ran = true })
	if !ran {
		return errf("the store is still loading")
	}
	return w.check(true) // no notifications
}

func (w *faultWorld) failingSave(point, kind string) error {
	f := func(name string) error {
		if name == point {
			switch kind {
			case "error":
				return w.flt()
			case "notimpl":
				return store.ErrNotImplemented
			case "panic":
				panic("injected")
			}
		}
		return nil
	}
	w.codec.fault, w.prov.fault = f, f
	defer func() { w.codec.fault, w.prov.fault = nil, nil }()
	w.prov.wrote = nil
	var err error
	pv := try(func() { err = w.wr.Save(bg) })
	want, conflict := w.r.doc(w.at, false)
	if len(want) == 0 {
		if err != nil || pv != nil || len(w.prov.wrote) > 0 {
			return errf("Save without modifications: %v, %v", err, pv)
		}
		return w.check(true)
	}
	switch kind {
	case "":
		if err != nil || pv != nil || !conflict && (len(w.prov.wrote) != 1 || !sameJSON(w.prov.wrote[0], want)) {
			return errf("Save: %v %v, wrote %q, want %v", err, pv, w.prov.wrote, want)
		}
	case "panic":
		if pv == nil && err == nil {
			return errf("a panic of %s got lost", point)
		}
	case "error":
		if pv != nil || !errors.Is(err, w.flt()) {
			return errf("Save reports %v instead of the error of %s", err, point)
		}
	case "notimpl":
		if pv != nil || err == nil {
			return errf("Save reports %v though nothing was written", err)
		}
	}
	if kind != "" && len(w.prov.wrote) != 0 {
		return errf("Save wrote %q though it failed", w.prov.wrote)
	}
	return w.check(true)
}
