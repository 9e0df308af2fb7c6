package checks

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"time"

	"github.com/hedzr/store"
)

// The providers of the checks: in memory, with faults at every call.

type provBase struct {
	codec    store.Codec
	pos      string
	log      *[]string // calls
	fault    func(call string) error
	fe       error // the error of a faulty provider
	watch    bool
	cb       func(event any, err error)
	ctx      context.Context
	watchErr error
	closed   int
	watched  int
}

func (p *provBase) err() error {
	if p.fe != nil {
		return p.fe
	}
	return errFault
}

func (p *provBase) GetCodec() store.Codec   { return p.codec }
func (p *provBase) GetPosition() string     { return p.pos }
func (p *provBase) WithCodec(c store.Codec) { p.codec = c }
func (p *provBase) WithPosition(pos string) { p.pos = pos }

func (p *provBase) call(name string) error {
	if p.log != nil {
		*p.log = append(*p.log, name)
	}
	if p.fault != nil {
		return p.fault(name)
	}
	return nil
}

// readProv implements Read.
type readProv struct {
	provBase
	m     map[string]store.ValPkg
	wrote []string
}

func (p *readProv) Read() (map[string]store.ValPkg, error) {
	if err := p.call("Read"); err != nil {
		return nil, err
	}
	return p.m, nil
}

// readWriterProv is a readProv which is an io.Writer.
type readWriterProv struct{ readProv }

func (p *readWriterProv) Write(b []byte) (int, error) {
	if err := p.call("Write"); err != nil {
		return 0, err
	}
	p.wrote = append(p.wrote, string(b))
	return len(b), nil
}

// bytesProv implements ReadBytes and Write.
type bytesProv struct {
	provBase
	b     []byte
	wrote []string
}

func (p *bytesProv) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }
func (p *bytesProv) ReadBytes() ([]byte, error) {
	if err := p.call("ReadBytes"); err != nil {
		return nil, err
	}
	return p.b, nil
}

func (p *bytesProv) Write(b []byte) error {
	if err := p.call("Write"); err != nil {
		return err
	}
	p.wrote = append(p.wrote, string(b))
	return nil
}

// streamProv implements Keys, Next and Value.
type streamProv struct {
	provBase
	keys []string
	m    map[string]any
	i    int
}

func newStream(m map[string]any) *streamProv {
	p := &streamProv{m: m}
	for k := range m {
		p.keys = append(p.keys, k)
	}
	sort.Strings(p.keys)
	return p
}

func (p *streamProv) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }
func (p *streamProv) Keys() ([]string, error)                { return p.keys, nil }
func (p *streamProv) Count() int                             { return len(p.keys) }
func (p *streamProv) Has(key string) bool                    { _, ok := p.m[key]; return ok }
func (p *streamProv) Next() (string, bool) {
	_ = p.call("Next")
	if p.i >= len(p.keys) {
		return "", true
	}
	p.i++
	return p.keys[p.i-1], false
}
func (p *streamProv) Value(key string) (any, bool) { v, ok := p.m[key]; return v, ok }
func (p *streamProv) MustValue(key string) any     { return p.m[key] }

// the watchable ones
func (p *provBase) watchImpl(ctx context.Context, cb func(event any, err error)) error {
	if p.watchErr != nil {
		return p.watchErr
	}
	p.ctx, p.cb = ctx, cb
	p.watched++
	return nil
}

type watchBytesProv struct{ bytesProv }

func (p *watchBytesProv) Watch(ctx context.Context, cb func(event any, err error)) error {
	return p.watchImpl(ctx, cb)
}
func (p *watchBytesProv) Close() { p.closed++ }

type watchReadProv struct{ readProv }

func (p *watchReadProv) Watch(ctx context.Context, cb func(event any, err error)) error {
	return p.watchImpl(ctx, cb)
}
func (p *watchReadProv) Close() { p.closed++ }

// change is a change event.
type change struct {
	op   store.Op
	keys []string
	vals []any
	i    int
	p    store.Provider
}

func (c *change) Next() (string, any, bool) {
	if c.i >= len(c.keys) {
		return "", nil, false
	}
	c.i++
	return c.keys[c.i-1], c.vals[c.i-1], true
}
func (c *change) Path() string             { return "" }
func (c *change) Op() store.Op             { return c.op }
func (c *change) Has(op store.Op) bool     { return c.op&op != 0 }
func (c *change) Timestamp() time.Time     { return time.Time{} }
func (c *change) Provider() store.Provider { return c.p }

// jsonCodec is the codec of the checks.
type jsonCodec struct {
	fault func(call string) error
	log   *[]string
}

func (c *jsonCodec) Marshal(m map[string]any) ([]byte, error) {
	if c.log != nil {
		*c.log = append(*c.log, "Marshal")
	}
	if c.fault != nil {
		if err := c.fault("Marshal"); err != nil {
			return nil, err
		}
	}
	return json.Marshal(m)
}

func (c *jsonCodec) Unmarshal(b []byte) (map[string]any, error) {
	if c.log != nil {
		*c.log = append(*c.log, "Unmarshal")
	}
	if c.fault != nil {
		if err := c.fault("Unmarshal"); err != nil {
			return nil, err
		}
	}
	var m map[string]any
	err := json.Unmarshal(b, &m)
	return m, err
}

// mapCodec returns a given map.
type mapCodec struct{ m map[string]any }

func (c *mapCodec) Marshal(m map[string]any) ([]byte, error) { return nil, errors.New("unused") }
func (c *mapCodec) Unmarshal(b []byte) (map[string]any, error) {
	return deepCopy(c.m).(map[string]any), nil
}

func mustJSON(m any) []byte {
	b, err := json.Marshal(m)
	if err != nil {
		panic(fmt.Sprint("mustJSON: ", err))
	}
	return b
}

func fromJSON(b []byte) (m map[string]any) {
	if err := json.Unmarshal(b, &m); err != nil {
		panic(fmt.Sprint("fromJSON: ", err))
	}
	return
}

var bg = context.Background()
