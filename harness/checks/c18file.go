package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"time"

	"github.com/hedzr/store"
	sjson "github.com/hedzr/store/codecs/json"
	"github.com/hedzr/store/providers/file"
	"github.com/hedzr/store/verifharness/eng"
)

// fileWatch shows the known finding of the file provider: its events do not
// reach the store. It cannot raise an alarm: a file system tells its events
// whenever it likes.
func fileWatch(c *eng.Ctx) {
	what, known := c.Known["file-watch"]
	if !known || c.Replay != nil {
		return
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c18-")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "a.json")
	write := func(s string) { _ = os.WriteFile(f, []byte(s), 0o644) }
	write(`{"a":"1"}`)
	st := store.New(store.WithWatchEnable(true))
	if _, err = st.Load(bg, store.WithProvider(file.New(f, file.WithWatchEnabled(true))), store.WithCodec(sjson.New())); err != nil {
		return
	}
	time.Sleep(200 * time.Millisecond)
	write(`{"a":"2"}`)
	time.Sleep(time.Second)
	_ = os.RemoveAll(f) // ends the watching
	time.Sleep(100 * time.Millisecond)
	if v, _ := st.Get("a"); eq(v, "1") {
		fmt.Printf("KNOWN-FINDING: property=C18 %s\n", what)
	}
}
