// Package remote explores the providers of remote key-value stores.
package remote

import (
	"fmt"
	"strings"

	"github.com/hedzr/store/verifharness/eng"
)

var assumptions = []string{
	"the Go compiler, runtime and standard library, and the third-party modules of hedzr/store, behave as documented",
	"the servers of etcd and consul are stand-ins which follow the documented revisions, indexes and blocking queries; the client libraries are the real ones (the transport and watch stream of etcd excepted)",
	"keys of the source of which one is a section of another one are explored by the known finding only",
}

func run(c *eng.Ctx) {
	options(c)
	faults(c)
	ends(c)
	sections(c)
	replacements(c)
	reads(c)
	d := 5
	if c.Thorough {
		d = 6
	}
	for _, cfg := range cfgs {
		eng.DFS(c, etcdSys(cfg), d+1)
	}
	if err := openHub(); err != nil {
		fmt.Println("the loopback network does not work, the watching of consul is not explored:", err)
		c.Incomplete()
		return
	}
	for _, cfg := range cfgs {
		if cfg.pos == "" || strings.HasPrefix(cfg.pos, "/") {
			continue // a plan of consul needs a prefix, and its client drops a leading slash
		}
		eng.DFS(c, consulSys(cfg), d)
	}
}
