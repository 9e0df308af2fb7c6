// Package checks holds one exploration per property of hedzr/store.
package checks

import (
	"testing"

	"github.com/hedzr/store/verifharness/eng"
)

type check struct {
	run         func(c *eng.Ctx)
	assumptions []string
}

var registry = map[string]check{}

var testingT *testing.T // for testing/synctest

func register(id string, run func(c *eng.Ctx), assumptions ...string) {
	registry[id] = check{run, append([]string{
		"the Go compiler, runtime and standard library, and the third-party modules of hedzr/store, behave as documented",
		"the store is used by one goroutine at a time, unless the property says otherwise",
	}, assumptions...)}
}
