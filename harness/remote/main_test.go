package remote

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"testing"
	"time"

	logz "github.com/hedzr/logg/slog"

	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
)

// TestCheck runs one check, chosen by the environment (see /verif/vrun).
func TestCheck(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	logz.SetLevel(logz.OffLevel)
	radix.StatesEnvSetColorMode(true)
	debug.SetGCPercent(400)
	budget := 150.0
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	if thorough {
		budget = 780
	}
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64); err == nil {
		budget = v
	}
	start := time.Now()
	c := eng.NewCtx(id, thorough, os.Getenv("VERIF_CRUMBS"), start.Add(time.Duration(budget*float64(time.Second))))
	c.Known = known(os.Getenv("VERIF_KNOWN"), id)
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		c.Replay = &eng.Trace{}
		if err = json.Unmarshal(b, c.Replay); err != nil {
			panic(err)
		}
	}
	if f := os.Getenv("VERIF_CPU"); f != "" {
		if out, err := os.Create(f); err == nil {
			_ = pprof.StartCPUProfile(out)
		}
	}
	run(c)
	pprof.StopCPUProfile()
	c.Assumptions = append(c.Assumptions, assumptions...)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if f := os.Getenv("VERIF_EVIDENCE"); f != "" && c.Replay == nil {
		if err := os.WriteFile(f, c.Evidence("model_checking", seed, time.Since(start).Seconds()), 0o644); err != nil {
			panic(err)
		}
	}
	if v := c.Violation(); v != nil {
		b, _ := json.MarshalIndent(v, "", " ")
		if f := os.Getenv("VERIF_OUT"); f != "" {
			_ = os.WriteFile(f, b, 0o644)
		}
		fmt.Printf("VIOLATED %s\n", b)
		os.Exit(66)
	}
	fmt.Printf("HELD exhaustive=%v\n", c.Exhaustive())
	if os.Getenv("VERIF_STATS") != "" {
		for _, s := range c.Stats {
			b, _ := json.Marshal(s)
			fmt.Println(string(b))
		}
	}
	os.Exit(0)
}

// known reads the lines "open: property=<id> id=<name> <what fails>".
func known(file, prop string) map[string]string {
	ret := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, line := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(line, "open: property="+prop+" id="); ok {
			name, what, _ := strings.Cut(rest, " ")
			ret[name] = what
		}
	}
	return ret
}
