package sched

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	logz "github.com/hedzr/logg/slog"

	"github.com/hedzr/store/radix"
	"github.com/hedzr/store/verifharness/eng"
	"github.com/hedzr/store/verifharness/vs"
)

// TestCheck is the check; with VERIF_SCENARIO it is one of its workers.
func TestCheck(t *testing.T) {
	logz.SetLevel(logz.OffLevel)
	radix.StatesEnvSetColorMode(true)
	if name := os.Getenv("VERIF_SCENARIO"); name != "" {
		worker(t, name)
		return
	}
	parent(t)
}

// ---- worker: explores one scenario

type stats struct {
	Schedules  int64
	Steps      int64
	MaxSteps   int
	Complete   bool
	Violation  string
	Plan       []int
	Preempt    int
	Deepest    []int
	Forced     int64
	PerBound   [8]int64
	RaceOn     bool
	Deadlocked bool
}

// the mapped crumb: a counter, the length of the plan and the plan.
var crumb []byte

func openCrumb(file string) {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		panic(err)
	}
	_ = f.Truncate(4096)
	crumb, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
}

func putCrumb(n int64, plan []int) {
	binary.LittleEndian.PutUint64(crumb, uint64(n))
	binary.LittleEndian.PutUint32(crumb[8:], uint32(len(plan)))
	for i, v := range plan {
		binary.LittleEndian.PutUint32(crumb[12+4*i:], uint32(v))
	}
}

func readCrumb(file string) (n int64, plan []int) {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 4096 {
		return
	}
	n = int64(binary.LittleEndian.Uint64(b))
	for i := 0; i < int(binary.LittleEndian.Uint32(b[8:])) && i < 900; i++ {
		plan = append(plan, int(binary.LittleEndian.Uint32(b[12+4*i:])))
	}
	return
}

func worker(t *testing.T, name string) {
	runtime.GOMAXPROCS(1)
	var sc *scenario
	for _, s := range all(os.Getenv("VERIF_TIER") == "thorough") {
		if s.name == name {
			sc = s
		}
	}
	if sc == nil {
		fmt.Println("no scenario", name)
		os.Exit(78)
	}
	openCrumb(os.Getenv("VERIF_CRUMB"))
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	st := &stats{Complete: true, RaceOn: vs.Race}
	exp := sc.alone(t)
	out := func() {
		b, _ := json.Marshal(st)
		_ = os.WriteFile(os.Getenv("VERIF_RESULT"), b, 0o644)
		os.Exit(0)
	}
	var current []int
	failed = func(r vs.Result, err error) {
		st.Violation, st.Plan, st.Deadlocked = err.Error(), current, r.Deadlock
		out()
	}
	run := func(plan []int, record bool) vs.Result {
		st.Schedules++
		current = plan
		putCrumb(st.Schedules, plan)
		r, err := sc.exec(t, plan, record, exp)
		st.Steps += int64(r.Steps)
		st.MaxSteps = max(st.MaxSteps, r.Steps)
		if err != nil {
			failed(r, err)
		}
		return r
	}
	if p := os.Getenv("VERIF_PLAN"); p != "" {
		var plan []int
		_ = json.Unmarshal([]byte(p), &plan)
		for range 3 {
			run(plan, false)
		}
		out()
	}
	bound := sc.bound
	var explore func(plan []int, used int)
	explore = func(plan []int, used int) {
		if !st.Complete {
			return
		}
		if time.Now().After(deadline) {
			st.Complete = false
			return
		}
		r := run(plan, used < bound)
		st.PerBound[used]++
		if len(plan) > len(st.Deepest) {
			st.Deepest = plan
		}
		from := 0
		if len(plan) > 0 {
			from = plan[len(plan)-2] + 1
		}
		// copy the alternatives: they are overwritten by the next run
		type alt struct {
			step   int
			mask   uint8
			forced bool
		}
		var alts []alt
		for _, p := range r.Forced {
			if m := p.Alt & (p.Alt - 1); p.Step >= from && m != 0 { // the lowest one is the default
				alts = append(alts, alt{p.Step, m, true})
			}
		}
		if used < bound {
			for i := from; i < r.Steps; i++ {
				if p := r.Pts[i]; p.Alt != 0 && !p.Forced {
					alts = append(alts, alt{i, p.Alt, false})
				}
			}
		}
		for _, a := range alts {
			for to := range 8 {
				if a.mask&(1<<to) != 0 {
					u := used
					if !a.forced {
						u++
					} else {
						st.Forced++
					}
					next := append(append(make([]int, 0, len(plan)+2), plan...), a.step, to)
					explore(next, u)
				}
			}
		}
	}
	explore(nil, 0)
	out()
}

// ---- parent: runs the workers

func all(thorough bool) []*scenario { return append(scenarios(thorough), knownScenarios(thorough)...) }

type outcome struct {
	stats
	message string // of a violation
	plan    []int
	log     string
}

func launch(sc *scenario, tier string, budget float64, plan []int) *outcome {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "sched")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	res, crumbs := filepath.Join(dir, "result"), filepath.Join(dir, "crumb")
	cmd := exec.Command(os.Args[0], "-test.run", "^TestCheck$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_SCENARIO="+sc.name, "VERIF_TIER="+tier, "VERIF_RESULT="+res, "VERIF_CRUMB="+crumbs,
		fmt.Sprintf("VERIF_BUDGET=%f", budget), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=0")
	if plan != nil {
		b, _ := json.Marshal(plan)
		cmd.Env = append(cmd.Env, "VERIF_PLAN="+string(b))
	}
	cmd.Dir = dir
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	o := &outcome{}
	if err = cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	lastN, idle, hung := int64(-1), 0, false
wait:
	for {
		select {
		case err = <-done:
			break wait
		case <-time.After(time.Second):
			if n, _ := readCrumb(crumbs); n != lastN {
				lastN, idle = n, 0
			} else if idle++; idle > 60 && !hung {
				hung = true
				_ = cmd.Process.Signal(syscall.SIGQUIT)
				time.AfterFunc(3*time.Second, func() { _ = cmd.Process.Kill() })
			}
		}
	}
	_, crumbPlan := readCrumb(crumbs)
	o.log = buf.String()
	if len(o.log) > 6000 {
		o.log = o.log[:6000]
	}
	if b, e := os.ReadFile(res); e == nil && err == nil {
		_ = json.Unmarshal(b, &o.stats)
		o.message, o.plan = o.stats.Violation, o.stats.Plan
		return o
	}
	o.plan = crumbPlan
	switch {
	case hung:
		o.message = "a schedule does not end"
	case strings.Contains(o.log, "WARNING: DATA RACE"):
		o.message = "data race"
	default:
		o.message = fmt.Sprintf("the process ends abnormally (%v)", err)
	}
	return o
}

func parent(t *testing.T) {
	tier := os.Getenv("VERIF_TIER")
	thorough := tier == "thorough"
	budget := 120.0
	if thorough {
		budget = 700
	}
	start := time.Now()
	deadline := start.Add(time.Duration(budget * float64(time.Second)))
	c := eng.NewCtx("C24", thorough, "", deadline)
	known := knownFindings(os.Getenv("VERIF_KNOWN"))
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		tr := &eng.Trace{}
		if err = json.Unmarshal(b, tr); err != nil {
			panic(err)
		}
		for _, sc := range all(thorough) {
			if sc.name == tr.Sys {
				if tr.Ops == nil {
					tr.Ops = []int{}
				}
				if o := launch(sc, tier, 60, tr.Ops); o.message != "" {
					report(c, sc, o)
				}
			}
		}
		finish(c, start)
	}
	list := scenarios(thorough)
	var next atomic.Int64
	var wg sync.WaitGroup
	var mu sync.Mutex
	type row struct {
		sc *scenario
		o  *outcome
	}
	var rows []row
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= len(list) || c.Stopped() {
					return
				}
				left := time.Until(deadline).Seconds()
				if left < 1 {
					c.Incomplete()
					return
				}
				o := launch(list[i], tier, left, nil)
				if o.message != "" {
					report(c, list[i], o)
				}
				mu.Lock()
				rows = append(rows, row{list[i], o})
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, r := range rows {
		if r.o.message == "" {
			c.AddStat(r.sc.name, fmt.Sprintf("all schedules with at most %d preemptions", r.sc.bound), r.o.Schedules, r.o.Steps, r.o.Schedules, r.o.Complete)
			if len(r.o.Deepest) > 0 {
				c.Sample(map[string]any{"scenario": r.sc.name, "schedule (step, thread)": r.o.Deepest})
			}
		}
	}
	if !c.Stopped() {
		for _, sc := range knownScenarios(thorough) {
			o := launch(sc, tier, 30, nil)
			if o.message == "" {
				c.AddStat(sc.name, fmt.Sprintf("all schedules with at most %d preemptions", sc.bound), o.Schedules, o.Steps, o.Schedules, o.Complete)
				continue
			}
			if what := known[sc.known]; what != "" {
				fmt.Printf("KNOWN-FINDING: property=C24 %s\n", what)
				continue
			}
			report(c, sc, o)
			break
		}
	}
	finish(c, start)
}

func report(c *eng.Ctx, sc *scenario, o *outcome) {
	msg := fmt.Sprintf("%s: %s", sc.name, o.message)
	if o.log != "" && o.stats.Violation == "" {
		msg += "\n" + o.log
	}
	var names []string
	for i, r := range sc.readers {
		for _, x := range r {
			names = append(names, fmt.Sprintf("thread %d: %s", i, x.name))
		}
	}
	if len(sc.ttl) > 0 {
		names = append(names, fmt.Sprintf("thread %d: the time-to-live of %v expires", len(sc.readers), sc.ttl))
	}
	for i := 0; i+1 < len(o.plan); i += 2 {
		names = append(names, fmt.Sprintf("at step %d switch to thread %d", o.plan[i], o.plan[i+1]))
	}
	if o.plan == nil {
		o.plan = []int{}
	}
	c.Report(sc.name, o.plan, names, msg)
}

func finish(c *eng.Ctx, start time.Time) {
	c.Assumptions = append(c.Assumptions,
		"a preemption happens at statement boundaries and at lock and pool operations of the packages of the module; an unsynchronised access within a statement is found by the happens-before race detector, from which the hand-over between the threads is hidden",
		"the locks, pools and once of sync are replaced by controlled ones with the semantics of sync (a waiting writer holds off new readers; a pool hands out the object put last); the code below the module (converters, fmt) runs as it is",
		"states and traces count schedules, transitions count the scheduling points passed")
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if f := os.Getenv("VERIF_EVIDENCE"); f != "" && os.Getenv("VERIF_REPLAY") == "" {
		if err := os.WriteFile(f, c.Evidence("model_checking", seed, time.Since(start).Seconds()), 0o644); err != nil {
			panic(err)
		}
	}
	if v := c.Violation(); v != nil {
		b, _ := json.MarshalIndent(v, "", " ")
		if f := os.Getenv("VERIF_OUT"); f != "" {
			_ = os.WriteFile(f, b, 0o644)
		}
		fmt.Printf("VIOLATED %s\n", b)
		os.Exit(66)
	}
	fmt.Printf("HELD exhaustive=%v\n", c.Exhaustive())
	if os.Getenv("VERIF_STATS") != "" {
		for _, s := range c.Stats {
			b, _ := json.Marshal(s)
			fmt.Println(string(b))
		}
	}
	os.Exit(0)
}

func knownFindings(file string) map[string]string {
	ret := map[string]string{}
	b, _ := os.ReadFile(file)
	for _, line := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(line, "open: property=C24 id="); ok {
			name, what, _ := strings.Cut(rest, " ")
			ret[name] = what
		}
	}
	return ret
}
