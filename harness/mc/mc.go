// Package mc is the bookkeeping shared by all checks: counting what an exploration covered,
// recording violations as replayable artefacts, and writing the evidence file.
package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const maxViolations = 5

// Ctx is one run of one property's check.
type Ctx struct {
	Prop     string
	Tier     string
	Thorough bool
	Level    string
	Seed     int64
	Dir      string // /verif
	Work     string // scratch directory, removed at the end

	start       time.Time
	deadline    time.Time
	states      atomic.Int64
	transitions atomic.Int64
	traces      atomic.Int64
	evals       atomic.Int64
	expired     atomic.Bool
	stopped     atomic.Bool

	Assume  []string // what the check takes for granted
	done    atomic.Int64
	slot    atomic.Int64
	running [64]atomic.Pointer[func() string]

	mu       sync.Mutex
	seen     map[string]struct{}
	outcomes map[string]int64
	samples  []any
	spaces   []string
	bad      []violation
	capped   []string
	replay   string
}

type violation struct {
	ID     string `json:"case"`
	Detail string `json:"detail"`
}

// New creates the context from the environment.
func New(prop string) *Ctx {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	c := &Ctx{
		Prop: prop, Tier: tier, Thorough: tier == "thorough", Level: "model_checking",
		Seed: 1, Dir: os.Getenv("VERIF_DIR"),
		start: time.Now(), seen: map[string]struct{}{}, outcomes: map[string]int64{},
		replay: os.Getenv("VERIF_REPLAY_CASE"),
	}
	if c.Dir == "" {
		c.Dir = "/verif"
	}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.Seed)
	limit := 600 * time.Second
	if c.Thorough {
		limit = 3 * time.Hour
	}
	c.deadline = c.start.Add(limit)
	w, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		panic(err)
	}
	c.Work = w
	go c.watch()
	return c
}

// watch ends a run whose code under test does not come back: no case completed for two minutes although the
// process computed for most of that time, or memory grew without bound.
func (c *Ctx) watch() {
	type mark struct {
		done int64
		at   time.Time
		cpu  time.Duration
	}
	last := mark{0, time.Now(), cpuTime()}
	for {
		time.Sleep(500 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		why := ""
		if m.HeapInuse > 14<<30 {
			why = fmt.Sprintf("memory grew to %d MB", m.HeapInuse>>20)
		}
		if d := c.done.Load(); d != last.done {
			last = mark{d, time.Now(), cpuTime()}
		} else if time.Since(last.at) > 120*time.Second && cpuTime()-last.cpu > 60*time.Second {
			why = "a call does not return"
		}
		if why != "" {
			id := "unknown"
			for i := range c.running {
				if f := c.running[i].Load(); f != nil {
					id = (*f)()
					break
				}
			}
			c.Bad(id, "%s", why)
			c.Finish()
		}
	}
}

func cpuTime() time.Duration {
	var r syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &r)
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

// Space records in words one finite space that this run enumerates.
func (c *Ctx) Space(format string, args ...any) {
	c.mu.Lock()
	c.spaces = append(c.spaces, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

// States counts n model states (distinct inputs or configurations by construction of the enumeration).
func (c *Ctx) States(n int) { c.states.Add(int64(n)) }

// Steps counts n transitions: operations executed on the real code and compared with the model.
func (c *Ctx) Steps(n int) { c.transitions.Add(int64(n)) }

// Trace counts one complete execution of the real code, compared with the model at every step.
func (c *Ctx) Trace() { c.traces.Add(1) }

// Case counts a one-step execution: a state, a transition and a trace validated.
func (c *Ctx) Case() {
	c.states.Add(1)
	c.transitions.Add(1)
	c.traces.Add(1)
}

// Visit adds a state to the visited set and says whether it was new.
func (c *Ctx) Visit(key string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.seen[key]; ok {
		return false
	}
	c.seen[key] = struct{}{}
	c.states.Add(1)
	return true
}

// Outcome counts observed outcome classes: one class over many executions would mean a vacuous run.
func (c *Ctx) Outcome(class string) {
	c.mu.Lock()
	c.outcomes[class]++
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 8 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Cap records that a bound was cut short.
func (c *Ctx) Cap(what string) {
	c.mu.Lock()
	c.capped = append(c.capped, what)
	c.mu.Unlock()
}

// Expired reports whether the internal deadline has passed (the run then ends with exhaustive:false).
func (c *Ctx) Expired() bool {
	if c.expired.Load() {
		return true
	}
	if time.Now().After(c.deadline) {
		c.expired.Store(true)
		return true
	}
	return false
}

// Stop reports whether enough violations were found.
func (c *Ctx) Stop() bool { return c.stopped.Load() }

// Bad records a violation of the property.
func (c *Ctx) Bad(id, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, v := range c.bad {
		if v.ID == id {
			return
		}
	}
	if len(c.bad) < maxViolations {
		c.bad = append(c.bad, violation{id, fmt.Sprintf(format, args...)})
	}
	if len(c.bad) >= maxViolations {
		c.stopped.Store(true)
	}
}

// Violated reports whether a violation was recorded.
func (c *Ctx) Violated() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.bad) > 0
}

// Wanted reports whether the case is to be run (always, unless one case is being replayed).
func (c *Ctx) Wanted(id func() string) bool {
	return c.replay == "" || id() == c.replay
}

// Try runs one case; an error or a panic of the code under test is a violation.
func (c *Ctx) Try(id func() string, f func() error) {
	if c.stopped.Load() || !c.Wanted(id) {
		return
	}
	slot := &c.running[uint64(c.slot.Add(1))%uint64(len(c.running))]
	slot.Store(&id)
	err := Safe(f)
	slot.CompareAndSwap(&id, nil)
	c.done.Add(1)
	if err != nil {
		c.Bad(id(), "%s", err)
	}
}

// Safe runs f and turns a panic into an error.
func Safe(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if len(st) > 1500 {
				st = st[:1500]
			}
			err = fmt.Errorf("panic: %v\n%s", p, st)
		}
	}()
	return f()
}

// Parallel runs f(0..n-1) on all cores and waits.
func (c *Ctx) Parallel(n int, f func(i int)) { c.ParallelN(runtime.NumCPU(), n, f) }

// ParallelN is Parallel with a given number of workers.
func (c *Ctx) ParallelN(workers, n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1) - 1)
				if i >= n || c.Stop() {
					return
				}
				if c.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Finish writes the evidence and replay files, prints the verdict and exits.
func (c *Ctx) Finish() {
	os.RemoveAll(c.Work)
	exhaustive := !c.expired.Load() && !c.stopped.Load() && len(c.capped) == 0 && c.replay == ""
	cov := map[string]any{
		"exhaustive": exhaustive,
		"spaces":     c.spaces,
		"outcomes":   c.outcomes,
	}
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	cov["samples"] = c.samples
	cov["states"] = c.states.Load()
	cov["transitions"] = c.transitions.Load()
	cov["traces_validated_against_impl"] = c.traces.Load()
	if c.Level != "model_checking" {
		cov["evaluations"] = c.traces.Load()
		cov["distinct_nontrivial"] = c.states.Load()
		cov["rule"] = strings.Join(c.spaces, "; ")
		delete(cov, "states")
		delete(cov, "traces_validated_against_impl")
	}
	if len(c.capped) > 0 {
		cov["caps_hit"] = c.capped
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assume,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.bad),
	}
	if c.replay == "" {
		writeJSON(filepath.Join(c.Dir, "evidence", c.Prop+".json"), ev)
	}
	keys := make([]string, 0, len(c.outcomes))
	for k := range c.outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs\n", c.Prop, c.Tier,
		c.states.Load(), c.transitions.Load(), c.traces.Load(), exhaustive, time.Since(c.start).Seconds())
	for _, k := range keys {
		fmt.Printf("  outcome %-40s %d\n", k, c.outcomes[k])
	}
	for _, k := range c.capped {
		fmt.Printf("  cap: %s\n", k)
	}
	if len(c.bad) == 0 {
		os.Exit(0)
	}
	for i, v := range c.bad {
		path := filepath.Join(c.Dir, "replays", fmt.Sprintf("%s-%d.json", c.Prop, i))
		writeJSON(path, map[string]any{
			"property": c.Prop, "tier": c.Tier, "case": v.ID, "detail": v.Detail,
			"replay_cmd": fmt.Sprintf("bash %s/run.sh replay %s", c.Dir, path),
		})
		d := v.Detail
		if len(d) > 600 {
			d = d[:600] + "..."
		}
		fmt.Printf("case %s\n  %s\n", v.ID, strings.ReplaceAll(d, "\n", "\n  "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
	}
	os.Exit(1)
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}
