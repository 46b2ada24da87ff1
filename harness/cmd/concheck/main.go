// concheck explores the interleavings of concurrent library calls. It is built with instrumented library sources.
package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/kklash/mnemonikey/zvsched"
	"verif/mc"
)

// job is what a worker process does: all schedules of some calls, or one of them.
type job struct {
	Ops     []int
	Shared  bool
	First   int
	Limit   int // points of one statement that count, per goroutine
	Depth   int // preemptions
	Only    []zvsched.Switch
	Single  bool
	From    int // of the first preemption's point, for splitting
	To      int
	Base    string // file with the results of each call alone
	Results bool   // just give those
	Log     string // of the race detector
	Skip    []int  // calls whose statements are no points: they are covered elsewhere
}

type answer struct {
	Schedules int
	Points    int
	Applied   int
	Free      int
	Bad       string
	Results   map[string]string
	Max       int
}

func key(op string, n int) string { return fmt.Sprintf("%s/%d", op, n) }

func worker(text string) {
	var j job
	must(json.Unmarshal([]byte(text), &j))
	all := ops()
	var a answer
	if j.Results {
		a.Results = map[string]string{}
		for _, p := range all {
			for n := 0; n < zvsched.Max; n++ {
				if p.judge != nil {
					continue
				}
				o := newObjs(n)
				if p.need != nil {
					p.need(o)
				}
				var got string
				res := zvsched.Run([]func(){func() { got = p.run(o) }}, 0, nil, 1)
				if res.Deadlock || res.Endless || res.Stuck {
					a.Bad = fmt.Sprintf("%q, called alone, does not end", p.name)
					put(&a)
					os.Exit(0)
				}
				a.Results[key(p.name, n)] = got
			}
		}
		put(&a)
		return
	}
	base := map[string]string{}
	b, err := os.ReadFile(j.Base)
	must(err)
	must(json.Unmarshal(b, &base))
	// One run under a plan.
	run := func(plan []zvsched.Switch) (zvsched.Result, error) {
		os_ := make([]*objs, len(j.Ops))
		got := make([]string, len(j.Ops))
		fs := make([]func(), len(j.Ops))
		for i, k := range j.Ops {
			if j.Shared && i > 0 {
				os_[i] = os_[0]
			} else {
				os_[i] = newObjs(i)
			}
			if all[k].need != nil {
				all[k].need(os_[i])
			}
		}
		for i, k := range j.Ops {
			i, k := i, k
			fs[i] = func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(zvsched.Stopped); ok {
							panic(r)
						}
						got[i] = fmt.Sprint("panic: ", r)
					}
				}()
				got[i] = all[k].run(os_[i])
			}
		}
		res := zvsched.Run(fs, j.First, plan, j.Limit)
		a.Schedules++
		for _, n := range res.Points {
			a.Points += n
		}
		a.Applied += res.Applied
		if res.Free {
			a.Free++
		}
		switch {
		case res.Endless:
			return res, errors.New("a call does not end")
		case res.Deadlock:
			return res, errors.New("the calls wait for each other for ever")
		case res.Stuck:
			return res, errors.New("the calls do not end")
		}
		for i, k := range j.Ops {
			p := all[k]
			if p.judge != nil {
				if err := p.judge(os_[i], got[i]); err != nil {
					return res, fmt.Errorf("%q gives a wrong result: %v", p.name, err)
				}
			} else if want := base[key(p.name, os_[i].n)]; got[i] != want {
				return res, fmt.Errorf("%q gives %s instead of %s", p.name, clip(got[i]), clip(want))
			}
		}
		if log := raceLog(j.Log); log != "" {
			return res, fmt.Errorf("data race:\n%s", log)
		}
		return res, nil
	}
	try := func(plan []zvsched.Switch) zvsched.Result {
		res, err := run(plan)
		if err != nil {
			a.Bad = fmt.Sprintf("schedule: goroutine %d first, switches %v: %v", j.First, plan, err)
			put(&a)
			os.Exit(0)
		}
		return res
	}
	for _, k := range j.Skip {
		o := newObjs(0)
		if all[k].need != nil {
			all[k].need(o)
		}
		zvsched.Run([]func(){func() { all[k].run(o) }}, 0, nil, 1)
		zvsched.SkipSeen()
	}
	if j.Single {
		res := try(j.Only)
		a.Max = res.Points[j.First]
		put(&a)
		return
	}
	var explore func(plan []zvsched.Switch, on int)
	explore = func(plan []zvsched.Switch, on int) {
		// The next preemption strikes at each point of the goroutine that runs now.
		for at := 1; ; at++ {
			for to := range j.Ops {
				if to == on {
					continue
				}
				p := append(append([]zvsched.Switch{}, plan...), zvsched.Switch{From: on, At: at, To: to})
				res := try(p)
				if res.Applied < len(p) {
					return // past its last point
				}
				if len(p) < j.Depth {
					explore(p, to)
				}
			}
		}
	}
	try(nil)
	if j.Depth > 0 {
		explore(nil, j.First)
	}
	put(&a)
}

func put(a *answer) {
	b, _ := json.Marshal(a)
	fmt.Printf("ANSWER %s\n", b)
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// raceLog gives the race detector's report if it concerns the library.
func raceLog(prefix string) string {
	if prefix == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", prefix, os.Getpid()))
	if err != nil || !bytes.Contains(b, []byte("DATA RACE")) || !bytes.Contains(b, []byte("github.com/kklash/mnemonikey")) {
		return ""
	}
	if len(b) > 3000 {
		b = b[:3000]
	}
	return string(b)
}

func main() {
	if len(os.Args) == 3 && os.Args[1] == "worker" {
		worker(os.Args[2])
		return
	}
	c := mc.New("C15")
	race := os.Getenv("VERIF_RACE") == "1"
	c.Assume = []string{
		"interleavings are explored at statement boundaries of the library's own code (not of the standard library or golang.org/x/crypto); finer ones are covered by the race detector's happens-before analysis of every explored schedule",
		"Argon2 is idealised",
	}
	self, err := os.Executable()
	must(err)
	all := ops()
	call := func(j job) (*answer, error) {
		dir, err := os.MkdirTemp(c.Work, "job")
		if err != nil {
			return nil, err
		}
		defer os.RemoveAll(dir)
		j.Log = filepath.Join(dir, "race")
		b, _ := json.Marshal(j)
		cmd := exec.Command(self, "worker", string(b))
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=7 atexit_sleep_ms=0 log_path="+j.Log, "GOMAXPROCS=2")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		cmd.WaitDelay = time.Second
		rerr := cmd.Run()
		i := strings.LastIndex(out.String(), "ANSWER ")
		if i < 0 {
			e := errb.String()
			if len(e) > 2500 {
				e = e[:2500]
			}
			return nil, fmt.Errorf("the process died: %v: %s", rerr, e)
		}
		var a answer
		if err := json.Unmarshal([]byte(out.String()[i+7:]), &a); err != nil {
			return nil, err
		}
		if a.Bad != "" {
			return &a, errors.New(a.Bad)
		}
		return &a, nil
	}
	base := filepath.Join(c.Work, "base.json")
	a, err := call(job{Results: true})
	if err != nil {
		c.Bad("calls alone", "%v", err)
		c.Finish()
	}
	b, _ := json.Marshal(a.Results)
	must(os.WriteFile(base, b, 0o600))

	type named struct {
		id   string
		j    job
		cold bool
	}
	var jobs []named
	label := func(o []int, shared bool) string {
		var s []string
		for _, k := range o {
			s = append(s, all[k].name)
		}
		on := "different objects"
		if shared {
			on = "the same object"
		}
		return strings.Join(s, " | ") + " on " + on
	}
	limit := 2
	if c.Thorough {
		limit = 6
	}
	// The protected exports are slow. They meet fewer others, and (unless thorough) are interrupted only at the
	// statements that the unprotected exports do not have.
	var plainExports []int
	for k, p := range all {
		if p.name == "export" || p.name == "export subkeys" {
			plainExports = append(plainExports, k)
		}
	}
	fewWith := map[string]bool{"decrypt": true, "new key": true, "edges": true, "refusals": true}
	heavyWith := map[string]bool{"export protected": true, "export": true}
	if c.Thorough {
		heavyWith["key phrase"], heavyWith["decrypt"], heavyWith["pgp packets"] = true, true, true
	}
	for x := range all {
		for y := range all {
			hx, hy := all[x].heavy, all[y].heavy
			if (hx && !heavyWith[all[y].name] || hy && !heavyWith[all[x].name]) && x != y {
				continue
			}
			if !c.Thorough && (all[x].few && !fewWith[all[y].name] || all[y].few && x != y) {
				continue
			}
			for _, shared := range []bool{false, true} {
				depth, lim := 1, limit
				if x != y && !c.Thorough {
					lim = 1
				}
				var skip []int
				if hx || hy {
					lim = 1
					if !c.Thorough {
						skip = plainExports
						if x == y && !shared || !hx && hy {
							continue
						}
					}
				}
				jobs = append(jobs, named{"warm: " + label([]int{x, y}, shared), job{Ops: []int{x, y}, Shared: shared, Limit: lim, Depth: depth, Base: base, Skip: skip}, false})
				if c.Thorough && !hx && !hy {
					jobs = append(jobs, named{"warm, two preemptions: " + label([]int{x, y}, shared), job{Ops: []int{x, y}, Shared: shared, Limit: 1, Depth: 2, Base: base}, false})
					if x <= y {
						jobs = append(jobs, named{"warm, three calls: " + label([]int{x, y, x}, shared), job{Ops: []int{x, y, x}, Shared: shared, Limit: 1, Depth: 1, Base: base}, false})
					}
				}
			}
		}
	}
	for x := range all { // from a fresh process
		if all[x].heavy || all[x].few && !c.Thorough {
			continue
		}
		for y := range all {
			if y != x && !c.Thorough || all[y].heavy {
				continue
			}
			for _, shared := range []bool{false, true} {
				jobs = append(jobs, named{"cold: " + label([]int{x, y}, shared), job{Ops: []int{x, y}, Shared: shared, Limit: 1, Base: base, Single: true}, true})
			}
		}
	}
	c.Space("%d pairs (thorough: also triples) of calls, in both orders, on different objects and on the same one: all schedules with at most 1 preemption (thorough: 2), at the first pass of every statement, and the first %d for a call with itself (thorough: for all)", len(jobs), limit)
	c.Space("the same from a fresh process for each schedule, for each call with itself (thorough: all pairs)")
	if race {
		c.Space("in every schedule the race detector looks for unordered accesses")
	}
	c.Parallel(len(jobs), func(i int) {
		n := jobs[i]
		c.Try(func() string { return n.id }, func() error {
			use := func(j job) (*answer, error) {
				a, err := call(j)
				if a != nil {
					c.States(a.Schedules)
					c.Steps(a.Points)
					for k := 0; k < a.Schedules; k++ {
						c.Trace()
					}
					if a.Free > 0 {
						c.Outcome("ran freely for a while")
					}
				}
				if err == nil {
					c.Outcome("same results as alone")
				}
				return a, err
			}
			if !n.cold {
				_, err := use(n.j)
				return err
			}
			a, err := use(n.j)
			for at := 1; err == nil && at <= a.Max && !c.Stop() && !c.Expired(); at++ {
				j := n.j
				j.Only = []zvsched.Switch{{From: 0, At: at, To: 1}}
				_, err = use(j)
			}
			return err
		})
	})
	c.Finish()
}
