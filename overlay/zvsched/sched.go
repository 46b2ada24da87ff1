// Package zvsched is a cooperative scheduler for instrumented code: of the goroutines it runs, exactly one moves at
// a time, and control changes hands only where the plan says so, or where a goroutine ends or cannot take a lock.
//
// Control is handed over through pipes with plain system calls, which the race detector does not see: two accesses
// that only this scheduler keeps apart still count as a race.
package zvsched

import (
	"bytes"
	"runtime"
	"strconv"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Max is the largest number of goroutines.
const Max = 4

// Switch hands control to goroutine To when the current one, being From, passes its At-th point.
type Switch struct{ From, At, To int }

var (
	active   bool
	n        int
	cur      int
	plan     []Switch
	next     int
	limit    int32
	finished [Max]bool
	points   [Max]int
	gids     [Max]int64
	occ      [Max][Sites + 1]int32
	skip     [Sites + 1]bool
	pipes    [Max][2]int
	made     bool
	stuck    int
	total    int
	Deadlock bool
	Endless  bool
	free     bool
	blocked  time.Time // since when no lock could be taken outside a run
)

// Stopped is the value of the panic that ends the goroutines of a deadlock.
type Stopped struct{}

//go:norace
func wait(i int) {
	var b [1]byte
	for {
		r, _, _ := syscall.Syscall(syscall.SYS_READ, uintptr(pipes[i][0]), uintptr(unsafe.Pointer(&b[0])), 1)
		if r == 1 {
			return
		}
	}
}

//go:norace
func wake(i int) {
	b := [1]byte{1}
	syscall.Syscall(syscall.SYS_WRITE, uintptr(pipes[i][1]), uintptr(unsafe.Pointer(&b[0])), 1)
}

func gid() int64 {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	b = bytes.TrimPrefix(b, []byte("goroutine "))
	i := bytes.IndexByte(b, ' ')
	if i < 0 {
		return 0
	}
	id, _ := strconv.ParseInt(string(b[:i]), 10, 64)
	return id
}

// handOver gives control to another goroutine and waits until it comes back.
//
//go:norace
func handOver(to int) {
	me := cur
	if to == me {
		return
	}
	cur = to
	wake(to)
	wait(me)
	if Deadlock && !free {
		panic(Stopped{})
	}
}

// Yield is called before every statement of the instrumented code.
//
//go:norace
func Yield(site int) {
	if !active {
		return
	}
	if HasGo && gid() != gids[cur] {
		return // a goroutine of the code's own
	}
	stuck = 0
	total++
	if total > 400000000 {
		Endless, Deadlock = true, true
		active = false
		panic(Stopped{})
	}
	c := cur
	if skip[site] || occ[c][site] >= limit {
		return
	}
	occ[c][site]++
	points[c]++
	if next < len(plan) && plan[next].From == c && plan[next].At == points[c] {
		to := plan[next].To
		next++
		if !finished[to] {
			handOver(to)
		}
	}
}

// Block is called when the current goroutine cannot take a lock.
//
//go:norace
func Block() {
	if !active || HasGo && gid() != gids[cur] {
		runtime.Gosched()
		if free {
			time.Sleep(time.Millisecond)
		}
		if now := time.Now(); blocked.IsZero() {
			blocked = now
		} else if !free && now.Sub(blocked) > 3*Patience {
			panic("a lock is never given back")
		}
		return
	}
	stuck++
	if stuck > 3*n {
		Deadlock = true
		panic(Stopped{})
	}
	for d := 1; d < n; d++ {
		if to := (cur + d) % n; !finished[to] {
			handOver(to)
			return
		}
	}
}

// Locked is called when a lock has been taken or given back.
//
//go:norace
func Locked() { stuck = 0; blocked = time.Time{} }

//go:norace
func finish(i int) {
	finished[i] = true
	if !active {
		return
	}
	for d := 1; d < n; d++ {
		if to := (i + d) % n; !finished[to] {
			cur = to
			wake(to)
			return
		}
	}
	active = false
}

//go:norace
func setup(k int, first int, p []Switch, lim int) {
	if !made {
		made = true
		for i := range pipes {
			var fd [2]int
			if err := syscall.Pipe2(fd[:], syscall.O_CLOEXEC); err != nil {
				panic(err)
			}
			pipes[i] = fd
		}
	}
	n, cur, plan, next, limit = k, first, p, 0, int32(lim)
	stuck, total, Deadlock, Endless = 0, 0, false, false
	finished, points = [Max]bool{}, [Max]int{}
	occ = [Max][Sites + 1]int32{}
}

//go:norace
func start(i int) { gids[i] = gid() }

//go:norace
func release() {
	free = true
	active = false
	for i := 0; i < n; i++ {
		if !finished[i] {
			wake(i)
		}
	}
}

//go:norace
func begin(first int) { active = true; wake(first) }

//go:norace
func report(applied *int, pts *[Max]int) { *applied, *pts = next, points }

// Result tells how a run went.
type Result struct {
	Applied  int      // switches of the plan that took place
	Points   [Max]int // points passed by each goroutine
	Deadlock bool
	Endless  bool
	Free     bool // some goroutine waited in a way that is not controlled here; the rest ran freely
	Stuck    bool // and even so it did not end
}

// Run runs the functions under the plan.
func Run(fs []func(), first int, p []Switch, lim int) (res Result) {
	setup(len(fs), first, p, lim)
	var wg sync.WaitGroup
	var ready sync.WaitGroup
	for i := range fs {
		wg.Add(1)
		ready.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Stopped); !ok {
						panic(r)
					}
				}
				finish(i)
			}()
			start(i)
			ready.Done()
			wait(i)
			fs[i]()
		}(i)
	}
	ready.Wait()
	begin(first)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(Patience):
		res.Free = true
		release()
		select {
		case <-done:
		case <-time.After(3 * Patience):
			res.Stuck = true
			return res
		}
	}
	report(&res.Applied, &res.Points)
	res.Deadlock, res.Endless = Deadlock, Endless
	return res
}

// Patience is how long a run may take.
var Patience = 10 * time.Second

// SkipSeen makes the statements which the first goroutine of the last run passed no points any more.
//
//go:norace
func SkipSeen() {
	for i := range skip {
		skip[i] = skip[i] || occ[0][i] > 0
	}
}
