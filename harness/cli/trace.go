package cli

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
)

// The tracer runs the binary under ptrace and sees every system call of every thread on entry and on exit. A
// hook can let it pass, make it fail, cut it short, kill the process there, or hold the thread until the
// explorer releases it: the thread then stays at that point while the others run on.

// Call is one system call at its entry or exit.
type Call struct {
	TID   int
	Enter bool
	Nr    uint64
	Arg   [6]uint64
	Ret   int64 // at exit

	p *Traced
}

// Act is what the hook wants done with a call.
type Act struct {
	Kill  bool
	Hold  string        // hold the thread here, under this name
	Errno syscall.Errno // at entry: fail with this instead of executing
	Count uint64        // at entry: execute with this third argument instead
	Sig   syscall.Signal
	Path  string // at entry: put this, no longer than what is there, in place of the call's first path
}

type thread struct {
	tid    int
	insys  bool
	nr     uint64
	args   [6]uint64
	held   string
	fail   syscall.Errno
	seen   bool
	callAt time.Time
}

// Held is a thread held at a point.
type Held struct {
	TID  int
	Name string
}

// TraceSpec is one traced run.
type TraceSpec struct {
	Args  []string
	Setup string // shell text run before the binary, e.g. umask
	TTY   *TTYSpec
	Hook  func(*Call) Act
	// Idle is called when no thread can move by itself; it must act (Release, Signal, Type) and return true,
	// or return false when there is nothing left to do.
	Idle func(*Traced) bool
	Out  *os.File // instead of capturing
	Err  *os.File
}

// Traced is a traced process.
type Traced struct {
	Pid     int
	Term    *TTY
	threads map[int]*thread
	live    bool
	ended   bool
	status  syscall.WaitStatus
	spec    *TraceSpec
	outR    *os.File
	errR    *os.File
	Calls   int
	moved   bool
	read    time.Time // until when a typed line is given time to reach the thread that waits for it
	signal  time.Time // the same for a signal
}

const (
	waitAll     = 0x40000000 // __WALL
	waitMine    = 0x20000000 // __WNOTHREAD
	eventClone  = 3
	eventExec   = 4
	traceOpts   = 1 | 1<<eventClone | 1<<eventExec | 1<<1 | 1<<2 | 0x100000 // sysgood, clone, exec, fork, vfork, exitkill
	sigSyscall  = syscall.SIGTRAP | 0x80
	quietFor    = 2500 * time.Microsecond
	stuckAfter  = 12 * time.Second
	traceLimit  = 60 * time.Second
	sysRead     = 0
	sysFutex    = 202
	sysEpoll    = 281
	sysExitGrp  = 231
	sysIoctl    = 16
	sysSigWait  = 128
	sysPoll     = 7
	sysPpoll    = 271
	sysSelect   = 270
	sysReadv    = 19
	sysPause    = 34
	sysEpollW   = 232
	sysEpollPw2 = 441
)

var blocking = map[uint64]bool{sysRead: true, sysFutex: true, sysEpoll: true, sysSigWait: true, sysPoll: true, sysPpoll: true, sysSelect: true, sysReadv: true, sysPause: true, sysEpollW: true, sysEpollPw2: true}

var sleeping = map[uint64]bool{35: true, 230: true} // nanosleep, clock_nanosleep

// Trace runs the binary under the tracer to its end.
func (b *Box) Trace(spec TraceSpec) (r *Result, mode Termios, err error) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		defer func() {
			if p := recover(); p != nil {
				err = fmt.Errorf("tracer: %v", p)
			}
		}()
		r, mode, err = b.trace(&spec)
	}()
	<-done
	return
}

func (b *Box) trace(spec *TraceSpec) (*Result, Termios, error) {
	p := &Traced{threads: map[int]*thread{}, spec: spec}
	var mode Termios
	cmd := exec.Command("/bin/sh", append([]string{"-c", "ulimit -c 0; " + spec.Setup + "\nexec \"$@\"", "sh", b.Bin}, spec.Args...)...)
	cmd.Dir = b.Dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Ptrace: true}
	var out, errb bytes.Buffer
	var wg sync.WaitGroup
	var closers []*os.File
	defer func() {
		for _, f := range closers {
			f.Close()
		}
	}()
	collect := func(given *os.File, buf *bytes.Buffer) (*os.File, error) {
		if given != nil {
			return given, nil
		}
		pr, pw, err := os.Pipe()
		if err != nil {
			return nil, err
		}
		closers = append(closers, pw)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer pr.Close()
			buf.ReadFrom(pr)
		}()
		return pw, nil
	}
	var err error
	if cmd.Stdout, err = collect(spec.Out, &out); err != nil {
		return nil, mode, err
	}
	if cmd.Stderr, err = collect(spec.Err, &errb); err != nil {
		return nil, mode, err
	}
	if spec.TTY != nil {
		if p.Term, err = spec.TTY.open(); err != nil {
			return nil, mode, err
		}
		cmd.Stdin = p.Term.slave
		cmd.SysProcAttr.Setctty = true
	}
	if err := cmd.Start(); err != nil {
		return nil, mode, err
	}
	for _, f := range closers {
		f.Close()
	}
	closers = nil
	p.Pid = cmd.Process.Pid
	if p.Term != nil {
		p.Term.pump()
	}
	hung := p.loop()
	cmd.Process.Release()
	if p.Term != nil {
		mode, _ = p.Term.Mode()
		p.Term.slave.Close()
		ch := make(chan struct{})
		go func() { p.Term.wg.Wait(); close(ch) }()
		select {
		case <-ch:
		case <-time.After(2 * time.Second):
		}
		p.Term.master.Close()
	}
	wg.Wait()
	r := &Result{Code: -1, Out: out.Bytes(), Err: errb.Bytes(), Hung: hung}
	if p.status.Exited() {
		r.Code = p.status.ExitStatus()
	} else if p.status.Signaled() {
		r.Sig = p.status.Signal()
	}
	if p.Term != nil {
		r.TTY = p.Term.Echo()
	}
	return r, mode, nil
}

func (p *Traced) loop() (hung bool) {
	start, last := time.Now(), time.Now()
	idleSince := time.Time{}
	spins := 0
	for {
		var ws syscall.WaitStatus
		tid, err := syscall.Wait4(-p.Pid, &ws, waitAll|waitMine|syscall.WNOHANG, nil)
		if err == syscall.EINTR {
			continue
		}
		if err == syscall.ECHILD {
			return hung
		}
		if err != nil {
			panic(err)
		}
		now := time.Now()
		if tid == 0 {
			if now.Sub(start) > traceLimit {
				hung = true
				syscall.Kill(p.Pid, syscall.SIGKILL)
				start = now
				continue
			}
			if now.Sub(last) > quietFor && p.quiet() {
				p.moved = false
				if p.spec.Idle == nil || !p.spec.Idle(p) || !p.moved {
					if idleSince.IsZero() {
						idleSince = now
					}
					if now.Sub(idleSince) > stuckAfter {
						hung = true
						syscall.Kill(p.Pid, syscall.SIGKILL)
						idleSince = now
					}
				} else {
					idleSince = time.Time{}
				}
				last = time.Now()
			}
			if spins++; spins > 40 {
				nap := syscall.Timespec{Nsec: 30000} // time.Sleep can take a millisecond
				syscall.Nanosleep(&nap, nil)
			}
			continue
		}
		spins = 0
		p.stop(tid, ws)
		if t := p.threads[tid]; t == nil || !ws.Stopped() || ws.StopSignal() != sigSyscall || !sleeping[t.nr] {
			last = now // but not when the runtime's monitor thread goes to sleep or wakes
		}
	}
}

// quiet reports whether every thread is held or waits in the kernel.
func (p *Traced) quiet() bool {
	if !p.live {
		return false
	}
	if now := time.Now(); now.Before(p.read) || now.Before(p.signal) {
		return false
	}
	for _, t := range p.threads {
		if t.held != "" {
			continue
		}
		if !t.insys || !blocking[t.nr] && !sleeping[t.nr] {
			return false
		}
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%d/stat", p.Pid, t.tid))
		if err != nil {
			return false
		}
		if i := bytes.LastIndexByte(b, ')'); i < 0 || i+2 >= len(b) || b[i+2] != 'S' {
			return false
		}
	}
	return len(p.threads) > 0
}

func resume(tid int, sig syscall.Signal) {
	syscall.PtraceSyscall(tid, int(sig)) // ESRCH: it is gone already
}

func (p *Traced) stop(tid int, ws syscall.WaitStatus) {
	if ws.Exited() || ws.Signaled() {
		delete(p.threads, tid)
		if tid == p.Pid {
			p.ended, p.status = true, ws
		}
		return
	}
	if !ws.Stopped() {
		return
	}
	t := p.threads[tid]
	if t == nil {
		t = &thread{tid: tid}
		p.threads[tid] = t
		if tid == p.Pid {
			// Stopped by the first exec.
			if err := syscall.PtraceSetOptions(tid, traceOpts); err != nil {
				panic(err)
			}
			resume(tid, 0)
			return
		}
	}
	sig := ws.StopSignal()
	switch {
	case int(ws)>>16 != 0: // event
		if int(ws)>>16 == eventExec {
			p.live = true // the shell has become the binary
		}
		resume(tid, 0)
	case sig == sigSyscall:
		p.syscall(t)
	case sig == syscall.SIGSTOP && !t.seen:
		t.seen = true
		resume(tid, 0)
	case sig == syscall.SIGTRAP:
		resume(tid, 0)
	default:
		p.signal = time.Time{}
		resume(tid, sig)
	}
	t.seen = true
}

func (p *Traced) syscall(t *thread) {
	var regs syscall.PtraceRegs
	if err := syscall.PtraceGetRegs(t.tid, &regs); err != nil {
		return
	}
	if !t.insys {
		t.insys, t.nr = true, regs.Orig_rax
		t.args = [6]uint64{regs.Rdi, regs.Rsi, regs.Rdx, regs.R10, regs.R8, regs.R9}
	} else {
		t.insys = false
		if t.nr == sysRead && t.args[0] == 0 {
			p.read = time.Time{}
		}
		if t.fail != 0 {
			regs.Rax = uint64(-int64(t.fail))
			t.fail = 0
			if err := syscall.PtraceSetRegs(t.tid, &regs); err != nil {
				return
			}
		}
	}
	if !p.live || p.spec.Hook == nil {
		resume(t.tid, 0)
		return
	}
	p.Calls++
	c := &Call{TID: t.tid, Enter: t.insys, Nr: t.nr, Arg: t.args, Ret: int64(regs.Rax), p: p}
	a := p.spec.Hook(c)
	switch {
	case a.Kill:
		syscall.Kill(p.Pid, syscall.SIGKILL)
		return
	case a.Sig != 0:
		syscall.Kill(p.Pid, a.Sig)
	case a.Errno != 0 && t.insys:
		t.fail = a.Errno
		regs.Orig_rax = ^uint64(0)
		if err := syscall.PtraceSetRegs(t.tid, &regs); err != nil {
			return
		}
	case a.Count != 0 && t.insys:
		regs.Rdx = a.Count
		if err := syscall.PtraceSetRegs(t.tid, &regs); err != nil {
			return
		}
	case a.Path != "" && t.insys:
		addr := uintptr(t.args[pathCalls[t.nr].paths[0]])
		if _, err := syscall.PtracePokeData(t.tid, addr, append([]byte(a.Path), 0)); err != nil {
			return
		}
	case a.Hold != "":
		t.held = a.Hold
		return
	}
	resume(t.tid, 0)
}

// Held gives the held threads, in order of thread id.
func (p *Traced) Held() []Held {
	var out []Held
	for _, t := range p.threads {
		if t.held != "" {
			out = append(out, Held{t.tid, t.held})
		}
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j].TID < out[i].TID {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// Release lets a held thread go on.
func (p *Traced) Release(tid int) {
	t := p.threads[tid]
	t.held = ""
	p.moved = true
	resume(tid, 0)
}

// Signal sends the process a signal.
func (p *Traced) Signal(s syscall.Signal) {
	p.moved = true
	p.signal = time.Now().Add(100 * time.Millisecond)
	syscall.Kill(p.Pid, s)
}

// Type types at its terminal.
func (p *Traced) Type(b []byte) {
	p.moved = true
	if p.Waiting() {
		p.read = time.Now().Add(2 * time.Second)
	}
	p.Term.Send(b)
}

// Waiting reports whether some thread waits in a read of the terminal, and not in a hold.
func (p *Traced) Waiting() bool {
	for _, t := range p.threads {
		if t.held == "" && t.insys && (t.nr == sysRead && t.args[0] == 0) {
			return true
		}
	}
	return false
}

// ---- looking at calls ----

// Str reads a string argument.
func (c *Call) Str(arg int) string {
	addr := uintptr(c.Arg[arg])
	var out []byte
	buf := make([]byte, 256)
	for len(out) < 8192 {
		n, err := syscall.PtracePeekData(c.TID, addr, buf)
		if i := bytes.IndexByte(buf[:n], 0); i >= 0 {
			return string(append(out, buf[:i]...))
		}
		if err != nil || n == 0 {
			break
		}
		out = append(out, buf[:n]...)
		addr += uintptr(n)
	}
	return string(out)
}

// Bytes reads n bytes at a pointer argument.
func (c *Call) Bytes(arg, n int) []byte {
	buf := make([]byte, n)
	k, _ := syscall.PtracePeekData(c.TID, uintptr(c.Arg[arg]), buf)
	return buf[:k]
}

// FD gives what a file descriptor argument refers to.
func (c *Call) FD(arg int) string {
	s, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", c.p.Pid, int32(c.Arg[arg])))
	if err != nil {
		return ""
	}
	return s
}

// Touches describes the call if it has to do with a path (or anything below it): its name, or "".
func (c *Call) Touches(path string) string {
	in := func(s string) bool { return s == path || strings.HasPrefix(s, path+"/") }
	if n, ok := pathCalls[c.Nr]; ok {
		for _, a := range n.paths {
			if in(c.Str(a)) {
				return n.name
			}
		}
	}
	if n, ok := fdCalls[c.Nr]; ok {
		if in(strings.TrimSuffix(c.FD(0), " (deleted)")) {
			return n
		}
	}
	return ""
}

// Paths gives the path arguments of a call which takes any.
func (c *Call) Paths() (out []string) {
	for _, a := range pathCalls[c.Nr].paths {
		out = append(out, c.Str(a))
	}
	return
}

// PathName is the name of a call with path arguments.
func (c *Call) PathName() string { return pathCalls[c.Nr].name }

type pathCall struct {
	name  string
	paths []int
}

var pathCalls = map[uint64]pathCall{
	2: {"open", []int{0}}, 4: {"stat", []int{0}}, 6: {"lstat", []int{0}}, 21: {"access", []int{0}}, 76: {"truncate", []int{0}},
	82: {"rename", []int{0, 1}}, 83: {"mkdir", []int{0}}, 84: {"rmdir", []int{0}}, 85: {"creat", []int{0}}, 86: {"link", []int{0, 1}},
	87: {"unlink", []int{0}}, 88: {"symlink", []int{1}}, 90: {"chmod", []int{0}}, 92: {"chown", []int{0}}, 133: {"mknod", []int{0}},
	257: {"openat", []int{1}}, 258: {"mkdirat", []int{1}}, 259: {"mknodat", []int{1}}, 260: {"fchownat", []int{1}}, 262: {"newfstatat", []int{1}},
	263: {"unlinkat", []int{1}}, 264: {"renameat", []int{1, 3}}, 265: {"linkat", []int{1, 3}}, 266: {"symlinkat", []int{2}}, 268: {"fchmodat", []int{1}},
	269: {"faccessat", []int{1}}, 280: {"utimensat", []int{1}}, 316: {"renameat2", []int{1, 3}}, 332: {"statx", []int{1}}, 437: {"openat2", []int{1}}, 439: {"faccessat2", []int{1}},
}

var fdCalls = map[uint64]string{
	0: "read", 1: "write", 3: "close", 5: "fstat", 8: "lseek", 17: "pread64", 18: "pwrite64", 20: "writev", 74: "fsync", 75: "fdatasync", 77: "ftruncate", 91: "fchmod", 93: "fchown", 285: "fallocate", 326: "copy_file_range",
}

// IsWrite reports a write to a file descriptor.
func (c *Call) IsWrite(fd int) bool { return (c.Nr == 1 || c.Nr == 20) && c.Arg[0] == uint64(fd) }

// IsExit reports the end of the process.
func (c *Call) IsExit() bool { return c.Nr == sysExitGrp }

// SetsMode reports a change of the mode of the terminal on a file descriptor.
func (c *Call) SetsMode() bool {
	return c.Nr == sysIoctl && (c.Arg[1] == 0x5402 || c.Arg[1] == 0x5403 || c.Arg[1] == 0x5404)
}

// NewMode is the mode that a SetsMode call sets.
func (c *Call) NewMode() (m Termios, err error) {
	b := c.Bytes(2, 36)
	if len(b) < 36 {
		return m, errors.New("unreadable")
	}
	le := func(i int) uint32 { return uint32(b[i]) | uint32(b[i+1])<<8 | uint32(b[i+2])<<16 | uint32(b[i+3])<<24 }
	m.Iflag, m.Oflag, m.Cflag, m.Lflag, m.Line = le(0), le(4), le(8), le(12), b[16]
	copy(m.Cc[:], b[17:36])
	return m, nil
}
