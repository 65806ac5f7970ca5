package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Env struct {
	Config
	drivers map[string]*driver
	n       int
	weave   uint64 // the code in use is the woven one, with this schedule (0: it is not)
	hung    bool   // something hung in this shard: shrinking that would take long
}

func newEnv(c Config) *Env { return &Env{Config: c, drivers: map[string]*driver{}} }

func (e *Env) close() {
	for _, d := range e.drivers {
		d.kill()
	}
}

// dir returns a fresh empty scratch directory; the caller removes it with the returned func.
func (e *Env) dir() (string, func()) {
	e.n++
	d := filepath.Join(e.Scratch, fmt.Sprintf("c%d", e.n))
	must(os.MkdirAll(d, 0o755))
	return d, func() { os.RemoveAll(d) }
}

type toolResult struct {
	Exit   int // -1 when killed by a signal
	Signal syscall.Signal
	Stdout string
	Stderr string
	Args   []string
	Big    bool // needed more private memory than toolOpt.anonMax
	Hung   bool // used up its CPU time, or made no progress (toolOpt.hang)
}

func (r *toolResult) ok() bool { return r.Exit == 0 }

func (r *toolResult) String() string {
	if r.Hung {
		return fmt.Sprintf("%s: does not end %s", strings.Join(r.Args, " "), clipStr(r.Stderr, 6000))
	}
	return fmt.Sprintf("%s: exit %d signal %d stderr %q", strings.Join(r.Args, " "), r.Exit, int(r.Signal), clipStr(firstLines(r.Stderr, 12), 900))
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type toolOpt struct {
	race       bool
	raceAll    bool   // go on after a race
	weave      uint64 // the woven tool, with this seed
	cpu        int    // seconds, 0 = none
	fsize      int64  // bytes, <0 = none
	blockXFSZ  bool   // a write beyond fsize fails with an error instead of killing the process
	gomaxprocs int
	inject     *injection
	dir        string // working directory
	hang       bool   // the CPU limit is a limit for hanging
	pty        *ptyRun
	anon       *int64 // peak of the private memory, in bytes, sampled
	stdout     string // the file its standard output goes to instead of toolResult.Stdout
	anonMax    int64  // ends the process when it needs more (0: no limit); then the result is Big
	gogc       int
	nocap      bool           // without the privilege to ignore file permissions
	used       *time.Duration // the CPU time it took
	noRetry    bool           // several at a time
}

const (
	idleTimeout = 60 * time.Second
	toolTimeout = 180 * time.Second
	spinTime    = 60 * time.Second // CPU time that no generated input comes anywhere near
)

// quit ends a Go process with a dump of its goroutines.
func quit(p *os.Process) {
	p.Signal(syscall.SIGQUIT)
	time.AfterFunc(5*time.Second, func() { p.Kill() })
}

func dupFd(fd int) int {
	n, err := syscall.Dup(fd)
	must(err)
	syscall.CloseOnExec(n)
	return n
}

// cpuTime is the CPU time a process has used so far, or -1.
func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return -1
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return -1
	}
	u, err1 := strconv.Atoi(f[11])
	v, err2 := strconv.Atoi(f[12])
	if err1 != nil || err2 != nil {
		return -1
	}
	return time.Duration(u+v) * 10 * time.Millisecond
}

func (e *Env) tool(name string, args ...string) (*toolResult, error) {
	return e.toolOpt(toolOpt{fsize: -1}, name, args...)
}

func (e *Env) toolOpt(o toolOpt, name string, args ...string) (*toolResult, error) {
	dir := "bin"
	if o.race {
		dir = "race"
	}
	if o.weave == 0 {
		o.weave = e.weave
	}
	if o.weave != 0 {
		dir = "woven"
		if _, err := os.Stat(filepath.Join(e.BinDir, dir)); err != nil {
			return nil, errNoDriver
		}
	}
	path := filepath.Join(e.BinDir, dir, name)
	var c *exec.Cmd
	if o.cpu > 0 || o.fsize >= 0 {
		self, err := os.Executable()
		if err != nil {
			return nil, err
		}
		blk := "0"
		if o.blockXFSZ {
			blk = "1"
		}
		c = exec.Command(self, append([]string{"execlim", strconv.Itoa(o.cpu), strconv.FormatInt(o.fsize, 10), blk, path}, args...)...)
	} else if o.inject != nil {
		self, err := os.Executable()
		if err != nil {
			return nil, err
		}
		cl := "0"
		if o.inject.close {
			cl = "1"
		} else if o.inject.read {
			cl = "2"
		}
		sock, err := o.inject.start()
		if err != nil {
			return nil, err
		}
		defer sock.Close()
		c = exec.Command(self, append([]string{"execfault", cl, path}, args...)...)
		c.ExtraFiles = []*os.File{sock}
	} else if o.nocap {
		self, err := os.Executable()
		if err != nil {
			return nil, err
		}
		c = exec.Command(self, append([]string{"execnocap", path}, args...)...)
	} else {
		c = exec.Command(path, args...)
	}
	c.Dir = e.Scratch
	if o.dir != "" {
		c.Dir = o.dir
	}
	gmp := o.gomaxprocs
	if gmp == 0 {
		gmp = 4
	}
	c.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(gmp))
	if o.gogc > 0 {
		c.Env = append(c.Env, "GOGC="+strconv.Itoa(o.gogc))
	}
	if o.weave != 0 {
		c.Env = append(c.Env, "VSCHED="+strconv.FormatUint(o.weave, 10))
	}
	if o.race {
		halt := 1
		if o.raceAll {
			halt = 0
		}
		c.Env = append(c.Env, fmt.Sprintf("GORACE=halt_on_error=%d atexit_sleep_ms=0 exitcode=66", halt))
	}
	var so, se bytes.Buffer
	c.Stdout, c.Stderr = &so, &se
	if o.stdout != "" {
		f, err := os.OpenFile(o.stdout, os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		c.Stdout = f
	}
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if o.pty != nil {
		if err := o.pty.open(); err != nil {
			return nil, err
		}
		in := os.NewFile(uintptr(dupFd(o.pty.slave)), "tty")
		defer in.Close()
		c.Stdin = in
		c.SysProcAttr.Setsid, c.SysProcAttr.Setctty, c.SysProcAttr.Ctty = true, true, 0
		c.Env = append(c.Env, "TERM="+o.pty.term, "LANG=C.UTF-8", "LC_ALL=")
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := c.Start(); err != nil {
		return nil, err
	}
	if o.anon != nil {
		stop := make(chan struct{})
		ended := make(chan struct{})
		go watchAnon(c.Process, o.anon, o.anonMax, stop, ended)
		defer func() { close(stop); <-ended }()
	}
	if o.pty != nil && o.pty.onStart != nil {
		go o.pty.onStart()
	}
	timedOut, idle := false, false
	big := func() bool { return o.anonMax > 0 && atomic.LoadInt64(o.anon) > o.anonMax }
	limit := idleTimeout
	if o.pty != nil {
		limit = 30 * time.Second
	}
	t1 := time.AfterFunc(limit, func() {
		// generated inputs take milliseconds of CPU time: a process that has used next to none in all
		// that time waits for something that never happens
		if u := cpuTime(c.Process.Pid); u >= 0 && u < time.Second {
			timedOut, idle = true, true
			quit(c.Process)
		}
	})
	t2 := time.AfterFunc(toolTimeout, func() { timedOut = true; quit(c.Process) })
	err := c.Wait()
	t1.Stop()
	t2.Stop()
	if o.used != nil {
		*o.used = c.ProcessState.UserTime() + c.ProcessState.SystemTime()
	}
	if o.pty != nil {
		c.Stdin.(*os.File).Close()
		o.pty.finish()
	}
	if o.inject != nil {
		if err := o.inject.finish(); err != nil {
			return nil, err
		}
	}
	r := &toolResult{Stdout: so.String(), Stderr: se.String(), Args: append([]string{name}, args...)}
	if big() {
		r.Exit, r.Big = -1, true
		return r, nil
	}
	if timedOut && (idle || c.ProcessState.UserTime()+c.ProcessState.SystemTime() >= spinTime) {
		if idle && !e.hung && o.inject == nil && o.pty == nil && !o.noRetry {
			e.hung = true
			return e.toolOpt(o, name, args...)
		}
		e.hung = true
		r.Exit, r.Hung = -1, true
		return r, nil
	}
	if timedOut {
		return nil, fmt.Errorf("time budget hit (inconclusive): %s ran over %v", name, toolTimeout)
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			return nil, err
		}
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			r.Exit, r.Signal = -1, ws.Signal()
			if o.hang && o.cpu > 0 && c.ProcessState.UserTime()+c.ProcessState.SystemTime() >= time.Duration(o.cpu)*time.Second {
				r.Hung = true
				return r, nil
			}
			if r.Signal == syscall.SIGKILL && o.inject != nil && o.inject.hit {
				return r, nil
			}
			if r.Signal == syscall.SIGKILL {
				return nil, fmt.Errorf("%s was killed (out of memory?)", name)
			}
		} else {
			r.Exit = ws.ExitStatus()
			if o.hang && r.Exit == 2 && strings.Contains(r.Stderr, "SIGXCPU") {
				r.Hung = true
			}
		}
	}
	if r.Exit == 2 && (strings.Contains(r.Stderr, "cannot allocate memory") || strings.Contains(r.Stderr, "out of memory") || strings.Contains(r.Stderr, "no space left")) && o.fsize < 0 && o.inject == nil && o.stdout != "/dev/full" {
		if !strings.Contains(strings.Join(args, " "), "/dev/full") {
			return nil, fmt.Errorf("resource exhaustion (inconclusive): %s", r)
		}
	}
	return r, nil
}

// watchAnon records the most private memory a process was seen with.
func watchAnon(p *os.Process, peak *int64, max int64, stop, ended chan struct{}) {
	defer close(ended)
	for {
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", p.Pid))
		if err == nil {
			if i := bytes.Index(b, []byte("RssAnon:")); i >= 0 {
				f := strings.Fields(string(b[i+8:]))
				if kb, err := strconv.ParseInt(f[0], 10, 64); err == nil && kb<<10 > atomic.LoadInt64(peak) {
					atomic.StoreInt64(peak, kb<<10)
				}
			}
		}
		if max > 0 && atomic.LoadInt64(peak) > max {
			p.Kill()
			return
		}
		select {
		case <-stop:
			return
		case <-time.After(2 * time.Millisecond):
		}
	}
}

// execNoCap: harness execnocap path args...  File permissions hold for the program even when it runs as root.
func execNoCap(a []string) {
	runtime.LockOSThread()
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		fatal("no_new_privs: %v", e)
	}
	hdr := struct{ version, pid uint32 }{0x20080522, 0}
	var data [2]struct{ effective, permitted, inheritable uint32 }
	if _, _, e := syscall.RawSyscall(syscall.SYS_CAPSET, uintptr(unsafe.Pointer(&hdr)), uintptr(unsafe.Pointer(&data)), 0); e != 0 {
		fatal("capset: %v", e)
	}
	err := syscall.Exec(a[0], a, os.Environ())
	fatal("exec: %v", err)
}

// execLimited: harness execlim CPU FSIZE BLOCK path args...
func execLimited(a []string) {
	runtime.LockOSThread()
	cpu, _ := strconv.Atoi(a[0])
	fsize, _ := strconv.ParseInt(a[1], 10, 64)
	if cpu > 0 {
		l := syscall.Rlimit{Cur: uint64(cpu), Max: uint64(cpu + 2)}
		if err := syscall.Setrlimit(syscall.RLIMIT_CPU, &l); err != nil {
			fatal("setrlimit: %v", err)
		}
	}
	if fsize >= 0 {
		l := syscall.Rlimit{Cur: uint64(fsize), Max: uint64(fsize)}
		if err := syscall.Setrlimit(1 /* RLIMIT_FSIZE */, &l); err != nil {
			fatal("setrlimit: %v", err)
		}
	}
	if a[2] == "1" {
		mask := uint64(1) << (uint(syscall.SIGXFSZ) - 1)
		if _, _, en := syscall.RawSyscall6(syscall.SYS_RT_SIGPROCMASK, 0 /* SIG_BLOCK */, uintptr(unsafe.Pointer(&mask)), 0, 8, 0, 0); en != 0 {
			fatal("sigprocmask: %v", en)
		}
	}
	err := syscall.Exec(a[3], a[3:], os.Environ())
	fatal("exec: %v", err)
}

// ---------------------------------------------------------------------------------------------
// API drivers: one long-lived process each, JSON request per line, JSON response per line.

type driver struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *bytes.Buffer
	name   string
}

func (d *driver) kill() {
	if d.cmd != nil {
		d.in.Close()
		d.cmd.Process.Kill()
		d.cmd.Wait()
		d.cmd = nil
	}
}

var errNoDriver = errors.New("the driver cannot be built")

func (e *Env) startDriver(name string) (*driver, error) {
	dir := "bin"
	if e.weave != 0 {
		dir = "woven"
	}
	bin := filepath.Join(e.BinDir, dir, "verifdrv_"+name)
	if _, err := os.Stat(bin); os.IsNotExist(err) {
		return nil, fmt.Errorf("%w: %s", errNoDriver, name)
	}
	c := exec.Command(bin)
	c.Dir = e.Scratch
	c.Env = append(os.Environ(), "GOMAXPROCS=4", "VSCHED="+strconv.FormatUint(e.weave, 10))
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	d := &driver{cmd: c, in: in, out: bufio.NewReaderSize(out, 1<<20), stderr: &bytes.Buffer{}, name: name}
	c.Stderr = d.stderr
	if err := c.Start(); err != nil {
		return nil, err
	}
	return d, nil
}

// driverCrash means the code under test took the whole process down (or dead-locked it).
type driverCrash struct{ msg string }

func (d *driverCrash) Error() string { return d.msg }

// driverPanic means the operation panicked in the calling goroutine.
type driverPanic struct{ msg string }

func (d *driverPanic) Error() string { return d.msg }

// call performs one driver request.  Errors: *driverPanic, *driverCrash, or infrastructure.
func (e *Env) call(name string, req, resp any) error {
	key := name
	if e.weave != 0 {
		key += wovenSuffix
	}
	d := e.drivers[key]
	if d == nil {
		var err error
		d, err = e.startDriver(name)
		if err != nil {
			return err
		}
		e.drivers[key] = d
	}
	b, err := json.Marshal(req)
	if err != nil {
		return err
	}
	timedOut, hung := false, false
	cpu0 := cpuTime(d.cmd.Process.Pid)
	stop := func(final bool) func() {
		return func() {
			u := cpuTime(d.cmd.Process.Pid)
			if u >= 0 && cpu0 >= 0 && (u-cpu0 < time.Second || u-cpu0 >= spinTime) {
				hung = true
			}
			if hung || final {
				timedOut = true
				d.cmd.Process.Kill()
			}
		}
	}
	t1 := time.AfterFunc(idleTimeout, stop(false))
	t2 := time.AfterFunc(toolTimeout, stop(true))
	_, werr := d.in.Write(append(b, '\n'))
	var line []byte
	if werr == nil {
		line, err = d.out.ReadBytes('\n')
	} else {
		err = werr
	}
	t1.Stop()
	t2.Stop()
	if err != nil {
		delete(e.drivers, key)
		d.in.Close()
		werr := d.cmd.Wait()
		if timedOut && hung {
			e.hung = true
			return &driverCrash{name + " does not return"}
		}
		if timedOut {
			return fmt.Errorf("time budget hit (inconclusive) in driver %s", name)
		}
		st := ""
		if werr != nil {
			st = werr.Error()
		}
		se := d.stderr.String()
		if strings.Contains(st, "killed") || strings.Contains(se, "out of memory") || strings.Contains(se, "cannot allocate") {
			return fmt.Errorf("driver %s killed: %s %s", name, st, clipStr(se, 500))
		}
		return &driverCrash{fmt.Sprintf("%s: %s: %s", name, st, clipStr(firstLines(se, 14), 1500))}
	}
	var env struct {
		Panic *string
		Err   *string
		R     json.RawMessage
	}
	if err := json.Unmarshal(line, &env); err != nil {
		return fmt.Errorf("driver %s: %v", name, err)
	}
	if env.Err != nil {
		return fmt.Errorf("driver %s: %s", name, *env.Err)
	}
	if env.Panic != nil {
		return &driverPanic{*env.Panic}
	}
	if resp == nil {
		return nil
	}
	return json.Unmarshal(env.R, resp)
}

// apiErr turns crashes and panics of the code under test into violations.
func apiErr(err error, what string) error {
	var p *driverPanic
	var c *driverCrash
	if errors.As(err, &p) {
		return violf("%s panicked: %s", what, p.msg)
	}
	if errors.As(err, &c) {
		return violf("%s crashed: %s", what, c.msg)
	}
	return err
}

func isPanic(err error) bool {
	var p *driverPanic
	return errors.As(err, &p)
}
