package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// Fault injection at single write operations: the tool runs under a seccomp filter whose
// notifications for writing system calls come to us; we let each continue, fail it with an error,
// or kill the process there.  Nothing of the tool's memory is looked at.

type injection struct {
	dir   string        // only operations on files under this directory count
	at    int           // index of the operation to hit, <0: only count
	errno syscall.Errno // 0: kill the process instead
	more  bool          // also fail every later operation
	close bool          // closing a file counts as an operation, too
	read  bool          // reading, mapping and seeking, too
	pause func()        // called at the operation, which then goes on, instead of a fault

	watch func(pid int) // called at every operation

	early bool // the process may be interrupted before it has begun

	mu   sync.Mutex
	ops  []string // what was seen
	hit  bool
	sock int
	stop chan struct{}
	done chan struct{}
	err  error

	pauses sync.WaitGroup
}

const (
	notifRecv = 0xc0502100
	notifSend = 0xc0182101
)

var sysName = map[int32]string{1: "write", 18: "pwrite64", 20: "writev", 296: "pwritev", 328: "pwritev2", 40: "sendfile", 326: "copy_file_range",
	275: "splice", 77: "ftruncate", 285: "fallocate", 74: "fsync", 75: "fdatasync", 3: "close",
	0: "read", 17: "pread64", 19: "readv", 8: "lseek", 9: "mmap"}

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}

type sockFprog struct {
	n uint16
	_ [6]byte
	p *sockFilter
}

// execFault: harness execfault CLOSE path args... (fd 3: socket to pass the listener to)
func execFault(a []string) {
	runtime.LockOSThread()
	nrs := []uint32{1, 18, 20, 296, 328, 40, 326, 275, 77, 285, 74, 75}
	switch a[0] {
	case "1":
		nrs = append(nrs, 3)
	case "2":
		nrs = append(nrs, 0, 17, 19, 8)
	}
	f := []sockFilter{{0x20, 0, 0, 0}} // load nr
	if a[0] == "2" {                   // mapping a file: the fifth argument isn't -1
		f = append(f, sockFilter{0x15, 0, 4, 9}, sockFilter{0x20, 0, 0, 16 + 8*4}, sockFilter{0x15, 0, 1, 0xffffffff},
			sockFilter{0x06, 0, 0, 0x7fff0000}, sockFilter{0x06, 0, 0, 0x7fc00000})
	}
	for i, n := range nrs {
		f = append(f, sockFilter{0x15, uint8(len(nrs) - i), 0, n}) // jeq n -> notify
	}
	f = append(f, sockFilter{0x06, 0, 0, 0x7fff0000}, sockFilter{0x06, 0, 0, 0x7fc00000})
	prog := sockFprog{n: uint16(len(f)), p: &f[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		fatal("no_new_privs: %v", e)
	}
	fd, _, e := syscall.RawSyscall(317, 1, 1<<3, uintptr(unsafe.Pointer(&prog)))
	if e != 0 {
		fatal("seccomp: %v", e)
	}
	if err := syscall.Sendmsg(3, []byte{1}, syscall.UnixRights(int(fd)), nil, 0); err != nil {
		fatal("sendmsg: %v", err)
	}
	syscall.Exec(a[1], a[1:], os.Environ())
	fatal("exec failed")
}

// start opens the socket pair; the returned file is for the child.
func (in *injection) start() (*os.File, error) {
	p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	in.sock = p[0]
	in.stop, in.done = make(chan struct{}), make(chan struct{})
	go in.serve()
	return os.NewFile(uintptr(p[1]), "sock"), nil
}

func (in *injection) finish() error {
	close(in.stop)
	<-in.done
	return in.err
}

type pollfd struct {
	fd      int32
	events  int16
	revents int16
}

func poll(fd int, ms int) (int16, error) {
	p := pollfd{fd: int32(fd), events: 1}
	_, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&p)), 1, uintptr(ms))
	if e != 0 && e != syscall.EINTR {
		return 0, e
	}
	return p.revents, nil
}

func (in *injection) stopped() bool {
	select {
	case <-in.stop:
		return true
	default:
		return false
	}
}

func (in *injection) serve() {
	defer close(in.done)
	defer syscall.Close(in.sock)
	for {
		ev, err := poll(in.sock, 20)
		if err != nil {
			in.err = err
			return
		}
		if ev != 0 {
			break
		}
		if in.stopped() {
			if !in.early {
				in.err = fmt.Errorf("fault injection did not start")
			}
			return
		}
	}
	buf, oob := make([]byte, 1), make([]byte, 64)
	_, on, _, _, err := syscall.Recvmsg(in.sock, buf, oob, syscall.MSG_CMSG_CLOEXEC)
	if on == 0 && in.early {
		return
	}
	if err != nil || on == 0 {
		in.err = fmt.Errorf("fault injection: no listener: %v", err)
		return
	}
	ms, err := syscall.ParseSocketControlMessage(oob[:on])
	if err != nil || len(ms) == 0 {
		in.err = fmt.Errorf("fault injection: %v", err)
		return
	}
	fds, err := syscall.ParseUnixRights(&ms[0])
	if err != nil || len(fds) == 0 {
		in.err = fmt.Errorf("fault injection: %v", err)
		return
	}
	l := fds[0]
	defer syscall.Close(l)
	defer in.pauses.Wait()
	var heldMu sync.Mutex
	held := map[int][]byte{} // thread: the response to its held operation
	for {
		ev, err := poll(l, 20)
		if err != nil {
			in.err = err
			return
		}
		if ev&1 == 0 {
			if ev != 0 || in.stopped() {
				return
			}
			continue
		}
		var n [80]byte
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(l), notifRecv, uintptr(unsafe.Pointer(&n[0]))); e != 0 {
			if e == syscall.EINTR || e == syscall.ENOENT {
				continue
			}
			in.err = e
			return
		}
		pid := int(binary.LittleEndian.Uint32(n[8:]))
		nr := int32(binary.LittleEndian.Uint32(n[16:]))
		fd := binary.LittleEndian.Uint64(n[32:])
		if nr == 9 {
			fd = binary.LittleEndian.Uint64(n[64:])
		}
		if nr == 40 || nr == 326 || nr == 275 { // out fd is another argument
			switch nr {
			case 326, 275:
				fd = binary.LittleEndian.Uint64(n[48:])
			}
		}
		var r [24]byte
		copy(r[:8], n[:8])
		heldMu.Lock()
		if held[pid] != nil { // a signal interrupted the held operation, which was then restarted
			copy(held[pid], r[:8])
			heldMu.Unlock()
			continue
		}
		heldMu.Unlock()
		errno, kill, pause := in.decide(pid, nr, int(int32(fd)))
		if pause {
			in.pauses.Add(1)
			heldMu.Lock()
			held[pid] = append([]byte{}, r[:]...)
			heldMu.Unlock()
			go func() {
				defer in.pauses.Done()
				in.pause()
				heldMu.Lock()
				defer heldMu.Unlock()
				r := held[pid]
				delete(held, pid)
				binary.LittleEndian.PutUint32(r[20:], 1)
				// the process may be gone by now
				syscall.Syscall(syscall.SYS_IOCTL, uintptr(l), notifSend, uintptr(unsafe.Pointer(&r[0])))
			}()
			continue
		}
		if kill {
			if p, err := os.FindProcess(tgid(pid)); err == nil {
				p.Kill()
			}
			errno = syscall.EIO
		}
		if errno != 0 {
			binary.LittleEndian.PutUint32(r[16:], uint32(-int32(errno)))
		} else {
			binary.LittleEndian.PutUint32(r[20:], 1) // continue
		}
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(l), notifSend, uintptr(unsafe.Pointer(&r[0]))); e != 0 && e != syscall.ENOENT {
			in.err = e
			return
		}
	}
}

func tgid(tid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", tid))
	if err != nil {
		return tid
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "Tgid:") {
			var v int
			fmt.Sscan(strings.TrimPrefix(l, "Tgid:"), &v)
			return v
		}
	}
	return tid
}

func (in *injection) decide(pid int, nr int32, fd int) (errno syscall.Errno, kill, pause bool) {
	name, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, fd))
	if err != nil || !strings.HasPrefix(name, in.dir+"/") {
		return 0, false, false
	}
	if nr == 3 && !writable(pid, fd) {
		return 0, false, false
	}
	if in.watch != nil {
		in.watch(pid)
	}
	in.mu.Lock()
	defer in.mu.Unlock()
	i := len(in.ops)
	if i < 1<<16 {
		in.ops = append(in.ops, sysName[nr]+" "+strings.TrimPrefix(name, in.dir+"/"))
	}
	if in.at < 0 || i < in.at || (i > in.at && !in.more) {
		return 0, false, false
	}
	in.hit = true
	if in.pause != nil {
		return 0, false, true
	}
	if in.errno == 0 {
		return 0, true, false
	}
	if nr == 3 {
		// closing reports that data written earlier could not be kept: it is gone
		if st, err := os.Stat(name); err == nil && st.Mode().IsRegular() {
			os.Truncate(name, st.Size()/2)
		}
	}
	return in.errno, false, false
}

func writable(pid, fd int) bool {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/fdinfo/%d", pid, fd))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "flags:") {
			v, err := strconv.ParseUint(strings.TrimSpace(strings.TrimPrefix(l, "flags:")), 8, 64)
			return err == nil && v&3 != 0
		}
	}
	return false
}
