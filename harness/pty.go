package main

import (
	"fmt"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// A pseudo terminal that a tool draws its progress display on, and the little of a terminal that is
// needed to read the display.

type ptyRun struct {
	term       string
	rows, cols int
	onStart    func() // called when the tool has been started

	master, slave int
	before        [64]byte
	vt            vt
	mu            sync.Mutex
	done          chan struct{}
	restored      bool // the terminal's settings are as they were
}

func ioctl(fd int, req uintptr, p unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), req, uintptr(p)); e != 0 {
		return e
	}
	return nil
}

func (p *ptyRun) open() error {
	m, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return fmt.Errorf("ptmx: %v", err)
	}
	var zero, n int32
	if err := ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		return fmt.Errorf("ptmx: %v", err)
	}
	if err := ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return fmt.Errorf("ptmx: %v", err)
	}
	s, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return fmt.Errorf("pts: %v", err)
	}
	ws := [4]uint16{uint16(p.rows), uint16(p.cols)}
	if err := ioctl(m, syscall.TIOCSWINSZ, unsafe.Pointer(&ws)); err != nil {
		return fmt.Errorf("ptmx: %v", err)
	}
	if err := ioctl(s, syscall.TCGETS, unsafe.Pointer(&p.before)); err != nil {
		return fmt.Errorf("pts: %v", err)
	}
	p.master, p.slave = m, s
	p.vt = vt{rows: p.rows, cols: p.cols, cursor: true}
	p.vt.clear()
	p.done = make(chan struct{})
	go func() {
		defer close(p.done)
		buf := make([]byte, 65536)
		for {
			n, err := syscall.Read(m, buf)
			if err == syscall.EINTR {
				continue
			}
			if n <= 0 || err != nil {
				return
			}
			p.mu.Lock()
			p.vt.write(buf[:n])
			p.mu.Unlock()
		}
	}()
	return nil
}

func (p *ptyRun) finish() {
	var after [64]byte
	if err := ioctl(p.slave, syscall.TCGETS, unsafe.Pointer(&after)); err == nil {
		p.restored = after == p.before
	}
	syscall.Close(p.slave)
	<-p.done // the last slave is closed: what is left is read, then an error
	syscall.Close(p.master)
}

// keys types something.
func (p *ptyRun) keys(b []byte) { syscall.Write(p.master, b) }

// garble overwrites the whole display, like another program's output.
func (p *ptyRun) garble() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := range p.vt.cell {
		for j := range p.vt.cell[i] {
			p.vt.cell[i][j], p.vt.rev[i][j] = '#', (i+j)%3 == 0
		}
	}
}

// resize changes the size of the terminal, which keeps the part of its content that fits.
func (p *ptyRun) resize(rows, cols int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	cell, rev := p.vt.cell, p.vt.rev
	p.rows, p.cols, p.vt.rows, p.vt.cols = rows, cols, rows, cols
	p.vt.clear()
	for i := range p.vt.cell {
		if i < len(cell) {
			copy(p.vt.cell[i], cell[i])
			copy(p.vt.rev[i], rev[i])
		}
	}
	ws := [4]uint16{uint16(rows), uint16(cols)}
	ioctl(p.master, syscall.TIOCSWINSZ, unsafe.Pointer(&ws))
}

// await polls until the display satisfies f; f returns "" or what is wrong.
func (p *ptyRun) await(f func(v *vt) string, max time.Duration) string {
	end := time.Now().Add(max)
	for {
		p.mu.Lock()
		s := f(&p.vt)
		p.mu.Unlock()
		if s == "" {
			return ""
		}
		if time.Now().After(end) {
			p.mu.Lock()
			defer p.mu.Unlock()
			return s + "; the display shows " + p.vt.String()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// vt understands what the xterm description makes of text, cursor addressing, reverse video, clearing
// and the alternate screen.
type vt struct {
	rows, cols  int
	cell        [][]rune
	rev         [][]bool
	r, c        int
	reverse     bool
	alt, cursor bool
	seen        bool // the display was started
	pend        []byte
}

func (v *vt) clear() {
	v.cell, v.rev = make([][]rune, v.rows), make([][]bool, v.rows)
	for i := range v.cell {
		v.cell[i], v.rev[i] = make([]rune, v.cols), make([]bool, v.cols)
		for j := range v.cell[i] {
			v.cell[i][j] = ' '
		}
	}
}

func (v *vt) line(i int) string {
	if i >= v.rows {
		return ""
	}
	return strings.TrimRight(string(v.cell[i]), " ")
}

func (v *vt) high(i int) (n int, prefix bool) {
	prefix = true
	for j, x := range v.rev[i] {
		if x {
			n++
			if j > 0 && !v.rev[i][j-1] {
				prefix = false
			}
		}
	}
	return
}

func (v *vt) String() string {
	var l []string
	for i := range v.cell {
		if s := v.line(i); s != "" {
			n, _ := v.high(i)
			l = append(l, fmt.Sprintf("%d: %q (%d highlighted)", i, s, n))
		}
	}
	return "[" + strings.Join(l, ", ") + "]"
}

func (v *vt) write(b []byte) {
	b = append(v.pend, b...)
	v.pend = nil
	for len(b) > 0 {
		n := v.one(b)
		if n == 0 {
			v.pend = append([]byte{}, b...)
			return
		}
		b = b[n:]
	}
}

// one handles one character or sequence, 0 when it is not complete.
func (v *vt) one(b []byte) int {
	switch {
	case b[0] == 0x1b:
		if len(b) < 2 {
			return 0
		}
		switch b[1] {
		case '(', ')':
			if len(b) < 3 {
				return 0
			}
			return 3
		case '[':
			for i := 2; i < len(b); i++ {
				if b[i] >= 0x40 && b[i] <= 0x7e {
					v.csi(string(b[2:i]), b[i])
					return i + 1
				}
			}
			return 0
		}
		return 2
	case b[0] == '\r':
		v.c = 0
		return 1
	case b[0] == '\n':
		v.r++
		return 1
	case b[0] < 0x20 || b[0] == 0x7f:
		return 1
	}
	n := 1
	if b[0] >= 0xc0 {
		n = 2
		if b[0] >= 0xe0 {
			n = 3
		}
		if b[0] >= 0xf0 {
			n = 4
		}
		if len(b) < n {
			return 0
		}
	}
	if v.r < v.rows && v.c < v.cols {
		v.cell[v.r][v.c] = []rune(string(b[:n]))[0]
		v.rev[v.r][v.c] = v.reverse
	}
	v.c++
	return n
}

func (v *vt) csi(par string, f byte) {
	switch f {
	case 'H':
		v.r, v.c = 0, 0
		if par != "" {
			fmt.Sscanf(par, "%d;%d", &v.r, &v.c)
			v.r--
			v.c--
		}
	case 'J':
		v.clear()
	case 'm':
		for _, x := range strings.Split(par, ";") {
			switch x {
			case "", "0", "27":
				v.reverse = false
			case "7":
				v.reverse = true
			}
		}
	case 'h', 'l':
		switch par {
		case "?1049":
			v.alt = f == 'h'
			v.seen = true
		case "?25":
			v.cursor = f == 'h'
		case "?12;25":
			v.cursor = f == 'h'
		}
	}
}
