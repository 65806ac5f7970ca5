// Driver: histories of borrowing and returning pooled buffers.
package main

import (
	"fmt"
	"runtime"
	"sync"
	"unsafe"

	"github.com/squizzling/osmindex/internal/pool"
)

type op struct {
	Op string // get, put, wrap, putwrap, gc
	N  int    // size for get and wrap, which one for put
}

type request struct {
	DefSize uint64 // 0: the shared pool
	Threads [][]op
	Rounds  int
}

type held struct {
	bb      pool.BorrowedBuffer
	tag     byte
	wrapped bool
}

func pat(tag byte, i int) byte { return tag ^ byte(i*31+i>>8) }

func fillBuf(b []byte, tag byte) {
	for i := range b {
		b[i] = pat(tag, i)
	}
}

func checkBuf(b []byte, tag byte) bool {
	for i := range b {
		if b[i] != pat(tag, i) {
			return false
		}
	}
	return true
}

// extents of everything currently held, over the whole capacity
type registry struct {
	mu sync.Mutex
	m  map[uintptr]uintptr
}

func ext(b []byte) (lo, hi uintptr) {
	if cap(b) == 0 {
		return 0, 0
	}
	p := uintptr(unsafe.Pointer(&b[:1][0]))
	return p, p + uintptr(len(b))
}

func (r *registry) add(b []byte) error {
	lo, hi := ext(b)
	if lo == hi {
		return nil
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	for l, h := range r.m {
		if lo < h && l < hi {
			return fmt.Errorf("a buffer of %d bytes shares memory with another one that is held", len(b))
		}
	}
	r.m[lo] = hi
	return nil
}

func (r *registry) del(b []byte) {
	lo, hi := ext(b)
	if lo == hi {
		return
	}
	r.mu.Lock()
	delete(r.m, lo)
	r.mu.Unlock()
}

func thread(p *pool.ByteSlicePool, reg *registry, ops []op, id int) error {
	var hs []*held
	var wrappedDone []*held // wrapped memory that was returned stays the wrapper's
	tag := byte(id * 37)
	pick := func(n int, wrapped bool) int {
		var idx []int
		for i, h := range hs {
			if h.wrapped == wrapped {
				idx = append(idx, i)
			}
		}
		if len(idx) == 0 {
			return -1
		}
		return idx[n%len(idx)]
	}
	verify := func(what string) error {
		for _, h := range hs {
			if !checkBuf(h.bb.Buffer, h.tag) {
				return fmt.Errorf("%s: a held buffer of %d bytes was overwritten", what, len(h.bb.Buffer))
			}
		}
		for _, h := range wrappedDone {
			if !checkBuf(h.bb.Buffer, h.tag) {
				return fmt.Errorf("%s: wrapped memory of %d bytes was overwritten", what, len(h.bb.Buffer))
			}
		}
		return nil
	}
	for k, o := range ops {
		what := fmt.Sprintf("thread %d step %d (%s %d)", id, k, o.Op, o.N)
		tag++
		switch o.Op {
		case "get":
			bb := p.Get(uint64(o.N))
			if len(bb.Buffer) != o.N {
				return fmt.Errorf("%s: got %d bytes", what, len(bb.Buffer))
			}
			if err := reg.add(bb.Buffer); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			fillBuf(bb.Buffer, tag)
			hs = append(hs, &held{bb, tag, false})
		case "wrap":
			bb := pool.NonBorrowedBuffer(make([]byte, o.N, o.N+o.N%5))
			if len(bb.Buffer) != o.N {
				return fmt.Errorf("%s: wrapped %d bytes", what, len(bb.Buffer))
			}
			if err := reg.add(bb.Buffer); err != nil {
				return fmt.Errorf("%s: %v", what, err)
			}
			fillBuf(bb.Buffer, tag)
			hs = append(hs, &held{bb, tag, true})
		case "put", "putwrap":
			i := pick(o.N, o.Op == "putwrap")
			if i < 0 {
				continue
			}
			if err := verify(what); err != nil {
				return err
			}
			h := hs[i]
			hs = append(hs[:i], hs[i+1:]...)
			if h.wrapped {
				wrappedDone = append(wrappedDone, h)
			} else {
				reg.del(h.bb.Buffer)
			}
			p.Put(h.bb)
		case "gc":
			runtime.GC()
		default:
			drvFail("op %q", o.Op)
		}
		if err := verify(what); err != nil {
			return err
		}
	}
	// everything goes back at the end
	for _, h := range hs {
		reg.del(h.bb.Buffer)
		p.Put(h.bb)
	}
	for _, h := range wrappedDone {
		reg.del(h.bb.Buffer)
	}
	return nil
}

func main() {
	serve(func(line []byte) interface{} {
		var r request
		parse(line, &r)
		p := pool.ByteSlice
		if r.DefSize != 0 {
			p = pool.NewByteSlicePool(r.DefSize)
		}
		for round := 0; round < r.Rounds; round++ {
			reg := &registry{m: map[uintptr]uintptr{}}
			errs := make([]string, len(r.Threads))
			if len(r.Threads) == 1 {
				if err := thread(p, reg, r.Threads[0], 0); err != nil {
					return err.Error()
				}
				continue
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range r.Threads {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							errs[i] = fmt.Sprint("panic: ", x)
						}
					}()
					<-start
					if err := thread(p, reg, r.Threads[i], i); err != nil {
						errs[i] = err.Error()
					}
				}(i)
			}
			close(start)
			wg.Wait()
			for _, s := range errs {
				if s != "" {
					return s
				}
			}
		}
		return ""
	})
}
