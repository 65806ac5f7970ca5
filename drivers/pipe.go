// Driver: runs the block pipeline over a file with a worker schedule chosen by the caller.
package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pbf"
)

type request struct {
	File      string
	Workers   int
	Blocks    int   // number of blocks in the file
	Plan      []int // which of the held workers goes on at each step
	WriteGate []int // yields of the writer before it takes each block
	CancelAt  int   // cancel at this step (-1 never, 0 before the run starts)
	CancelBy  string
	NoWriter  bool
	Free      bool // no schedule: workers run freely
}

type delivery struct {
	Index uint64
	Type  string
	Hash  string
	Len   int
}

type result struct {
	Delivered []delivery
	Written   []delivery
	Hung      bool
	Early     bool // the run was reported finished while work was still going on
	Note      string
}

type arrival struct {
	idx uint64
	go_ chan struct{}
}

func runPipe(r *request) result {
	var mu sync.Mutex
	var res result
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var active, finishedWorkers int32
	var writerDone int32
	arrive := make(chan arrival)
	free := make(chan struct{}) // closed: no gating any more
	var freeOnce sync.Once
	release := func() { freeOnce.Do(func() { close(free) }) }
	if r.Free {
		release()
	}

	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		atomic.AddInt32(&active, 1)
		defer atomic.AddInt32(&active, -1)
		defer atomic.AddInt32(&finishedWorkers, 1)
		for b := range in {
			var m []byte
			switch x := b.Data.(type) {
			case mmap.MMap:
				m = x
			case []byte:
				m = x
			default:
				drvFail("block data is a %T", b.Data)
			}
			h := sha256.Sum256(m)
			d := delivery{b.Index, b.BlobType, hex.EncodeToString(h[:8]), len(m)}
			mu.Lock()
			res.Delivered = append(res.Delivered, d)
			mu.Unlock()
			a := arrival{b.Index, make(chan struct{})}
			select {
			case arrive <- a:
				select {
				case <-a.go_:
				case <-free:
				}
			case <-free:
			}
			if out != nil {
				out <- pbf.Block{Index: b.Index, Data: d, BlobType: b.BlobType}
			}
		}
	}
	var write pbf.WriteFunc
	if !r.NoWriter {
		write = func(ctx context.Context, in <-chan pbf.Block) {
			atomic.AddInt32(&active, 1)
			k := 0
			wait := func() {
				n := 0
				if k < len(r.WriteGate) {
					n = r.WriteGate[k]
				}
				k++
				for i := 0; i < n; i++ {
					runtime.Gosched()
				}
				if n > 40 {
					time.Sleep(time.Duration(n) * time.Microsecond)
				}
			}
			wait()
			for b := range in {
				mu.Lock()
				res.Written = append(res.Written, b.Data.(delivery))
				mu.Unlock()
				wait()
			}
			// finishing work, as the real writers do
			for i := 0; i < 50; i++ {
				runtime.Gosched()
			}
			atomic.StoreInt32(&writerDone, 1)
			atomic.AddInt32(&active, -1)
		}
	}

	if r.CancelAt == 0 {
		cancel()
		release()
	}
	pfs := pbf.ProcessFileAsync(ctx, r.File, work, write, r.Workers)

	stop := make(chan struct{})
	ctlDone := make(chan struct{})
	go func() {
		defer close(ctlDone)
		var held []arrival
		taken, step := 0, 0
		for {
			want := r.Workers
			if left := r.Blocks - taken + len(held); left < want {
				want = left
			}
			if want == 0 {
				return
			}
			for len(held) < want {
				select {
				case a := <-arrive:
					held = append(held, a)
					taken++
				case <-free:
					for _, a := range held {
						close(a.go_)
					}
					return
				case <-stop:
					release()
					return
				}
			}
			step++
			if r.CancelAt == step {
				cancel()
				release()
				for _, a := range held {
					close(a.go_)
				}
				return
			}
			k := 0
			if step-1 < len(r.Plan) {
				k = r.Plan[step-1] % len(held)
			}
			a := held[k]
			held = append(held[:k], held[k+1:]...)
			close(a.go_)
		}
	}()

	done := make(chan struct{})
	go func() { pfs.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		res.Hung = true
		mu.Lock()
		defer mu.Unlock()
		return res
	}
	if atomic.LoadInt32(&active) != 0 || atomic.LoadInt32(&finishedWorkers) != int32(r.Workers) || (!r.NoWriter && atomic.LoadInt32(&writerDone) == 0) {
		res.Early = true
		res.Note = fmt.Sprintf("active %d, finished workers %d of %d, writer done %d", atomic.LoadInt32(&active), atomic.LoadInt32(&finishedWorkers), r.Workers, atomic.LoadInt32(&writerDone))
	}
	close(stop)
	<-ctlDone
	mu.Lock()
	defer mu.Unlock()
	return res
}

func main() {
	serve(func(line []byte) interface{} {
		var r request
		parse(line, &r)
		return runPipe(&r)
	})
}
