// Driver: histories of workers starting and finishing, with snapshots and display refreshes.
package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/gdamore/tcell/views"

	"github.com/squizzling/osmindex/internal/tracker"
)

type op struct {
	Op string // track, untrack, snap, refresh
	W  int
}

type request struct {
	Ops     []op
	Threads [][]op // concurrent histories of disjoint workers
	Base    int    // workers tracked for the whole concurrent run
	Rounds  int
}

type worker struct{ id int }

type provider struct {
	tracker.WorkerTracker
	yield bool
}

func (p *provider) WriterState() interface{} { return nil }

// the display asks for the version, then for the list: leave room in between
func (p *provider) Version() uint64 {
	v := p.WorkerTracker.Version()
	if p.yield {
		runtime.Gosched()
	}
	return v
}

type row struct {
	views.Text
	w *worker
}

func ids(s []interface{}) []int {
	o := []int{}
	for _, x := range s {
		if x == nil {
			o = append(o, -1)
			continue
		}
		o = append(o, x.(*worker).id)
	}
	return o
}

func eq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sequential(r *request) string {
	p := &provider{}
	rowOf := map[int]views.Widget{}
	ww := tracker.NewWidgetWorkers(p, func(s interface{}) views.Widget { return &row{w: s.(*worker)} })
	ws := map[int]*worker{}
	model := []int{}
	type snapshot struct {
		got  []interface{}
		want []int
	}
	var snaps []snapshot
	for k, o := range r.Ops {
		what := fmt.Sprintf("step %d (%s %d)", k, o.Op, o.W)
		v := p.Version()
		changed := false
		switch o.Op {
		case "track":
			if ws[o.W] != nil {
				continue
			}
			ws[o.W] = &worker{o.W}
			p.TrackWorker(ws[o.W])
			model = append(append([]int{}, model...), o.W)
			changed = true
		case "untrack":
			if ws[o.W] == nil {
				continue
			}
			p.UntrackWorker(ws[o.W])
			delete(ws, o.W)
			m := []int{}
			for _, x := range model {
				if x != o.W {
					m = append(m, x)
				}
			}
			model = m
			changed = true
		case "snap":
			snaps = append(snaps, snapshot{p.WorkerStates(), model})
		case "refresh":
			ww.RefreshStates()
			var got []int
			now := map[int]views.Widget{}
			for _, w := range ww.WorkerBox.Widgets() {
				id := w.(*row).w.id
				got = append(got, id)
				now[id] = w
			}
			if !eq(got, model) {
				return fmt.Sprintf("%s: the display shows %v, the active workers are %v", what, got, model)
			}
			for id, w := range now {
				if old := rowOf[id]; old != nil && old != w && old.(*row).w == w.(*row).w {
					return fmt.Sprintf("%s: worker %d did not keep its row", what, id)
				}
			}
			rowOf = now
		default:
			drvFail("op %q", o.Op)
		}
		if changed && p.Version() == v {
			return what + ": the list changed but its version did not"
		}
		if got := ids(p.WorkerStates()); !eq(got, model) {
			return fmt.Sprintf("%s: the list is %v, the active workers are %v", what, got, model)
		}
		for _, s := range snaps {
			if got := ids(s.got); !eq(got, s.want) {
				return fmt.Sprintf("%s: an earlier snapshot changed from %v to %v", what, s.want, got)
			}
		}
	}
	return ""
}

func concurrent(r *request) string {
	p := &provider{yield: true}
	ww := tracker.NewWidgetWorkers(p, func(s interface{}) views.Widget { return &row{w: s.(*worker)} })
	for i := 0; i < r.Base; i++ {
		p.TrackWorker(&worker{1000000 + i})
	}
	var wg sync.WaitGroup
	var stop int32
	var bad atomic.Value
	// readers: every snapshot is free of repeats and holes, and never changes
	var rg sync.WaitGroup
	for i := 0; i < 2; i++ {
		rg.Add(1)
		go func(i int) {
			defer rg.Done()
			for atomic.LoadInt32(&stop) == 0 {
				if i == 0 {
					ww.RefreshStates()
					continue
				}
				s := p.WorkerStates()
				a := ids(s)
				seen := map[int]bool{}
				for _, x := range a {
					if x < 0 {
						bad.Store("a snapshot holds an empty entry")
					}
					if seen[x] {
						bad.Store(fmt.Sprintf("a snapshot lists worker %d twice", x))
					}
					seen[x] = true
				}
				for b := 0; b < r.Base; b++ {
					if !seen[1000000+b] {
						bad.Store("a snapshot misses an active worker")
						break
					}
				}
				runtime.Gosched()
				if !eq(a, ids(s)) {
					bad.Store("a snapshot changed")
				}
			}
		}(i)
	}
	left := make([][]int, len(r.Threads))
	for i, ops := range r.Threads {
		wg.Add(1)
		go func(i int, ops []op) {
			defer wg.Done()
			ws := map[int]*worker{}
			var model []int
			for _, o := range ops {
				id := i*1000 + o.W
				switch o.Op {
				case "track":
					if ws[id] == nil {
						ws[id] = &worker{id}
						p.TrackWorker(ws[id])
						model = append(model, id)
					}
				case "untrack":
					if ws[id] != nil {
						p.UntrackWorker(ws[id])
						delete(ws, id)
						var m []int
						for _, x := range model {
							if x != id {
								m = append(m, x)
							}
						}
						model = m
					}
				case "yield":
					runtime.Gosched()
				}
			}
			left[i] = model
		}(i, ops)
	}
	wg.Wait()
	atomic.StoreInt32(&stop, 1)
	rg.Wait()
	if b := bad.Load(); b != nil {
		return b.(string)
	}
	final := ids(p.WorkerStates())
	pos := map[int]int{}
	for i, x := range final {
		if _, dup := pos[x]; dup {
			return fmt.Sprintf("worker %d is listed twice at the end", x)
		}
		pos[x] = i
	}
	n := r.Base
	for _, m := range left {
		last := -1
		for _, x := range m {
			at, ok := pos[x]
			if !ok {
				return fmt.Sprintf("active worker %d is not listed at the end", x)
			}
			if at < last {
				return "the workers are not in starting order at the end"
			}
			last = at
			n++
		}
	}
	if len(final) != n {
		return fmt.Sprintf("%d workers are listed at the end, %d are active", len(final), n)
	}
	ww.RefreshStates()
	var shown []int
	for _, w := range ww.WorkerBox.Widgets() {
		shown = append(shown, w.(*row).w.id)
	}
	if !eq(shown, final) {
		return fmt.Sprintf("after the last refresh the display shows %d rows, not the %d workers of the list", len(shown), len(final))
	}
	return ""
}

func main() {
	serve(func(line []byte) interface{} {
		var r request
		parse(line, &r)
		if r.Threads == nil {
			return sequential(&r)
		}
		for i := 0; i < r.Rounds; i++ {
			if s := concurrent(&r); s != "" {
				return s
			}
		}
		return ""
	})
}
