// Driver: the workers and the writer of a tool, fed block by block, with the display's lines about them.
package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/edsrzf/mmap-go"
	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	dc "github.com/squizzling/osmindex/cmd/decompress/decompressor"
	dcw "github.com/squizzling/osmindex/cmd/decompress/decompressor/widget"
	ni "github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	niw "github.com/squizzling/osmindex/cmd/nodeindex/indexer/widget"
	ri "github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	riw "github.com/squizzling/osmindex/cmd/relindex/relindexerinit/widget"
	rw "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	rww "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
	tf "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	tfw "github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer/widget"
	wi "github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	wiw "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/widget"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
)

type block struct {
	Index    uint64
	Off, Len int
}

type request struct {
	Tool    string
	File    string
	Index   string
	Out     string
	Workers int
	Blocks  []block
	Steps   []string // push, take, close
	Writer  []string // expected in the writer's line after so many blocks were written
}

type snap struct {
	Rows    []string
	Writer  string
	Pending []uint64 // blocks in the hands of workers
	Written int      // blocks handed to the writer
	Left    int      // blocks not yet given to a worker
}

type result struct{ Snaps []snap }

func main() {
	serve(func(line []byte) interface{} {
		var r request
		parse(line, &r)
		f, err := os.Open(r.File)
		if err != nil {
			drvFail("%v", err)
		}
		defer f.Close()
		m, err := mmap.Map(f, mmap.RDONLY, 0)
		if err != nil {
			drvFail("%v", err)
		}
		defer m.Unmap()
		var work pbf.WorkFunc
		var write pbf.WriteFunc
		var w views.Widget
		cmd := func(sp tracker.StateProvider, a, b tracker.NewWidgetFunc) { w = widget.NewWidgetCmd(sp, a, b) }
		switch r.Tool {
		case "decompress":
			x := &dc.Decompressor{}
			work, write = x.Worker, x.Output(r.Out)
			cmd(x, dcw.NewWidgetStateWorker, dcw.NewWidgetStateWriter)
		case "nodeindex":
			x := &ni.NodeIndexer{}
			work, write = x.Worker, x.Output(r.Out)
			cmd(x, niw.NewWidgetStateWorker, niw.NewWidgetStateWriter)
		case "wayindex":
			x := &wi.WayIndexer{}
			work, write = x.Worker(3), x.Output(r.Out, 3)
			cmd(x, wiw.NewWidgetStateWorker, wiw.NewWidgetStateWriter)
		case "relindex":
			x := &ri.RelIndexerInitializer{}
			work, write = x.Worker(), x.Output(r.Out)
			cmd(x, riw.NewWidgetStateWorker, riw.NewWidgetStateWriter)
		case "tagfilter":
			x := &tf.TagFilterer{}
			work, write = x.Worker(), x.Writer(r.Out)
			cmd(x, tfw.NewWidgetStateWorker, tfw.NewWidgetStateWriter)
		case "rewritenodes":
			x := &rw.NodeRewriter{}
			ix := nodeindex.NewNodeIndex(r.Index, nil)
			defer ix.Close()
			work, write = x.Worker(ix.SubIndex(0, 1), true), x.Writer(r.Out)
			cmd(x, rww.NewWidgetStateWorker, rww.NewWidgetStateWriter)
		default:
			drvFail("tool %q", r.Tool)
		}
		s := tcell.NewSimulationScreen("UTF-8")
		if err := s.Init(); err != nil {
			drvFail("%v", err)
		}
		defer s.Fini()
		s.SetSize(120, r.Workers+3)
		box := views.NewBoxLayout(views.Vertical)
		box.SetView(s)
		box.AddWidget(w, 1.0)
		lines := func() []string {
			s.Clear()
			box.HandleEvent(ui.NewEventUpdate())
			box.Draw()
			s.Show()
			cells, wd, h := s.GetContents()
			var out []string
			for y := 0; y < h; y++ {
				l := ""
				for x := 0; x < wd; x++ {
					if c := cells[y*wd+x]; len(c.Runes) > 0 {
						l += string(c.Runes)
					} else {
						l += " "
					}
				}
				if l = strings.TrimRight(l, " \x00"); l != "" {
					out = append(out, l)
				}
			}
			return out
		}

		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		in, out, toWriter := make(chan pbf.Block), make(chan pbf.Block), make(chan pbf.Block)
		wdone := make(chan bool)
		for i := 0; i < r.Workers; i++ {
			go func() {
				work(ctx, in, out)
				wdone <- true
			}()
		}
		writerDone := make(chan bool)
		go func() {
			write(ctx, toWriter)
			close(writerDone)
		}()

		var res result
		pending := map[uint64]bool{}
		ready := map[uint64]pbf.Block{}
		next, given, closed := 0, 0, false
		look := func() {
			st := snap{Written: next, Left: len(r.Blocks) - given}
			for b := range pending {
				st.Pending = append(st.Pending, b)
			}
			sort.Slice(st.Pending, func(i, j int) bool { return st.Pending[i] < st.Pending[j] })
			rows := r.Workers
			if closed {
				rows = 0
			}
			end := time.Now().Add(8 * time.Second)
			for {
				l := lines()
				st.Rows, st.Writer = nil, ""
				if len(l) > 0 {
					st.Rows, st.Writer = l[:len(l)-1], l[len(l)-1]
				}
				ok := len(st.Rows) == rows && strings.Contains(st.Writer, r.Writer[next])
				n := 0
				for _, x := range st.Rows {
					if strings.Contains(x, "waiting") {
						n++
					}
				}
				for _, b := range st.Pending {
					k := 0
					for _, x := range st.Rows {
						if strings.HasSuffix(x, fmt.Sprintf("sending block %d", b)) || strings.Contains(x, fmt.Sprintf("sending block %d,", b)) {
							k++
						}
					}
					ok = ok && k == 1
				}
				ok = ok && n == rows-len(st.Pending)
				if ok || time.Now().After(end) {
					break // after the deadline: what is shown is wrong
				}
				time.Sleep(50 * time.Microsecond)
			}
			res.Snaps = append(res.Snaps, st)
		}
		take := func() {
			b := <-out
			delete(pending, b.Index)
			ready[b.Index] = b
			for next < len(r.Blocks) {
				b, ok := ready[r.Blocks[next].Index]
				if !ok {
					break
				}
				toWriter <- b
				next++
			}
		}
		look()
		for _, op := range r.Steps {
			switch op {
			case "push":
				if given == len(r.Blocks) || len(pending) == r.Workers {
					continue
				}
				b := r.Blocks[given]
				given++
				pending[b.Index] = true
				in <- pbf.Block{Index: b.Index, Data: m[b.Off : b.Off+b.Len], BlobType: "OSMData"}
			case "take":
				if len(pending) == 0 {
					continue
				}
				take()
			}
			look()
		}
		for len(pending) > 0 {
			take()
		}
		close(in)
		for i := 0; i < r.Workers; i++ {
			<-wdone
		}
		closed = true
		look()
		close(toWriter)
		<-writerDone
		return res
	})
}
