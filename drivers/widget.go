// Driver: the widgets of the progress display, drawn on a simulated screen.
package main

import (
	"context"
	"time"

	"github.com/gdamore/tcell"
	"github.com/gdamore/tcell/views"

	nis "github.com/squizzling/osmindex/cmd/nodeindex/indexer/state"
	niw "github.com/squizzling/osmindex/cmd/nodeindex/indexer/widget"
	rws "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/state"
	rww "github.com/squizzling/osmindex/cmd/rewritenodes/rewriter/widget"
	wis "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/state"
	wiw "github.com/squizzling/osmindex/cmd/wayindex/wayindexer/widget"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/ui"
	"github.com/squizzling/osmindex/internal/ui/widget"
)

type request struct {
	Kind     string // file, pass, nodecopy, waycopy, ways
	Width    int
	File     string
	Blocks   int
	Stops    []int    // the display is updated with this many blocks taken
	Stop     []uint64 // where the reader is then
	Action   string
	Pass     uint64
	Passes   uint64
	Total    uint64
	Block    uint64
	Advances []uint64
}

type shown struct {
	Text string
	High int  // highlighted columns at the start
	Rest bool // other columns are highlighted, too
	At   uint64
	Max  uint64
}

type display struct {
	screen tcell.SimulationScreen
	box    *views.BoxLayout
	width  int
}

func newDisplay(w int, widget views.Widget) *display {
	s := tcell.NewSimulationScreen("UTF-8")
	if err := s.Init(); err != nil {
		drvFail("%v", err)
	}
	s.SetSize(w, 3)
	d := &display{screen: s, box: views.NewBoxLayout(views.Vertical), width: w}
	d.box.SetView(s)
	d.box.AddWidget(widget, 1.0)
	return d
}

func (d *display) update() shown {
	d.box.HandleEvent(ui.NewEventUpdate())
	d.box.Draw()
	d.screen.Show()
	cells, w, _ := d.screen.GetContents()
	var r shown
	prefix := true
	for i := 0; i < w; i++ {
		c := cells[i]
		if len(c.Runes) > 0 {
			r.Text += string(c.Runes)
		} else {
			r.Text += " "
		}
		if c.Style == tcell.StyleDefault.Reverse(true) {
			if prefix {
				r.High++
			} else {
				r.Rest = true
			}
		} else {
			prefix = false
		}
	}
	return r
}

// file runs the block pipeline with a worker that stops at the given places.
func file(r *request) []shown {
	take := make(chan int)
	at := make(chan bool)
	work := func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		n := 0
		for k := range take {
			for n < k {
				if _, ok := <-in; !ok {
					break
				}
				n++
			}
			at <- true
		}
		for range in {
		}
	}
	pfs := pbf.ProcessFileAsync(context.Background(), r.File, work, nil, 1)
	var w views.Widget
	if r.Kind == "file" {
		w = widget.NewProcessFileStateWidget(r.Action, pfs)
	} else {
		w = widget.NewPassProgress(r.Pass, r.Passes, pfs)
	}
	d := newDisplay(r.Width, w)
	defer d.screen.Fini()
	var out []shown
	for i, k := range r.Stops {
		take <- k
		<-at
		// the reader goes on to the next block, which nobody takes
		end := time.Now().Add(20 * time.Second)
		for {
			st := pfs.CurrentState()
			if pfs.At() == r.Stop[i] && (k == r.Blocks && st == pbf.ProcessFileStateShuttingDown || k < r.Blocks && st == pbf.ProcessFileStateSendingBlock) {
				break
			}
			if time.Now().After(end) {
				break // what is shown then is wrong
			}
			time.Sleep(20 * time.Microsecond)
		}
		s := d.update()
		s.At, s.Max = pfs.At(), pfs.Max()
		out = append(out, s)
	}
	close(take)
	pfs.Wait()
	return out
}

func main() {
	serve(func(line []byte) interface{} {
		var r request
		parse(line, &r)
		var out []shown
		switch r.Kind {
		case "file", "pass":
			return file(&r)
		case "nodecopy":
			st := &nis.Writer{}
			d := newDisplay(r.Width, niw.NewWidgetStateWriter(st))
			defer d.screen.Fini()
			d.update()
			st.SetStateCopyLocations(r.Total)
			for _, a := range r.Advances {
				st.AdvanceCopy(a)
				out = append(out, d.update())
			}
		case "waycopy":
			st := &wis.Writer{}
			d := newDisplay(r.Width, wiw.NewWidgetStateWriter(st))
			defer d.screen.Fini()
			d.update()
			st.SetStateCopyLocations(int64(r.Total))
			for _, a := range r.Advances {
				st.AdvanceCopy(a)
				out = append(out, d.update())
			}
		case "ways":
			st := &rws.Worker{}
			d := newDisplay(r.Width, rww.NewWidgetStateWorker(st))
			defer d.screen.Fini()
			d.update()
			st.SetStateDecoding(r.Block)
			st.SetStateWorking(int(r.Total))
			for _, a := range r.Advances {
				for ; a > 0; a-- {
					st.NextWay()
				}
				out = append(out, d.update())
			}
		default:
			drvFail("kind %q", r.Kind)
		}
		return out
	})
}
