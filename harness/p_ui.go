package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// C26: the progress display changes nothing, and a run that is cancelled from it never claims success.

type c26Case struct {
	C          c15Case
	Rows, Cols int
	Term       string
	Refresh    string
	At         uint64 // the writing operation during which keys are pressed or the display is read
	Keys       string `json:",omitempty"`
	WaitMS     int    `json:",omitempty"` // from the key press to the end of the operation
	Early      bool   `json:",omitempty"` // the key is pressed as the tool starts
	Procs      int
	Name       string    // of the input file
	Disturb    []disturb `json:",omitempty"` // done to the display while it is at rest
}

// disturb is a key, a new size of the terminal, or (Garble) something else writing on it before either.
type disturb struct {
	Key        string `json:",omitempty"`
	Rows, Cols int    `json:",omitempty"`
	Garble     bool   `json:",omitempty"`
}

var actionName = map[string]string{"nodeindex": "NodeIndex", "wayindex": "WayIndex", "rewritenodes": "RewriteNodes", "relindex": "RelIndexInit", "tagfilter": "TagFilter", "decompress": "Decompress"}

type uiRun struct {
	dir, od, out string
	args         []string // with -r 0
	in           string
	ref          []byte
	ops          []string
}

func (c *c26Case) prepare(e *Env, dir string) (*uiRun, error) {
	u := &uiRun{dir: dir, od: join(dir, "o"), out: join(dir, "o", "out"), in: join(dir, "in.pbf")}
	a, err := c.C.prepare(dir)
	if err != nil {
		return nil, err
	}
	if c.Name != "" {
		u.in = join(dir, c.Name)
		if err := os.Rename(join(dir, "in.pbf"), u.in); err != nil {
			return nil, err
		}
		for i := range a {
			if a[i] == join(dir, "in.pbf") {
				a[i] = u.in
			}
		}
	}
	u.args = append(a, "-o", u.out)
	if err := u.fresh(); err != nil {
		return nil, err
	}
	in := &injection{dir: u.od, at: -1}
	r, err := e.toolOpt(toolOpt{fsize: -1, inject: in}, c.C.Tool, u.args...)
	if err != nil {
		return nil, err
	}
	if !r.ok() {
		return nil, violf("tool failed on valid input: %s", r)
	}
	u.ops = in.ops
	if u.ref, err = os.ReadFile(u.out); err != nil {
		return nil, violf("no output: %v", err)
	}
	return u, u.fresh()
}

func (u *uiRun) fresh() error {
	if err := os.RemoveAll(u.od); err != nil {
		return err
	}
	return os.MkdirAll(u.od, 0o755)
}

// withUI is the arguments with the display.
func (u *uiRun) withUI(refresh string) []string {
	a := append([]string{}, u.args...)
	for i := range a {
		if a[i] == "-r" {
			if refresh == "" { // the default
				return append(a[:i], a[i+2:]...)
			}
			a[i+1] = refresh
			break
		}
	}
	return a
}

func (c *c26Case) pty() *ptyRun { return &ptyRun{term: c.Term, rows: c.Rows, cols: c.Cols} }

func (c *c26Case) left(p *ptyRun) string {
	switch {
	case !p.restored:
		return "the terminal's settings are not restored"
	case c.Term == "xterm" && p.vt.alt:
		return "the terminal is left on the alternate screen"
	case c.Term == "xterm" && !p.vt.cursor:
		return "the cursor is left hidden"
	}
	return ""
}

func runC26Same(e *Env, c c26Case) error {
	dir, done := e.dir()
	defer done()
	u, err := c.prepare(e, dir)
	if err != nil {
		return err
	}
	p := c.pty()
	r, err := e.toolOpt(toolOpt{fsize: -1, pty: p, gomaxprocs: c.Procs}, c.C.Tool, u.withUI(c.Refresh)...)
	if err != nil {
		return err
	}
	if !r.ok() {
		return violf("with the display shown: %s", r)
	}
	got, err := os.ReadFile(u.out)
	if err != nil {
		return violf("with the display shown: no output: %v", err)
	}
	if s := diffBytes(u.ref, got); s != "" {
		return violf("%s without and with the display: %s", c.C.Tool, s)
	}
	ents, err := os.ReadDir(u.od)
	if err != nil {
		return err
	}
	if len(ents) != 1 {
		return violf("%s with the display leaves %d files", c.C.Tool, len(ents))
	}
	if s := c.left(p); s != "" {
		return violf("%s: %s", c.C.Tool, s)
	}
	return nil
}

// uiOps are the operations during which the display is shown.
func (c *c26Case) uiOps(u *uiRun) []int {
	var l []int
	for i, o := range u.ops {
		if c.C.Tool == "relindex" && !strings.Contains(o, "pass_000") {
			continue
		}
		l = append(l, i)
	}
	return l
}

// tcellHang recognizes a deadlock within tcell 1.4: Fini waits, with the screen locked, for the loop
// that handles keys and resizes, which waits for the lock.
func tcellHang(dump string) bool {
	fini, loop := false, false
	for _, g := range strings.Split(dump, "\ngoroutine ") {
		fini = fini || strings.Contains(g, "tcell.(*tScreen).termioFini")
		loop = loop || (strings.Contains(g, "tcell.(*tScreen).mainLoop") && strings.Contains(g, "sync.(*Mutex).Lock"))
	}
	return fini && loop
}

func runC26Cancel(e *Env, c c26Case) error {
	dir, done := e.dir()
	defer done()
	u, err := c.prepare(e, dir)
	if err != nil {
		return err
	}
	p := c.pty()
	o := toolOpt{fsize: -1, pty: p, gomaxprocs: c.Procs}
	where := "as it starts"
	l := c.uiOps(u)
	if len(l) == 0 {
		return nil
	}
	if !c.Early {
		k := l[int(c.At%uint64(len(l)))]
		where = fmt.Sprintf("during operation %d of %d (%s)", k, len(u.ops), u.ops[k])
		o.inject = &injection{dir: u.od, at: k, errno: 5, pause: func() {
			p.keys([]byte(c.Keys))
			time.Sleep(time.Duration(c.WaitMS) * time.Millisecond)
		}}
	} else {
		p.onStart = func() {
			time.Sleep(time.Duration(c.At%20) * time.Millisecond)
			p.keys([]byte(c.Keys))
		}
		// keep it from ending in that very moment
		o.inject = &injection{dir: u.od, at: 0, errno: 5, early: true, pause: func() { time.Sleep(time.Duration(20+c.WaitMS) * time.Millisecond) }}
	}
	r, err := e.toolOpt(o, c.C.Tool, u.withUI(c.Refresh)...)
	if err != nil {
		return err
	}
	if r.Hung && tcellHang(r.Stderr) {
		// known finding: a key handled while tcell closes the screen
		e.hung = false
		return nil
	}
	if r.Hung {
		return violf("with %q pressed %s: %s", c.Keys, where, r)
	}
	got, readErr := os.ReadFile(u.out)
	if r.ok() {
		if readErr != nil {
			return violf("%s reports success although %q was pressed %s, and there is no output: %v", c.C.Tool, c.Keys, where, readErr)
		}
		if s := diffBytes(u.ref, got); s != "" {
			return violf("%s reports success although %q was pressed %s; complete and written output: %s", c.C.Tool, c.Keys, where, s)
		}
	}
	if r.ok() || (r.Signal == 0 && !strings.Contains(r.Stderr, "panic")) {
		if s := c.left(p); s != "" && p.vt.seen {
			return violf("%s with %q pressed %s: %s", c.C.Tool, c.Keys, where, s)
		}
		ents, err := os.ReadDir(u.od)
		if err != nil {
			return err
		}
		for _, x := range ents {
			if join(u.od, x.Name()) != u.out {
				return violf("%s with %q pressed %s (exit %d) leaves %s behind", c.C.Tool, c.Keys, where, r.Exit, x.Name())
			}
		}
	}
	if !r.ok() && c.C.Tool == "nodeindex" && readErr == nil && diffBytes(u.ref, got) != "" {
		if d, err := e.tool("dumpnodeindex", "-i", u.out, "-p"); err != nil {
			return err
		} else if d.ok() {
			return violf("dumpnodeindex accepts the node index (%d of %d bytes) left when %q was pressed %s", len(got), len(u.ref), c.Keys, where)
		}
	}
	return nil
}

var (
	reBlock = regexp.MustCompile(`^(?:loading|sending) block (\d+)/(\d+) +(\d+\.\d)%$`)
	reCopy  = regexp.MustCompile(`^Writer: copying locations \((\d+)/(\d+)\) +(\d+\.\d)%$`)
	reWay   = regexp.MustCompile(`^Worker: working on block (\d+), way (\d+)/(\d+)(?: +(\d+\.\d)%)?$`)
	rePass  = regexp.MustCompile(`^Pass (\d+)/(\d+)$`)
)

// bar checks the highlighted part of a row, which shows the fraction of at in max.
func bar(v *vt, row int, frac float64) string {
	n, prefix := v.high(row)
	want := int(float64(v.cols) * frac)
	if !prefix {
		return fmt.Sprintf("the highlighted part of row %d is not its start", row)
	}
	if n != want {
		return fmt.Sprintf("%d columns of row %d are highlighted, not %d of %d", n, row, want, v.cols)
	}
	return ""
}

func pctText(at, max float64) string { return fmt.Sprintf("%2.01f", 100*at/max) }

// shown checks a display that is at rest.
func (c *c26Case) shown(u *uiRun, v *vt, pass, passes int, size int64) string {
	row := 0
	var frac float64
	prefix := fmt.Sprintf("[%s] Processing PBF ", actionName[c.C.Tool])
	if c.C.Tool == "rewritenodes" {
		row = 1
	}
	l := v.line(row)
	if !strings.HasPrefix(l, prefix) {
		return fmt.Sprintf("row %d does not start with %q", row, prefix)
	}
	i := strings.LastIndex(l, ": ")
	if i < 0 {
		return fmt.Sprintf("row %d has no state", row)
	}
	name := l[len(prefix):i]
	if c.C.Tool != "rewritenodes" || pass == 0 {
		if name != u.in {
			return fmt.Sprintf("row %d shows the file name %q instead of %q", row, name, u.in)
		}
	} else if !strings.HasPrefix(name, u.out+".pass_") {
		return fmt.Sprintf("row %d shows the file name %q in pass %d", row, name, pass)
	}
	st := l[i+2:]
	frac = -1
	ended := false
	switch {
	case st == "shutting down":
		ended = true
		if n, _ := v.high(row); n != 0 {
			return "shutting down is highlighted"
		}
	default:
		m := reBlock.FindStringSubmatch(st)
		if m == nil {
			return fmt.Sprintf("row %d shows the state %q", row, st)
		}
		var at, max float64
		fmt.Sscan(m[1], &at)
		fmt.Sscan(m[2], &max)
		if size >= 0 && max != float64(size) {
			return fmt.Sprintf("row %d shows the size %v of a file of %d bytes", row, max, size)
		}
		if at > max {
			return fmt.Sprintf("row %d shows %v of %v bytes", row, at, max)
		}
		if m[3] != pctText(at, max) {
			return fmt.Sprintf("row %d shows %s%% for %v of %v bytes", row, m[3], at, max)
		}
		frac = at / max
		if s := bar(v, row, frac); s != "" {
			return s
		}
	}
	if row == 1 {
		m := rePass.FindStringSubmatch(v.line(0))
		if m == nil || m[1] != itoa(pass+1) || m[2] != itoa(passes) {
			return fmt.Sprintf("row 0 shows %q in pass %d of %d", v.line(0), pass+1, passes)
		}
		if frac >= 0 {
			if s := bar(v, 0, (float64(pass)+frac)/float64(passes)); s != "" {
				// the sum is rounded in its own way
				if n, _ := v.high(0); bar(v, 0, float64(n)/float64(v.cols)) != "" || absInt(n-int(float64(v.cols)*(float64(pass)+frac)/float64(passes))) > 1 {
					return s
				}
			}
		} else if s := bar(v, 0, float64(pass+1)/float64(passes)); s != "" {
			if n, _ := v.high(0); absInt(n-int(float64(v.cols)*float64(pass+1)/float64(passes))) > 1 {
				return s
			}
		}
	}
	row++
	workers := 0
	for ; row < v.rows && strings.HasPrefix(v.line(row), "Worker: "); row++ {
		workers++
		if m := reWay.FindStringSubmatch(v.line(row)); m != nil {
			var at, max float64
			fmt.Sscan(m[2], &at)
			fmt.Sscan(m[3], &max)
			if at > max {
				return fmt.Sprintf("row %d shows way %v of %v", row, at, max)
			}
		}
	}
	if workers > c.C.Workers || (!ended && workers != c.C.Workers) {
		return fmt.Sprintf("%d workers are shown, there are %d", workers, c.C.Workers)
	}
	w := v.line(row)
	if !strings.HasPrefix(w, "Writer: ") {
		return fmt.Sprintf("row %d does not show the writer", row)
	}
	if m := reCopy.FindStringSubmatch(w); m != nil {
		var at, max float64
		fmt.Sscan(m[1], &at)
		fmt.Sscan(m[2], &max)
		if at > max {
			return fmt.Sprintf("row %d shows %v of %v bytes", row, at, max)
		}
		if max > 0 {
			if m[3] != pctText(at, max) {
				return fmt.Sprintf("row %d shows %s%% for %v of %v bytes", row, m[3], at, max)
			}
			if s := bar(v, row, at/max); s != "" {
				return s
			}
		}
	} else if n, _ := v.high(row); n != 0 {
		return fmt.Sprintf("%d columns of row %d are highlighted", n, row)
	}
	for row++; row < v.rows; row++ {
		if v.line(row) != "" {
			return fmt.Sprintf("row %d is not empty", row)
		}
	}
	return ""
}

func absInt(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

var rePassFile = regexp.MustCompile(`\.pass_(\d+)_(\d+)$`)

func runC26Shown(e *Env, c c26Case) error {
	dir, done := e.dir()
	defer done()
	u, err := c.prepare(e, dir)
	if err != nil {
		return err
	}
	l := c.uiOps(u)
	if len(l) == 0 {
		return nil
	}
	k := l[int(c.At%uint64(len(l)))]
	passes := 1
	for _, o := range u.ops {
		if m := rePassFile.FindStringSubmatch(o); m != nil && c.C.Tool == "rewritenodes" {
			fmt.Sscan(strings.TrimLeft(m[2], "0"), &passes)
		}
	}
	pass := passes - 1
	if m := rePassFile.FindStringSubmatch(u.ops[k]); m != nil && c.C.Tool == "rewritenodes" {
		n := 0
		fmt.Sscan(strings.TrimLeft(m[1], "0"), &n)
		pass = n - 1
	}
	// the name and its row must fit
	p := c.pty()
	p.cols = len(u.out) + 100 + c.Cols
	p.rows = c.C.Workers + 8
	wrong := ""
	o := toolOpt{fsize: -1, pty: p, gomaxprocs: c.Procs}
	o.inject = &injection{dir: u.od, at: k, errno: 5, pause: func() {
		size := int64(-1)
		if pass == 0 {
			if st, err := os.Stat(u.in); err == nil {
				size = st.Size()
			}
		}
		wait := 20 * time.Second
		await := func() string {
			return p.await(func(v *vt) string { return c.shown(u, v, pass, passes, size) }, wait)
		}
		wrong = await()
		wait = 8 * time.Second
		for i := 0; i < len(c.Disturb) && wrong == ""; i++ {
			x := c.Disturb[i]
			if x.Garble {
				p.garble()
			}
			if x.Rows > 0 {
				p.resize(c.C.Workers+8+x.Rows, len(u.out)+100+x.Cols)
			}
			p.keys([]byte(x.Key))
			wrong = await()
			for n := 1; x.Rows > 0 && wrong != "" && n < 4; n++ {
				// tcell drops the event of a new size while its queue is full
				p.resize(c.C.Workers+8+x.Rows+n%2, len(u.out)+100+x.Cols)
				wrong = await()
			}
			if wrong != "" {
				wrong = fmt.Sprintf("after %+v: %s", x, wrong)
			}
		}
		if len(c.Disturb) > 0 {
			time.Sleep(30 * time.Millisecond) // see tcellHang
		}
	}}
	r, err := e.toolOpt(o, c.C.Tool, u.withUI(c.Refresh)...)
	if err != nil {
		return err
	}
	if r.Hung && tcellHang(r.Stderr) {
		// the known finding: the display can be judged all the same, the output (of relindex) may be missing
		e.hung = false
	} else if !r.ok() {
		return violf("with the display shown: %s", r)
	}
	if wrong != "" {
		return violf("%s at rest during operation %d of %d (%s): %s", c.C.Tool, k, len(u.ops), u.ops[k], strings.ReplaceAll(wrong, dir, "DIR"))
	}
	if r.Hung {
		return nil
	}
	got, err := os.ReadFile(u.out)
	if err != nil {
		return violf("with the display shown: no output: %v", err)
	}
	if s := diffBytes(u.ref, got); s != "" {
		return violf("%s without and with the display: %s", c.C.Tool, s)
	}
	return nil
}

func genC26(t *rapid.T, large bool) c26Case {
	tools := []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress"}
	var c c26Case
	if large {
		k := rapid.SampledFrom([]int{kNode | kWay | kRel, kNode, kWay}).Draw(t, "kinds")
		c.C = genC15(t, tools, docOpt{kinds: k, nodeTags: true, bulk: 1, bulkN: 30000, maxBlobs: 6}, true)
	} else {
		c.C = genC15(t, tools, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, maxPer: 6, maxBlobs: 10}, false)
		if c.C.Tool == "rewritenodes" && rapid.Bool().Draw(t, "multi") {
			c.C.Nodes, c.C.Mem = rapid.SampledFrom([]int{131072, 300000}).Draw(t, "nodes"), 1
		}
	}
	c.C.Faults = nil
	c.Rows, c.Cols = rapid.IntRange(1, 60).Draw(t, "rows"), rapid.IntRange(1, 220).Draw(t, "cols")
	c.Term = rapid.SampledFrom([]string{"xterm", "xterm", "xterm-256color", "vt220", "ansi"}).Draw(t, "term")
	c.Refresh = rapid.SampledFrom([]string{"1ms", "1ms", "300us", "10ms", ""}).Draw(t, "refresh")
	c.At = uint64(rapid.IntRange(0, 1<<20).Draw(t, "at"))
	c.Procs = rapid.SampledFrom([]int{4, 1, 2}).Draw(t, "procs")
	return c
}

func init() {
	cls := func(c c26Case) Class {
		l := []string{c.C.Tool, "refresh " + c.Refresh, c.Term}
		for _, x := range c.Disturb {
			if x.Garble {
				l = append(l, "overwritten")
			}
			if x.Rows > 0 {
				l = append(l, "resized")
			} else {
				l = append(l, fmt.Sprintf("key %q", x.Key))
			}
		}
		if c.Keys != "" {
			l = append(l, fmt.Sprintf("keys %q", c.Keys))
		}
		sort.Strings(l)
		_, _, _, b := c.C.Doc.kinds()
		return Class{Nontrivial: b > 0, Labels: l}
	}
	cancel := func(t *rapid.T, large bool) c26Case {
		c := genC26(t, large)
		c.Keys = rapid.SampledFrom([]string{"\x03", "\x03", "\x03", "\x03\x03", "x\x03", "\x0c\x03"}).Draw(t, "keys")
		c.WaitMS = rapid.SampledFrom([]int{30, 50}).Draw(t, "wait")
		c.Early = oneIn(t, 6, "early")
		return c
	}
	register(&Property{ID: "C26", Tools: []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress", "dumpnodeindex"}, Arms: []*Arm{
		arm("same", 300, "tool x generated PBF x terminal (type, 1x1 to 60x220) x refresh interval x GOMAXPROCS: the run on a pseudo terminal against the run without display; non-trivial: a data block",
			func(t *rapid.T) c26Case { return genC26(t, false) }, runC26Same, cls),
		arm("cancel", 300, "the same with Ctrl-C pressed while a chosen writing operation is under way, or at the start; non-trivial: a data block",
			func(t *rapid.T) c26Case { return cancel(t, false) }, runC26Cancel, cls),
		arm("cancellarge", 60, "the same with files of thousands of entities and several passes; non-trivial: a data block",
			func(t *rapid.T) c26Case { return cancel(t, true) }, runC26Cancel, cls),
		arm("shown", 200, "the display is read by a terminal model while a chosen writing operation is under way; non-trivial: a data block",
			func(t *rapid.T) c26Case {
				c := genC26(t, oneIn(t, 5, "large"))
				c.Term = "xterm"
				c.Refresh = rapid.SampledFrom([]string{"1ms", "300us", "10ms"}).Draw(t, "srefresh")
				c.Cols = rapid.IntRange(0, 200).Draw(t, "scols")
				c.Name = rapid.SampledFrom([]string{"", "", "100%.pbf", "%S%N x.osm.pbf", "größe-æøå.pbf", "a b.pbf"}).Draw(t, "name")
				return c
			}, runC26Shown, cls),
		arm("disturbed", 150, "the same, with other keys pressed, the terminal resized, and the display overwritten and then redrawn with Ctrl-L or by resizing; non-trivial: a data block",
			func(t *rapid.T) c26Case {
				c := genC26(t, oneIn(t, 5, "large"))
				c.Term = "xterm"
				c.Refresh = rapid.SampledFrom([]string{"1ms", "10ms"}).Draw(t, "srefresh")
				c.Cols = rapid.IntRange(0, 200).Draw(t, "scols")
				for n := rapid.IntRange(1, 3).Draw(t, "disturbs"); n > 0; n-- {
					x := disturb{Garble: rapid.Bool().Draw(t, "garble")}
					if rapid.Bool().Draw(t, "resize") {
						x.Rows, x.Cols = rapid.IntRange(1, 40).Draw(t, "drows"), rapid.IntRange(0, 200).Draw(t, "dcols")
					} else if x.Garble {
						x.Key = "\x0c"
					} else {
						x.Key = rapid.SampledFrom([]string{"q", "c", "a", "\x0c", "\x04", "\x02", "\x1a", "\r", "\x1b[A", "\x1bc", " ", "ä", "\x0c\x0c"}).Draw(t, "key")
					}
					c.Disturb = append(c.Disturb, x)
				}
				return c
			}, runC26Shown, cls),
	}})
}
