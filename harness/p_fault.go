package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"pgregory.net/rapid"
)

// C15: success is reported only when the complete output was written.

type fault struct {
	Mode  string // errno, kill, limit, limitkill, full
	A     uint64
	Errno int  `json:",omitempty"`
	More  bool `json:",omitempty"` // all later operations fail as well
	Close bool `json:",omitempty"` // closing can fail, too
	Read  bool `json:",omitempty"` // reading, mapping and seeking, too, of inputs as well
}

type c15Case struct {
	Tool    string
	Doc     Doc
	Workers int
	Align   int
	Passes  int // relindex
	Mem     int // rewritenodes
	Nodes   int // rewritenodes: ids 1..Nodes are in the index
	Long    int // relindex: refs per way of the way index
	Faults  []fault
}

// prepare writes the tool's inputs and returns its arguments without -o.
func (c *c15Case) prepare(dir string) ([]string, error) {
	in := join(dir, "in.pbf")
	if err := c.Doc.write(in); err != nil {
		return nil, err
	}
	a := []string{"-r", "0", "-i", in, "-w", itoa(c.Workers)}
	switch c.Tool {
	case "wayindex":
		a = append(a, "-a", itoa(c.Align))
	case "rewritenodes":
		m := mapIdx{Seed: 1, Refs: 2}
		locs := m.locs(&c.Doc)
		for i := 1; i <= c.Nodes; i++ {
			locs[int64(i)] = pseudoLoc(uint64(i))
		}
		if err := writeMapIdx(join(dir, "n.idx"), locs, false, 50000); err != nil {
			return nil, err
		}
		a = append(a, "-x", join(dir, "n.idx"))
		if c.Mem > 0 {
			a = append(a, "-m", itoa(c.Mem))
		}
	case "relindex":
		ids := map[int64]bool{}
		c.Doc.eachRel(func(r *Rel) {
			for _, m := range r.Mem {
				if m.Type == 1 && m.ID < 1<<31 && m.ID%5 != 0 && len(ids) < 400 {
					ids[m.ID] = true
				}
			}
		})
		var ws []Way
		for id := range ids {
			ws = append(ws, Way{ID: id})
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].ID < ws[j].ID })
		for i := range ws {
			r := &rng{uint64(ws[i].ID)}
			for j := 0; j < c.Long; j++ {
				ws[i].Refs = append(ws[i].Refs, encLoc(int32(r.n(3600000001)-1800000000), int32(r.n(1800000001)-900000000)))
			}
			ws[i].Refs = collapse(ws[i].Refs)
		}
		if err := writeSynWay(join(dir, "w.idx"), ws, 3, 0); err != nil {
			return nil, err
		}
		a = append(a, "-x", join(dir, "w.idx"), "-p", itoa(c.Passes))
	}
	return a, nil
}

func runC15(e *Env, c c15Case) error {
	dir, done := e.dir()
	defer done()
	a, err := c.prepare(dir)
	if err != nil {
		return err
	}
	od := join(dir, "o")
	out := join(od, "out")
	fresh := func() error {
		if err := os.RemoveAll(od); err != nil {
			return err
		}
		return os.MkdirAll(od, 0o755)
	}
	args := append(append([]string{}, a...), "-o", out)
	ops := map[string][]string{}
	var ref []byte
	kinds := []string{"", "close"}
	for _, f := range c.Faults {
		if f.kind() == "read" && len(kinds) == 2 {
			kinds = append(kinds, "read")
		}
	}
	for _, kind := range kinds {
		if err := fresh(); err != nil {
			return err
		}
		cl := kind == "close"
		in := &injection{dir: od, at: -1, close: cl, read: kind == "read"}
		if in.read {
			in.dir = dir
		}
		r, err := e.toolOpt(toolOpt{fsize: -1, inject: in}, c.Tool, args...)
		if err != nil {
			return err
		}
		if !r.ok() {
			return violf("tool failed on valid input: %s", r)
		}
		ops[kind] = in.ops
		if cl {
			if len(in.ops) < 1<<16 && unclosed(in.ops)["out"] {
				return violf("%s reports success, but never closed its output: when the file system reports the failure of a write at the close, it goes unnoticed", c.Tool)
			}
		}
		if ref, err = os.ReadFile(out); err != nil {
			return violf("no output: %v", err)
		}
	}
	for _, f := range c.Faults {
		if err := fresh(); err != nil {
			return err
		}
		o := toolOpt{fsize: -1}
		what := ""
		switch f.Mode {
		case "errno", "kill":
			l := ops[f.kind()]
			if len(l) == 0 {
				continue
			}
			k := int(f.A % uint64(len(l)))
			if f.A%7 == 0 { // the last operations
				k = len(l) - 1 - int(f.A/7%4)%len(l)
			}
			o.inject = &injection{dir: od, at: k, errno: syscall.Errno(f.Errno), more: f.More, close: f.Close}
			if f.kind() == "read" {
				o.inject.dir, o.inject.read = dir, true
				for i, n := 0, int(f.A/29%5); n > 0 && i < len(l); i++ { // mostly one that reads
					if j := (k + i) % len(l); !strings.HasPrefix(l[j], "write ") {
						o.inject.at, k = j, j
						break
					}
				}
			}
			if f.Mode == "kill" {
				o.inject.errno = 0
				what = fmt.Sprintf("killed at operation %d of %d (%s)", k, len(l), l[k])
			} else {
				what = fmt.Sprintf("operation %d of %d (%s) fails with %q", k, len(l), l[k], syscall.Errno(f.Errno).Error())
			}
		case "limit", "limitkill":
			n := int64(f.A % uint64(len(ref)+1))
			switch f.A % 5 {
			case 0:
				n = int64(len(ref)) - 1 - int64(f.A/5%20)
			case 1:
				n = int64(f.A / 5 % 40)
			}
			if n < 0 {
				n = 0
			}
			o.fsize, o.blockXFSZ = n, f.Mode == "limit"
			what = fmt.Sprintf("no file can grow beyond %d bytes (the output has %d)", n, len(ref))
		case "full":
			// the files written, from the reference run
			var names []string
			for _, x := range ops["close"] {
				n := x[strings.Index(x, " ")+1:]
				if strings.HasPrefix(x, "close ") || contains(names, n) {
					continue
				}
				names = append(names, n)
			}
			if len(names) == 0 {
				continue
			}
			n := names[int(f.A%uint64(len(names)))]
			if err := os.Symlink("/dev/full", join(od, n)); err != nil {
				return err
			}
			o.fsize, o.blockXFSZ = int64(len(ref))+(8<<20), true
			what = n + " is on a full device"
		}
		r, err := e.toolOpt(o, c.Tool, args...)
		if err != nil {
			return err
		}
		got, readErr := readRegular(out)
		switch {
		case r.ok() && readErr != nil && len(ref) > 0:
			return violf("%s reports success although %s: %v", c.Tool, what, readErr)
		case r.ok() && readErr == nil:
			if s := diffBytes(ref, got); s != "" {
				return violf("%s reports success although %s; expected and written output: %s", c.Tool, what, s)
			}
		case !r.ok() && !f.Close && c.Tool == "nodeindex" && readErr == nil && diffBytes(ref, got) != "":
			if d, err := e.tool("dumpnodeindex", "-i", out, "-p"); err != nil {
				return err
			} else if d.ok() {
				return violf("dumpnodeindex accepts the node index (%d of %d bytes) left when %s", len(got), len(ref), what)
			}
			if d, err := e.tool("rewritenodes", "-r", "0", "-i", join(dir, "in.pbf"), "-x", out, "-o", join(dir, "rw"), "-w", "1"); err != nil {
				return err
			} else if d.ok() {
				return violf("rewritenodes accepts the node index (%d of %d bytes) left when %s", len(got), len(ref), what)
			}
		}
	}
	return nil
}

// c15RCase: the report of a tool that prints, with faults on its standard output.
type c15RCase struct {
	Tool    string
	Doc     Doc
	Idx     mapIdx
	Ways    []Way
	Align   int
	Workers int
	Flags   []string
	Ask     []int64
	Faults  []fault
}

func runC15R(e *Env, c c15RCase) error {
	dir, done := e.dir()
	defer done()
	in, od := join(dir, "in"), join(dir, "o")
	a := append([]string{"-i", in}, c.Flags...)
	var err error
	switch c.Tool {
	case "dumpnodeindex":
		err = writeMapIdx(in, c.Idx.locs(&c.Doc), c.Idx.Fill, c.Idx.Split)
	case "dumpwayindex":
		err = writeSynWay(in, c.Ways, c.Align, 0)
	case "blockcount":
		err = c.Doc.write(in)
	default:
		err = c.Doc.write(in)
		a = append(a, "-w", itoa(c.Workers))
		if c.Tool == "entityfind" {
			for _, id := range c.Ask {
				a = append(a, "-e", fmt.Sprint(id))
			}
		}
	}
	if err != nil {
		return err
	}
	report := join(od, "report")
	run := func(o toolOpt) (*toolResult, string, error) {
		if err := os.RemoveAll(od); err != nil {
			return nil, "", err
		}
		if err := os.MkdirAll(od, 0o755); err != nil {
			return nil, "", err
		}
		if o.stdout == "" {
			o.stdout = report
		}
		r, err := e.toolOpt(o, c.Tool, a...)
		if err != nil {
			return nil, "", err
		}
		b, _ := os.ReadFile(report)
		var l []string
		for _, s := range strings.SplitAfter(string(b), "\n") {
			if !strings.HasPrefix(s, "Total run time") {
				l = append(l, s)
			}
		}
		if c.Tool == "entityfind" && c.Workers > 1 {
			sort.Strings(l)
		}
		return r, strings.Join(l, ""), nil
	}
	count := &injection{dir: od, at: -1}
	r, ref, err := run(toolOpt{fsize: -1, inject: count})
	if err != nil {
		return err
	}
	if !r.ok() {
		return violf("tool failed on valid input: %s", r)
	}
	n := len(count.ops)
	for _, f := range c.Faults {
		o := toolOpt{fsize: -1}
		what := ""
		switch f.Mode {
		case "full":
			o.stdout = "/dev/full"
			what = "its standard output is a full device"
		case "limit":
			if len(ref) == 0 {
				continue
			}
			o.fsize, o.blockXFSZ = int64(f.A%uint64(len(ref))), true
			what = fmt.Sprintf("its standard output can take only %d of %d bytes", o.fsize, len(ref))
		default:
			if n == 0 {
				continue
			}
			k := int(f.A % uint64(n))
			if f.A%5 == 0 {
				k = n - 1
			}
			o.inject = &injection{dir: od, at: k, errno: syscall.Errno(f.Errno), more: f.More}
			what = fmt.Sprintf("operation %d of %d on its standard output fails with %q", k, n, syscall.Errno(f.Errno).Error())
		}
		r, got, err := run(o)
		if err != nil {
			return err
		}
		if r.ok() && got != ref {
			return violf("%s reports success although %s: %d of %d bytes printed", c.Tool, what, len(got), len(ref))
		}
	}
	return nil
}

func genC15R(t *rapid.T) c15RCase {
	c := c15RCase{Tool: rapid.SampledFrom([]string{"blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex"}).Draw(t, "tool"), Workers: genWorkers(t), Align: rapid.IntRange(0, 4).Draw(t, "align")}
	switch c.Tool {
	case "dumpnodeindex":
		c.Doc = genDoc(t, docOpt{kinds: kNode | kWay, maxPer: 8, maxBlobs: 4})
		c.Idx = genMapIdx(t)
		c.Flags = rapid.SampledFrom([][]string{{"-p", "-s"}, {"-p"}, {"-s"}}).Draw(t, "flags")
	case "dumpwayindex":
		rc := genRelCase(docOpt{kinds: kWay | kRel, maxPer: 6, maxBlobs: 4, staged: true})(t)
		c.Ways = rc.ways()
		c.Flags = rapid.SampledFrom([][]string{{"-p", "-s"}, {"-p"}, {"-s"}}).Draw(t, "flags")
	default:
		c.Doc = genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, maxPer: 8, maxBlobs: 5})
		c.Doc.eachNode(func(n *Node, _, _ int32) { c.Ask = append(c.Ask, n.ID) })
		c.Doc.eachWay(func(w *Way) { c.Ask = append(c.Ask, w.ID) })
		c.Doc.eachRel(func(r *Rel) { c.Ask = append(c.Ask, r.ID) })
		if len(c.Ask) == 0 {
			c.Ask = []int64{1}
		}
		k := rapid.IntRange(0, len(c.Ask)-1).Draw(t, "ask")
		c.Ask = c.Ask[k:min(len(c.Ask), k+12)]
	}
	c.Faults = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) fault {
		f := genFault.Draw(t, "f")
		f.Close, f.Read = false, false
		if f.Mode == "kill" || f.Mode == "limitkill" {
			f.Mode, f.Errno = "errno", int(syscall.EIO)
		}
		return f
	}), 1, 4).Draw(t, "faults")
	return c
}

// unclosed are the files written and neither closed nor synced afterwards.
func unclosed(ops []string) map[string]bool {
	dirty := map[string]bool{}
	for _, o := range ops {
		k := strings.Index(o, " ")
		switch n := o[k+1:]; o[:k] {
		case "close", "fsync", "fdatasync":
			delete(dirty, n)
		default:
			dirty[n] = true
		}
	}
	return dirty
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// readRegular reads a file unless it is (a link to) a device.
func readRegular(p string) ([]byte, error) {
	p2, err := filepath.EvalSymlinks(p)
	if err != nil {
		return nil, err
	}
	st, err := os.Stat(p2)
	if err != nil {
		return nil, err
	}
	if !st.Mode().IsRegular() {
		return nil, fmt.Errorf("%s is not a regular file", p2)
	}
	return os.ReadFile(p2)
}

func (f *fault) kind() string {
	switch {
	case f.Mode != "errno" && f.Mode != "kill":
		return ""
	case f.Read:
		return "read"
	case f.Close:
		return "close"
	}
	return ""
}

var genFault = rapid.Custom(func(t *rapid.T) fault {
	f := fault{Mode: rapid.SampledFrom([]string{"errno", "errno", "errno", "limit", "full", "kill", "limitkill"}).Draw(t, "mode"), A: uint64(rapid.IntRange(0, 1<<24).Draw(t, "a"))}
	if f.Mode == "errno" {
		f.Errno = int(rapid.SampledFrom([]syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EFBIG, syscall.EDQUOT}).Draw(t, "errno"))
		f.More = rapid.Bool().Draw(t, "more")
		f.Close = oneIn(t, 3, "close")
		if oneIn(t, 3, "read") {
			f.Read, f.Close = true, false
			f.Errno = int(rapid.SampledFrom([]syscall.Errno{syscall.EIO, syscall.ENOMEM, syscall.ESTALE}).Draw(t, "rerrno"))
		}
	}
	return f
})

func genC15(t *rapid.T, tools []string, o docOpt, big bool) c15Case {
	c := c15Case{Tool: rapid.SampledFrom(tools).Draw(t, "tool"), Doc: genDoc(t, o), Workers: rapid.SampledFrom([]int{1, 2, 4, 8}).Draw(t, "w"),
		Align: genAlign(t), Passes: rapid.IntRange(1, 4).Draw(t, "passes"), Long: rapid.IntRange(0, 5).Draw(t, "long")}
	if big {
		c.Long = rapid.IntRange(0, 600).Draw(t, "blong")
		c.Nodes = rapid.SampledFrom([]int{0, 131072, 300000}).Draw(t, "nodes")
		if c.Align > 6 {
			c.Align = 3
		}
		c.Mem = 1
	}
	c.Faults = rapid.SliceOfN(genFault, 1, 6).Draw(t, "faults")
	return c
}

func init() {
	out := []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress"}
	cls := func(c c15Case) Class {
		l := []string{c.Tool}
		for _, f := range c.Faults {
			l = append(l, f.Mode)
		}
		_, _, _, b := c.Doc.kinds()
		return Class{Nontrivial: b > 0, Labels: l}
	}
	register(&Property{ID: "C15", Tools: append([]string{"blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex"}, out...), Arms: []*Arm{
		arm("report", 400, "tools that print x file or index x list of faults on their standard output: one operation (or it and all later ones) fails, it takes only so many bytes, or it is a full device; non-trivial: something is found or counted",
			genC15R, runC15R, func(c c15RCase) Class {
				_, _, _, b := c.Doc.kinds()
				return Class{b > 0 || len(c.Ways) > 0, []string{c.Tool}}
			}),
		arm("small", 700, "tool x generated PBF x list of faults: one writing system call (or it and all later ones, or a close) fails with ENOSPC/EIO/EFBIG/EDQUOT, a read, mapping or seek of an input or intermediate file with EIO/ENOMEM/ESTALE, the process is killed there, files cannot grow beyond a limit, or one of the files written is on a full device; non-trivial: a data block",
			func(t *rapid.T) c15Case {
				return genC15(t, out, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, maxPer: 6, maxBlobs: 6}, false)
			}, runC15, cls),
		arm("nodeindex", 400, "the same faults on nodeindex; what it leaves behind is given to dumpnodeindex and rewritenodes; non-trivial: a data block",
			func(t *rapid.T) c15Case {
				return genC15(t, out[:1], docOpt{kinds: kNode, maxPer: 10, maxBlobs: 6, bigGaps: true}, false)
			}, runC15, cls),
		arm("flush", 16, "relindex with relations of more than a million values, which it writes in several parts, in one or more passes; non-trivial: more than one part",
			func(t *rapid.T) c15Case {
				c := c15Case{Tool: "relindex", Doc: Doc{Blobs: []Blob{headerBlob(t)}}, Workers: rapid.IntRange(1, 4).Draw(t, "w"), Passes: rapid.IntRange(1, 3).Draw(t, "passes"), Long: rapid.IntRange(900, 1800).Draw(t, "long")}
				ways := rapid.Int64Range(6, 40).Draw(t, "ways")
				for i := rapid.IntRange(1, 4).Draw(t, "rels"); i > 0; i-- {
					g := Group{Kind: kRel, Bulk: &Bulk{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), N: 1, First: int64(10 - i), Len: rapid.IntRange(400, 1600).Draw(t, "members"), Lo: 1, Hi: ways}}
					c.Doc.Blobs = append(c.Doc.Blobs, Blob{Type: "OSMData", Level: 1, Block: &Block{Groups: []Group{g}}})
				}
				c.Faults = rapid.SliceOfN(genFault, 2, 6).Draw(t, "faults")
				return c
			}, runC15, func(c c15Case) Class {
				n := 0
				c.Doc.eachRel(func(r *Rel) { n += len(r.Mem) * c.Long * 4 / 5 })
				return Class{n > 1000000, []string{c.Tool}}
			}),
		arm("large", 60, "files of thousands of entities, several passes, outputs and temporary files beyond 1 MiB; non-trivial: a data block",
			func(t *rapid.T) c15Case {
				k := rapid.SampledFrom([]int{kNode | kWay | kRel, kNode, kRel}).Draw(t, "kinds")
				return genC15(t, out, docOpt{kinds: k, nodeTags: true, bulk: 1, bulkN: 60000, maxBlobs: 6}, true)
			}, runC15, cls),
	}})
}
