package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// C19: the whole toolchain; C24: files touched by the tools.

type c19Case struct {
	Doc     Doc
	Workers int
	Align   int
	Passes  int
	Mem     int
	// conversions of the PBF: before the node index is built (decompress only), between node
	// index and rewriting, between rewriting and the way index, between way and relation index
	Stages [4]string
}

func runC19(e *Env, c c19Case) error {
	dir, done := e.dir()
	defer done()
	cur := join(dir, "in.pbf")
	if err := c.Doc.write(cur); err != nil {
		return err
	}
	n := 0
	next := func() string { n++; return join(dir, fmt.Sprintf("s%d.pbf", n)) }
	convert := func(s string) error {
		for _, x := range s {
			out := next()
			tool := map[rune]string{'d': "decompress", 't': "tagfilter"}[x]
			if err := e.simple(tool, cur, out, c.Workers); err != nil {
				return err
			}
			cur = out
		}
		return nil
	}
	nx, wx, rx := join(dir, "n.idx"), join(dir, "w.idx"), join(dir, "r.idx")
	if err := convert(c.Stages[0]); err != nil {
		return err
	}
	if err := e.nodeindex(cur, nx, c.Workers); err != nil {
		return err
	}
	if err := convert(c.Stages[1]); err != nil {
		return err
	}
	out := next()
	if err := e.rewritenodes(cur, nx, out, c.Workers, c.Mem); err != nil {
		return err
	}
	cur = out
	if err := convert(c.Stages[2]); err != nil {
		return err
	}
	if err := e.wayindex(cur, wx, c.Workers, c.Align); err != nil {
		return err
	}
	if err := convert(c.Stages[3]); err != nil {
		return err
	}
	if err := e.relindex(cur, wx, rx, c.Workers, c.Passes); err != nil {
		return err
	}
	got, err := readRelIdx(rx)
	if err != nil {
		return violf("relation index: %v", err)
	}
	loc := map[int64]int64{}
	c.Doc.eachNode(func(x *Node, lon, lat int32) { loc[x.ID] = encLoc(lon, lat) })
	ways := map[int64][]int64{}
	c.Doc.eachWay(func(w *Way) {
		m := make([]int64, len(w.Refs))
		for i, r := range w.Refs {
			m[i] = r
			if l, ok := loc[r]; ok {
				m[i] = l
			}
		}
		ways[w.ID] = collapse(m)
	})
	return wrap(compareRel(got, expectRel(&c.Doc, ways)), fmt.Sprintf("stages %q", c.Stages))
}

func genC19(t *rapid.T, o docOpt) c19Case {
	c := c19Case{Doc: genDoc(t, o), Workers: genWorkers(t), Align: genAlign(t), Passes: rapid.IntRange(1, 5).Draw(t, "passes")}
	if oneIn(t, 3, "mem") || o.bulk == 1 {
		c.Mem = rapid.SampledFrom([]int{1, 2, 1000}).Draw(t, "memv")
	}
	// a dataset without any header whose blocks tagfilter drops altogether would become an empty
	// file, which is no PBF; real files start with a header
	if len(c.Doc.Blobs) == 0 || c.Doc.Blobs[0].Type != "OSMHeader" {
		c.Doc.Blobs = append([]Blob{headerBlob(t)}, c.Doc.Blobs...)
	}
	c.Stages[0] = rapid.SampledFrom([]string{"", "", "d"}).Draw(t, "st0")
	for i := 1; i < 4; i++ {
		c.Stages[i] = rapid.SampledFrom([]string{"", "", "", "t", "d", "td", "dt", "tt"}).Draw(t, "st")
	}
	return c
}

// ---- C24 -------------------------------------------------------------------------------------

type c24Case struct {
	c15Case        // tool and inputs
	Old     int    // what the output holds before: 0 absent, 1 longer garbage, 2 shorter, 3 empty, 4 an earlier result with more behind it
	Stale   []int  // stale temporary and pass files
	Rel     bool   // relative output path
	Same    bool   // output next to the inputs
	Name    string // output name
}

func snapshot(dir string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(dir, p)
		if st.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] = string(b)
		} else if rel != "." {
			m[rel] = st.Mode().Type().String()
		}
		return nil
	})
	return m, err
}

func garbage(n int, seed uint64) []byte {
	r := &rng{seed}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.u())
	}
	return b
}

var passName = regexp.MustCompile(`^\.pass_\d+_\d+$`)

// ownTemp says whether the tool may use, and so remove, the file with this suffix.
func ownTemp(tool, suffix string) bool {
	switch tool {
	case "nodeindex", "wayindex":
		return suffix == ".loc.tmp"
	case "relindex", "rewritenodes":
		return passName.MatchString(suffix)
	}
	return false
}

// bystanders are files of somebody else in the output's directory, with names close to the output's.
func bystanders(tool, name string) []string {
	stem := strings.TrimSuffix(name, filepath.Ext(name))
	l := []string{"other.txt", "loc.tmp", ".loc.tmp", "tmp", "pass_000_001", ".pass_000_001", name + ".tmp", name + ".bak", name + ".new", name + ".old", name + ".part", name + ".loc", name + ".idx", name + "~", name + ".1",
		"." + name + ".tmp", "." + name + ".swp", stem + "-2" + filepath.Ext(name), stem + ".tmp.loc", name + ".LOC.TMP", name + ".loc.tmp.1", name + ".pass_000", name + ".pass_0_1", name + ".pass_000_001.bak",
		name + "x.loc.tmp", name + "x.pass_000_001", name + "x.pass_001_002", strings.ToUpper(name) + ".bak"}
	for _, s := range []string{".tmp", ".loc.tmp", ".pass_000_001", ".pass_001_001", ".pass_000_002", ".pass_001_002"} {
		if stem != "" && stem != name {
			l = append(l, stem+s)
		}
		if !ownTemp(tool, s) {
			l = append(l, name+s)
		}
	}
	return l
}

func runC24(e *Env, c c24Case) error {
	dir, done := e.dir()
	defer done()
	ind := join(dir, "in")
	if err := os.MkdirAll(ind, 0o755); err != nil {
		return err
	}
	a, err := c.prepare(ind)
	if err != nil {
		return err
	}
	clean := join(dir, "clean")
	if err := os.MkdirAll(clean, 0o755); err != nil {
		return err
	}
	if _, err := e.runOK(c.Tool, append(append([]string{}, a...), "-o", join(clean, "x"))...); err != nil {
		return err
	}
	if err := onlyFiles(clean, "x"); err != nil {
		return violf("%s: %v", c.Tool, err)
	}
	ref, err := os.ReadFile(join(clean, "x"))
	if err != nil {
		return err
	}
	od := join(dir, "out")
	if c.Same {
		od = ind
	}
	cwd := join(dir, "cwd")
	for _, d := range []string{od, cwd} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
	}
	out := join(od, c.Name)
	old := []byte(nil)
	switch c.Old {
	case 1:
		old = garbage(len(ref)+1+len(ref)/3, 5)
	case 2:
		old = garbage(len(ref)/2, 6)
	case 3:
		old = []byte{}
	case 4:
		old = append(append([]byte{}, ref...), garbage(40, 7)...)
	}
	if old != nil {
		if err := writeFile(out, old); err != nil {
			return err
		}
	}
	for i, n := range bystanders(c.Tool, c.Name) {
		if err := writeFile(join(od, n), []byte(fmt.Sprintf("keep %d", i))); err != nil {
			return err
		}
	}
	for _, s := range c.Stale {
		name := c.Name + ".loc.tmp"
		if s%4 != 0 { // pass_K_N
			n := 1 + s/4%5
			name = fmt.Sprintf("%s.pass_%03d_%03d", c.Name, s/20%(n+1), n)
		}
		g := garbage(s*37%5000/8*8, uint64(s))
		if s%3 == 0 { // something that looks right
			g = append(append([]byte{}, ref...), g...)
		}
		if err := writeFile(join(od, name), g); err != nil {
			return err
		}
	}
	before, err := snapshot(dir)
	if err != nil {
		return err
	}
	arg := out
	if c.Rel {
		if arg, err = filepath.Rel(cwd, out); err != nil {
			return err
		}
	}
	r, err := e.toolOpt(toolOpt{fsize: -1, dir: cwd}, c.Tool, append(append([]string{}, a...), "-o", arg)...)
	if err != nil {
		return err
	}
	if !r.ok() {
		return violf("tool failed on valid input: %s", r)
	}
	got, err := os.ReadFile(out)
	if err != nil {
		return violf("no output: %v", err)
	}
	if s := diffBytes(ref, got); s != "" {
		return violf("%s: the output depends on the files that were there before; clean directory and this one: %s", c.Tool, s)
	}
	after, err := snapshot(dir)
	if err != nil {
		return err
	}
	outRel, _ := filepath.Rel(dir, out)
	for _, k := range sortedKeys(after) {
		if k == outRel {
			continue
		}
		b, ok := before[k]
		if !ok {
			return violf("%s leaves %s behind", c.Tool, k)
		}
		if b != after[k] {
			return violf("%s changed %s", c.Tool, k)
		}
	}
	for _, k := range sortedKeys(before) {
		if _, ok := after[k]; !ok && !ownTemp(c.Tool, strings.TrimPrefix(k, outRel)) {
			return violf("%s removed %s", c.Tool, k)
		}
	}
	return nil
}

type c24ROCase struct {
	c15Case
	Link  bool // the inputs are reached through symbolic links
	Old   bool // an output is there before
	NoDir bool // the working directory can't be written either
}

// runC24RO: reading permission for the inputs is enough.
func runC24RO(e *Env, c c24ROCase) error {
	dir, done := e.dir()
	defer done()
	ind, od, cwd := join(dir, "in"), join(dir, "out"), join(dir, "cwd")
	for _, d := range []string{ind, od, cwd} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
	}
	defer func() { os.Chmod(ind, 0o755); os.Chmod(cwd, 0o755) }()
	var a []string
	switch c.Tool {
	case "blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex":
		in, nx, wx := join(ind, "in.pbf"), join(ind, "n.idx"), join(ind, "w.idx")
		if err := c.Doc.write(in); err != nil {
			return err
		}
		m := mapIdx{Seed: 1}
		if err := writeMapIdx(nx, m.locs(&c.Doc), false, 3); err != nil {
			return err
		}
		if err := writeSynWay(wx, []Way{{ID: 3, Refs: []int64{5, 6}}}, 3, 0); err != nil {
			return err
		}
		a = map[string][]string{"blockcount": {"-i", in}, "entitycount": {"-i", in}, "entityfind": {"-i", in, "-e", "1"},
			"dumpnodeindex": {"-i", nx, "-p", "-s"}, "dumpwayindex": {"-i", wx, "-p", "-s"}}[c.Tool]
	default:
		var err error
		if a, err = c.prepare(ind); err != nil {
			return err
		}
		a = append(a, "-o", join(od, "x"))
	}
	r1, err := e.runOK(c.Tool, a...)
	if err != nil {
		return err
	}
	var ref []byte
	print := c.Tool == "entitycount" || c.Tool == "entityfind" || strings.HasPrefix(c.Tool, "dump")
	if b, err := os.ReadFile(join(od, "x")); err == nil {
		ref = b
	}
	if !c.Old {
		os.Remove(join(od, "x"))
	}
	names, err := listing(ind)
	if err != nil {
		return err
	}
	for _, n := range names {
		if err := os.Chmod(join(ind, n), 0o444); err != nil {
			return err
		}
	}
	if c.Link {
		l := join(dir, "link")
		if err := os.MkdirAll(l, 0o755); err != nil {
			return err
		}
		for _, n := range names {
			if err := os.Symlink(join("..", "in", n), join(l, n)); err != nil {
				return err
			}
		}
		for i := range a {
			if strings.HasPrefix(a[i], ind+"/") {
				a[i] = l + a[i][len(ind):]
			}
		}
	}
	if err := os.Chmod(ind, 0o555); err != nil {
		return err
	}
	if c.NoDir {
		if err := os.Chmod(cwd, 0o555); err != nil {
			return err
		}
	}
	r, err := e.toolOpt(toolOpt{fsize: -1, dir: cwd, nocap: true}, c.Tool, a...)
	if err != nil {
		return err
	}
	if !r.ok() {
		return violf("the inputs can only be read, which is enough otherwise: %s", r)
	}
	if print && !sameLines(r1.Stdout, r.Stdout) {
		return violf("%s prints something else when its inputs can only be read: %s", c.Tool, diffBytes([]byte(r1.Stdout), []byte(r.Stdout)))
	}
	if got, err := os.ReadFile(join(od, "x")); ref != nil && err != nil {
		return violf("no output: %v", err)
	} else if s := diffBytes(ref, got); s != "" {
		return violf("%s writes something else when its inputs can only be read: %s", c.Tool, s)
	}
	return nil
}

// sameLines: the order of what the workers print is open.
func sameLines(a, b string) bool {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "\n") == strings.Join(y, "\n")
}

type c24ReadCase struct {
	Doc     Doc
	Workers int
}

// runC24Read: the tools that only print change nothing.
func runC24Read(e *Env, c c24ReadCase) error {
	dir, done := e.dir()
	defer done()
	ind, cwd := join(dir, "in"), join(dir, "cwd")
	for _, d := range []string{ind, cwd} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
	}
	in, nx, wx := join(ind, "in.pbf"), join(ind, "n.idx"), join(ind, "w.idx")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	m := mapIdx{Seed: 1}
	if err := writeMapIdx(nx, m.locs(&c.Doc), false, 3); err != nil {
		return err
	}
	var ws []Way
	c.Doc.eachWay(func(w *Way) { ws = append(ws, Way{ID: w.ID, Refs: collapse(w.Refs)}) })
	if err := writeSynWay(wx, ws, 3, 0); err != nil {
		return err
	}
	before, err := snapshot(dir)
	if err != nil {
		return err
	}
	for _, x := range [][]string{{"blockcount", "-i", in}, {"entitycount", "-i", in}, {"entityfind", "-i", in, "-e", "1"},
		{"dumpnodeindex", "-i", nx, "-p", "-s"}, {"dumpwayindex", "-i", wx, "-p", "-s"}} {
		r, err := e.toolOpt(toolOpt{fsize: -1, dir: cwd}, x[0], x[1:]...)
		if err != nil {
			return err
		}
		if !r.ok() {
			return violf("tool failed on valid input: %s", r)
		}
		after, err := snapshot(dir)
		if err != nil {
			return err
		}
		for _, k := range append(sortedKeys(after), sortedKeys(before)...) {
			b, ok1 := before[k]
			a, ok2 := after[k]
			if ok1 != ok2 || a != b {
				return violf("%s created, changed or removed %s", x[0], k)
			}
		}
	}
	return nil
}

type c24Two struct {
	Runs  []c15Case
	Names []string
	Same  bool // all read the inputs of the first one
}

// runC24Two: runs at the same time, with their outputs in one directory, don't disturb each other.
func runC24Two(e *Env, c c24Two) error {
	dir, done := e.dir()
	defer done()
	od, clean, cwd := join(dir, "out"), join(dir, "clean"), join(dir, "cwd")
	for _, d := range []string{od, clean, cwd} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return err
		}
	}
	var args [][]string
	for i := range c.Runs {
		r := &c.Runs[i]
		ind := join(dir, fmt.Sprintf("in%d", i))
		if err := os.MkdirAll(ind, 0o755); err != nil {
			return err
		}
		if i > 0 && c.Same {
			args = append(args, args[0])
			continue
		}
		a, err := r.prepare(ind)
		if err != nil {
			return err
		}
		args = append(args, append([]string{r.Tool}, a...))
	}
	want := map[string]string{}
	for i, a := range args {
		o := join(clean, fmt.Sprintf("x%d", i))
		if _, err := e.runOK(a[0], append(append([]string{}, a[1:]...), "-o", o)...); err != nil {
			return err
		}
		b, err := os.ReadFile(o)
		if err != nil {
			return err
		}
		want[join("out", c.Names[i])] = string(b)
	}
	before, err := snapshot(dir)
	if err != nil {
		return err
	}
	type ended struct {
		r   *toolResult
		err error
	}
	res := make([]ended, len(args))
	var wg sync.WaitGroup
	for i, a := range args {
		wg.Add(1)
		go func() {
			defer wg.Done()
			res[i].r, res[i].err = e.toolOpt(toolOpt{fsize: -1, dir: cwd, noRetry: true}, a[0], append(append([]string{}, a[1:]...), "-o", join(od, c.Names[i]))...)
		}()
	}
	wg.Wait()
	for i := range res {
		if res[i].err != nil {
			return res[i].err
		}
		if !res[i].r.ok() {
			return violf("tool failed on valid input while another one writes a file in the same directory: %s", res[i].r)
		}
	}
	after, err := snapshot(dir)
	if err != nil {
		return err
	}
	for k, w := range want {
		got, ok := after[k]
		if !ok {
			return violf("no output %s", k)
		}
		if s := diffBytes([]byte(w), []byte(got)); s != "" {
			return violf("the output %s is another one when tools run at the same time: %s", k, s)
		}
		delete(after, k)
	}
	for _, k := range append(sortedKeys(after), sortedKeys(before)...) {
		b, ok1 := before[k]
		a, ok2 := after[k]
		if ok1 != ok2 || a != b {
			return violf("%s was created, changed or removed", k)
		}
	}
	return nil
}

func genC24Two(o docOpt, big bool) func(t *rapid.T) c24Two {
	return func(t *rapid.T) c24Two {
		tools := []string{"nodeindex", "rewritenodes", "wayindex", "relindex", "tagfilter", "decompress"}
		c := c24Two{Same: oneIn(t, 3, "same")}
		n := rapid.IntRange(2, 4).Draw(t, "runs")
		if oneIn(t, 2, "alike") { // all with the same tool, which uses the same temporary names
			tools = []string{rapid.SampledFrom(tools).Draw(t, "tool1")}
		}
		names := rapid.Permutation([]string{"out", "out.pbf", "out.idx", "out-2", "a", "b", "x y", "out.2"}).Draw(t, "names")
		c.Names = names[:n]
		for i := 0; i < n; i++ {
			r := genC15(t, tools, o, big)
			r.Faults = nil
			c.Runs = append(c.Runs, r)
		}
		return c
	}
}

func init() {
	cls19 := func(c c19Case) Class {
		l := docLabels(&c.Doc)
		loc := map[int64]bool{}
		c.Doc.eachNode(func(n *Node, _, _ int32) { loc[n.ID] = true })
		ways := map[int64]bool{}
		hit, miss := false, false
		c.Doc.eachWay(func(w *Way) {
			for _, r := range w.Refs {
				if loc[r] {
					ways[w.ID] = true
				} else {
					miss = true
				}
			}
		})
		c.Doc.eachRel(func(r *Rel) {
			for _, m := range r.Mem {
				if m.Type == 1 && ways[m.ID] {
					hit = true
				}
			}
		})
		if hit {
			l = append(l, "member way with located nodes")
		}
		if miss {
			l = append(l, "ref to a missing node")
		}
		if strings.Contains(strings.Join(c.Stages[:], ""), "t") {
			l = append(l, "tagfilter")
		}
		if strings.Contains(strings.Join(c.Stages[:], ""), "d") {
			l = append(l, "decompress")
		}
		return Class{Nontrivial: hit, Labels: l}
	}
	tools19 := []string{"nodeindex", "rewritenodes", "wayindex", "relindex", "tagfilter", "decompress"}
	gen19 := func(o docOpt) func(t *rapid.T) c19Case { return func(t *rapid.T) c19Case { return genC19(t, o) } }
	register(&Property{ID: "C19", Tools: tools19, Arms: []*Arm{
		arm("mixed", 2000, "generated dataset x order and number of decompress/tagfilter stages x workers x memory target x alignment x passes; non-trivial: a relation has a member way with a located node",
			gen19(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, coordFine: true, order: true, maxBlobs: 8, staged: true}), runC19, cls19),
		arm("gaps", 700, "datasets with wide id gaps; non-trivial: as above",
			gen19(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, bigGaps: true, maxBlobs: 12, maxPer: 4, staged: true}), runC19, cls19),
		arm("bulk", 100, "datasets of thousands of entities per block; non-trivial: as above",
			gen19(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, bulk: 2, bulkN: 9000, maxBlobs: 8, staged: true}), runC19, cls19),
		arm("large", 16, "datasets of more than 131072 nodes, so that a memory target of 1 MB needs several passes; non-trivial: as above",
			func(t *rapid.T) c19Case {
				c := genC19(t, docOpt{kinds: kWay | kRel, bulk: 1, bulkN: 5000, maxBlobs: 5, staged: true})
				nb := Doc{Blobs: []Blob{headerBlob(t)}}
				first := int64(1)
				for i := rapid.IntRange(8, 20).Draw(t, "nodeblocks"); i > 0; i-- {
					b := Bulk{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), N: 20000, First: first, Mode: rapid.SampledFrom([]int{0, 1, 3, 4}).Draw(t, "mode")}
					first += int64(b.N)*6*60/10 + rapid.Int64Range(1, 5).Draw(t, "gap")
					g := Group{Kind: kNode, Bulk: &b}
					nb.Blobs = append(nb.Blobs, Blob{Type: "OSMData", Level: -1, Block: &Block{Groups: []Group{g}}})
				}
				// refer to nodes of the whole range
				for i := range c.Doc.Blobs {
					if b := c.Doc.Blobs[i].Block; b != nil {
						for j := range b.Groups {
							if bk := b.Groups[j].Bulk; bk != nil && b.Groups[j].Kind == kWay {
								bk.Lo, bk.Hi = 1, first
							}
						}
					}
				}
				nb.Blobs = append(nb.Blobs, c.Doc.Blobs...)
				c.Doc = nb
				return c
			}, runC19, cls19),
	}})

	cls24 := func(c c24Case) Class {
		l := []string{c.Tool, fmt.Sprintf("old=%d", c.Old)}
		if len(c.Stale) > 0 {
			l = append(l, "stale files")
		}
		return Class{Nontrivial: c.Old > 0 || len(c.Stale) > 0, Labels: l}
	}
	gen24 := func(o docOpt, big bool) func(t *rapid.T) c24Case {
		return func(t *rapid.T) c24Case {
			c := c24Case{c15Case: genC15(t, tools19, o, big)}
			c.Faults = nil
			c.Old = rapid.IntRange(0, 4).Draw(t, "old")
			c.Stale = rapid.SliceOfN(rapid.IntRange(0, 9999), 0, 8).Draw(t, "stale")
			c.Rel = oneIn(t, 4, "rel")
			c.Same = oneIn(t, 3, "same")
			c.Name = rapid.SampledFrom([]string{"out", "out.pbf", "a b", "x.idx", "o%d", "a.osm.pbf", ".hidden", "out.pass_000_001"}).Draw(t, "name")
			return c
		}
	}
	register(&Property{ID: "C24", Tools: append([]string{"blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex"}, tools19...), Arms: []*Arm{
		arm("small", 1500, "writing tool x generated input x earlier content of the output x stale temporary and pass files x absolute or relative path x output beside the inputs or elsewhere; non-trivial: something was there before",
			gen24(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, maxPer: 6, maxBlobs: 5}, false), runC24, cls24),
		arm("large", 60, "the same with thousands of entities and several passes; non-trivial: something was there before",
			gen24(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, bulk: 1, bulkN: 30000, maxBlobs: 5}, true), runC24, cls24),
		arm("together", 250, "two to four runs of writing tools at the same time, outputs in one directory, some with the same input; non-trivial: all",
			genC24Two(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, bulk: 1, bulkN: 4000, maxBlobs: 4}, false), runC24Two, func(c c24Two) Class {
				return Class{true, []string{c.Runs[0].Tool, fmt.Sprintf("same=%v", c.Same)}}
			}),
		arm("together-large", 20, "the same with several passes; non-trivial: all",
			genC24Two(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, bulk: 1, bulkN: 20000, maxBlobs: 4}, true), runC24Two, func(c c24Two) Class {
				return Class{true, []string{c.Runs[0].Tool, fmt.Sprintf("same=%v", c.Same)}}
			}),
		arm("readonly", 250, "every tool, without the privilege to ignore permissions, with inputs (also behind symbolic links) that can only be read, in directories that can't be written; non-trivial: a data block",
			func(t *rapid.T) c24ROCase {
				c := c24ROCase{c15Case: genC15(t, append([]string{"blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex"}, tools19...), docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, maxPer: 6, maxBlobs: 5}, false)}
				c.Faults = nil
				c.Link, c.Old, c.NoDir = rapid.Bool().Draw(t, "link"), rapid.Bool().Draw(t, "old"), rapid.Bool().Draw(t, "nodir")
				return c
			}, runC24RO, func(c c24ROCase) Class {
				_, _, _, b := c.Doc.kinds()
				return Class{Nontrivial: b > 0, Labels: []string{c.Tool}}
			}),
		arm("readers", 300, "the tools that only print, on generated files and indexes; non-trivial: a data block",
			func(t *rapid.T) c24ReadCase {
				return c24ReadCase{genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true}), genWorkers(t)}
			}, runC24Read, func(c c24ReadCase) Class {
				_, _, _, b := c.Doc.kinds()
				return Class{Nontrivial: b > 0, Labels: docLabels(&c.Doc)}
			}),
	}})
}
