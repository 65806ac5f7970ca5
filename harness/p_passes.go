package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// C28: several passes share the location data evenly; C29: status lines and statistics are true.

type c28Case struct {
	Idx     synIdx
	Ways    []Way
	Align   int
	Passes  int
	Mem     int
	Workers int
}

func runC28Node(e *Env, c c28Case) error {
	dir, done := e.dir()
	defer done()
	f := join(dir, "x.idx")
	if err := c.Idx.write(f, nil); err != nil {
		return err
	}
	es := c.Idx.elems()
	req := idxReq{Kind: "node", File: f, Passes: c.Passes}
	max := int64(0)
	for p := 0; p < c.Passes; p++ {
		for _, x := range es {
			req.Queries = append(req.Queries, idxQuery{p, int64(x.First), -2})
			max = maxI(max, int64(x.Count))
		}
	}
	var resp idxResp
	if err := e.call("index", req, &resp); err != nil {
		return apiErr(err, "node sub-index")
	}
	total := c.Idx.total()
	lim := total/int64(c.Passes) + max + int64(c.Passes)
	for p := 0; p < c.Passes; p++ {
		n := int64(0)
		for i, x := range es {
			if resp.Ans[p*len(es)+i].Found {
				n += int64(x.Count)
			}
		}
		if n > lim {
			return violf("pass %d of %d covers %d of the %d locations; an even share and one range of at most %d allow %d", p, c.Passes, n, total, max, lim)
		}
	}
	return nil
}

func runC28Way(e *Env, c c28Case) error {
	dir, done := e.dir()
	defer done()
	f := join(dir, "w.idx")
	if err := writeSynWay(f, c.Ways, c.Align, 0); err != nil {
		return err
	}
	al := int64(1) << c.Align
	var size []int64
	total, max := int64(0), int64(0)
	for _, w := range c.Ways {
		n := (int64(len(encZero(w.Refs))) + al - 1) / al * al
		size = append(size, n)
		total += n
		max = maxI(max, n)
	}
	req := idxReq{Kind: "way", File: f, Passes: c.Passes}
	for p := 0; p < c.Passes; p++ {
		for _, w := range c.Ways {
			req.Queries = append(req.Queries, idxQuery{p, w.ID, -2})
		}
	}
	var resp idxResp
	if err := e.call("index", req, &resp); err != nil {
		return apiErr(err, "way sub-index")
	}
	lim := total/int64(c.Passes) + max + int64(c.Passes)
	for p := 0; p < c.Passes; p++ {
		n := int64(0)
		for i := range c.Ways {
			if resp.Ans[p*len(c.Ways)+i].Found {
				n += size[i]
			}
		}
		if n > lim {
			return violf("pass %d of %d covers %d of the %d bytes of location data; an even share and one way of at most %d allow %d", p, c.Passes, n, total, max, lim)
		}
	}
	return nil
}

var passLine = regexp.MustCompile(`(?m)^Pass \d+ run time: `)

// runC28Tool: rewritenodes -m.  The pass files exist before the run under further names, so that their
// content survives: they tell which ranges each pass resolved.
func runC28Tool(e *Env, c c28Case) error {
	dir, done := e.dir()
	defer done()
	es := c.Idx.elems()
	only := map[int64]bool{}
	d := Doc{Blobs: []Blob{{Type: "OSMHeader", Level: 6, Head: "x"}}}
	max := int64(0)
	g := Group{Kind: kWay}
	for i, x := range es {
		only[int64(x.First)] = true
		max = maxI(max, int64(x.Count))
		g.Ways = append(g.Ways, Way{ID: int64(i + 1), Refs: []int64{int64(x.First)}})
	}
	d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: 6, Block: &Block{Groups: []Group{g}}})
	in, ix, od, keep := join(dir, "in.pbf"), join(dir, "n.idx"), join(dir, "out"), join(dir, "keep")
	if err := d.write(in); err != nil {
		return err
	}
	if err := c.Idx.write(ix, only); err != nil {
		return err
	}
	for _, x := range []string{od, keep} {
		if err := os.Mkdir(x, 0o755); err != nil {
			return err
		}
	}
	total, target := c.Idx.total(), int64(c.Mem)*131072
	exp := int(total/target) + 1
	out := join(od, "o.pbf")
	name := func(k, n int) string { return fmt.Sprintf("o.pbf.pass_%03d_%03d", k, n) }
	for n := maxI(2, int64(exp-1)); n <= int64(exp+1); n++ {
		for k := 1; k < int(n); k++ {
			p := join(od, name(k, int(n)))
			if err := writeFile(p, nil); err != nil {
				return err
			}
			if err := os.Link(p, join(keep, name(k, int(n)))); err != nil {
				return err
			}
		}
	}
	r, err := e.runOK("rewritenodes", "-i", in, "-x", ix, "-o", out, "-w", itoa(c.Workers), "-m", itoa(c.Mem), "-r", "0")
	if err != nil {
		return err
	}
	passes := len(passLine.FindAllString(r.Stdout, -1))
	if passes < 1 {
		return violf("rewritenodes -m %d reports no pass: %q", c.Mem, r.Stdout)
	}
	lim := target + max + int64(passes)
	if total > int64(passes)*lim {
		return violf("rewritenodes -m %d reads %d locations in %d passes: more than %d MiB and one range of %d at a time", c.Mem, total, passes, c.Mem, max)
	}
	if passes > exp+1 {
		return violf("rewritenodes -m %d reads %d locations (%d bytes) in %d passes, %d would do", c.Mem, total, total*8, passes, exp)
	}
	// which pass resolved what
	prev := map[int64]bool{}
	for k := 1; k <= passes; k++ {
		p := out
		if k < passes {
			p = join(keep, name(k, passes))
		}
		b, err := os.ReadFile(p)
		if err != nil || len(b) == 0 {
			return nil // it keeps its pass files elsewhere
		}
		f, err := flatFile(b)
		if err != nil {
			return violf("rewritenodes -m %d: the file after pass %d of %d is not a valid PBF: %v", c.Mem, k, passes, err)
		}
		n := int64(0)
		for _, w := range f.ways {
			if len(w.Refs) == 1 && w.Refs[0] < 0 && !prev[w.ID] && w.ID >= 1 && w.ID <= int64(len(es)) {
				prev[w.ID] = true
				n += int64(es[w.ID-1].Count)
			}
		}
		if n > lim {
			return violf("rewritenodes -m %d: pass %d of %d uses %d locations; %d MiB are %d, and one range holds at most %d", c.Mem, k, passes, n, c.Mem, target, max)
		}
	}
	return nil
}

// ---- C29 -------------------------------------------------------------------------------------

type c29Case struct {
	Doc     Doc
	Idx     mapIdx
	Tool    string
	Workers int
	Steps   []string
}

type statusBlock struct {
	Index    uint64
	Off, Len int
}

type statusReq struct {
	Tool, File, Index, Out string
	Workers                int
	Blocks                 []statusBlock
	Steps                  []string
	Writer                 []string
}

type statusAns struct {
	Snaps []struct {
		Rows    []string
		Writer  string
		Pending []uint64
		Written int
		Left    int
	}
}

var sendRow = regexp.MustCompile(`sending block (\d+)(?:, (\d+) kept, (\d+) dropped)?$`)

func runC29Status(e *Env, c c29Case) error {
	dir, done := e.dir()
	defer done()
	q := statusReq{Tool: c.Tool, File: join(dir, "in.pbf"), Index: join(dir, "n.idx"), Out: join(dir, "out"), Workers: c.Workers, Steps: c.Steps}
	var file []byte
	kept, dropped := map[uint64]int{}, map[uint64]int{}
	fill := 0
	writer := func() string {
		if c.Tool == "tagfilter" {
			return fmt.Sprintf("waiting for block, dropped %d/", fill)
		}
		return "waiting for block"
	}
	q.Writer = []string{writer()}
	for i := range c.Doc.Blobs {
		x := &c.Doc.Blobs[i]
		b := x.bytes()
		blob := putFields(nil, x.blobFields(x.payload()))
		file = append(file, b...)
		if x.Type != "OSMData" {
			continue
		}
		q.Blocks = append(q.Blocks, statusBlock{uint64(i), len(file) - len(blob), len(blob)})
		one := (&Doc{Blobs: []Blob{*x}}).flat()
		for _, n := range one.nodes {
			keep := false
			for _, t := range n.Tags {
				keep = keep || !tagDeleted(t.K)
			}
			if keep {
				kept[uint64(i)]++
			} else {
				dropped[uint64(i)]++
			}
		}
		if kept[uint64(i)] == 0 && len(one.ways) == 0 && len(one.rels) == 0 {
			fill++
		}
		q.Writer = append(q.Writer, writer())
	}
	if err := writeFile(q.File, file); err != nil {
		return err
	}
	if err := writeMapIdx(q.Index, c.Idx.locs(&c.Doc), false, 3); err != nil {
		return err
	}
	var a statusAns
	if err := e.call("status", q, &a); err != nil {
		return apiErr(err, c.Tool+" fed block by block")
	}
	sums := map[int][2]int{}
	seen := map[uint64]bool{}
	for i, s := range a.Snaps {
		desc := fmt.Sprintf("%s with %d workers, blocks %v in their hands, %d written: the display shows %q and %q", c.Tool, c.Workers, s.Pending, s.Written, s.Rows, s.Writer)
		if !strings.Contains(s.Writer, q.Writer[s.Written]) {
			return violf("%s; expected of the writer: %q", desc, q.Writer[s.Written])
		}
		if i == len(a.Snaps)-1 {
			if len(s.Rows) != 0 {
				return violf("%s, though all workers have finished", desc)
			}
			break
		}
		if len(s.Rows) != c.Workers {
			return violf("%s", desc)
		}
		var sending []uint64
		for r, row := range s.Rows {
			m := sendRow.FindStringSubmatch(row)
			if m == nil {
				if !strings.Contains(row, "waiting for block") {
					return violf("%s: row %q, though every worker is either sending or waiting", desc, row)
				}
				continue
			}
			b, _ := strconv.ParseUint(m[1], 10, 64)
			sending = append(sending, b)
			if c.Tool != "tagfilter" {
				continue
			}
			if !seen[b] {
				seen[b] = true
				v := sums[r]
				sums[r] = [2]int{v[0] + kept[b], v[1] + dropped[b]}
			}
			if m[2] != itoa(sums[r][0]) || m[3] != itoa(sums[r][1]) {
				return violf("%s: worker %d kept %d nodes and dropped %d so far", desc, r, sums[r][0], sums[r][1])
			}
		}
		sort.Slice(sending, func(i, j int) bool { return sending[i] < sending[j] })
		if fmt.Sprint(sending) != fmt.Sprint(s.Pending) {
			return violf("%s", desc)
		}
	}
	return nil
}

var statLine = regexp.MustCompile(`(?m)^(hitHint|hitDefault|missDefault|missDeferred):\s+(\d+)$`)
var timeLine = regexp.MustCompile(`(?m)^time: .* = (\d+)$`)

// checkStats: lookups of ids the index covers are hits, exactly one each; the others miss in each pass.
func checkStats(tool, stdout string, hits, absent, passes int64) error {
	v := map[string]int64{}
	for _, m := range statLine.FindAllStringSubmatch(stdout, -1) {
		n, err := strconv.ParseInt(m[2], 10, 64)
		if err != nil {
			return err
		}
		v[m[1]] = n
	}
	if len(v) != 4 {
		return violf("%s prints no lookup statistics: %q", tool, stdout)
	}
	if h := v["hitHint"] + v["hitDefault"]; h != hits {
		return violf("%s: %d + %d hits are reported, %d looked up ids are in the index (%d are not, %d passes)", tool, v["hitHint"], v["hitDefault"], hits, absent, passes)
	}
	m := v["missDefault"] + v["missDeferred"]
	if m < absent*passes || m > absent*passes+hits*(passes-1) {
		return violf("%s: %d + %d misses are reported; %d looked up ids are in the index, %d are not, %d passes", tool, v["missDefault"], v["missDeferred"], hits, absent, passes)
	}
	n := int64(0)
	for _, x := range timeLine.FindAllStringSubmatch(stdout, -1) {
		k, _ := strconv.ParseInt(x[1], 10, 64)
		n += k
	}
	if n > hits+m {
		return violf("%s: %d lookups are timed, %d were made", tool, n, hits+m)
	}
	return nil
}

func runC29Rewrite(e *Env, c c05Case) error {
	dir, done := e.dir()
	defer done()
	d := c.doc()
	only := map[int64]bool{}
	var hits, absent int64
	es := c.Idx.elems()
	d.eachWay(func(w *Way) {
		for _, r := range w.Refs {
			if r <= 0 {
				continue
			}
			only[r] = true
			i := sort.Search(len(es), func(i int) bool { return es[i].First+es[i].Count > uint64(r) })
			if i < len(es) && es[i].First <= uint64(r) {
				hits++
			} else {
				absent++
			}
		}
	})
	ix, in := join(dir, "n.idx"), join(dir, "in.pbf")
	if err := c.Idx.write(ix, only); err != nil {
		return err
	}
	if err := d.write(in); err != nil {
		return err
	}
	for _, m := range append([]int{0}, c.Mem...) {
		a := []string{"-i", in, "-x", ix, "-o", join(dir, fmt.Sprintf("o%d.pbf", m)), "-w", itoa(c.Workers), "-r", "0"}
		if m > 0 {
			a = append(a, "-m", itoa(m))
		}
		if c.PerWay%3 == 0 {
			a = append(a, "-t", "1.5")
		}
		r, err := e.runOK("rewritenodes", a...)
		if err != nil {
			return err
		}
		passes := int64(len(passLine.FindAllString(r.Stdout, -1)))
		if err := checkStats(fmt.Sprintf("rewritenodes -m %d", m), r.Stdout, hits, absent, maxI(1, passes)); err != nil {
			return err
		}
	}
	return nil
}

type c29BusyCase struct {
	Nodes, Blocks, Ways, Refs, Stride, Hole, Work int
}

func runC29Busy(e *Env, c c29BusyCase) error {
	dir, done := e.dir()
	defer done()
	loc := map[int64]int64{}
	for i := 1; i <= c.Nodes; i++ {
		if c.Hole == 0 || i%c.Hole != 0 {
			loc[int64(i)] = encLoc(int32(i), int32(i))
		}
	}
	ix, in := join(dir, "n.idx"), join(dir, "in.pbf")
	if err := writeMapIdx(ix, loc, false, c.Stride%3); err != nil {
		return err
	}
	d := Doc{Blobs: []Blob{{Type: "OSMHeader", Level: -1, Head: "x"}}}
	var hits, absent int64
	g := Group{Kind: kWay}
	for i := 0; i < c.Ways; i++ {
		w := Way{ID: int64(i + 1)}
		for j := 0; j < c.Refs; j++ {
			r := int64((i*31+j*c.Stride)%(c.Nodes+c.Nodes/4+1) + 1)
			w.Refs = append(w.Refs, r)
			if _, ok := loc[r]; ok {
				hits++
			} else {
				absent++
			}
		}
		g.Ways = append(g.Ways, w)
	}
	d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: -1, Rep: c.Blocks, Block: &Block{Groups: []Group{g}}})
	if err := d.write(in); err != nil {
		return err
	}
	n := int64(d.nblobs() - 1)
	r, err := e.runOK("rewritenodes", "-i", in, "-x", ix, "-o", join(dir, "o.pbf"), "-w", itoa(c.Work), "-r", "0")
	if err != nil {
		return err
	}
	return checkStats("rewritenodes", r.Stdout, hits*n, absent*n, 1)
}

func runC29Rel(e *Env, c relCase) error {
	dir, done := e.dir()
	defer done()
	in, wx := join(dir, "in.pbf"), join(dir, "w.idx")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	ways := c.ways()
	if err := writeSynWay(wx, ways, c.Align, 0); err != nil {
		return err
	}
	have := map[int64]bool{}
	for _, w := range ways {
		have[w.ID] = true
	}
	var hits, absent int64
	c.Doc.eachRel(func(r *Rel) {
		for _, m := range r.Mem {
			if m.Type == 1 && have[m.ID] {
				hits++
			} else if m.Type == 1 {
				absent++
			}
		}
	})
	for _, p := range c.Passes {
		r, err := e.runOK("relindex", "-i", in, "-x", wx, "-o", join(dir, "r.idx"), "-w", itoa(c.Workers), "-p", itoa(p), "-r", "0")
		if err != nil {
			return err
		}
		if err := checkStats(fmt.Sprintf("relindex -p %d", p), r.Stdout, hits, absent, int64(p)); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	genNode := func(max int) func(t *rapid.T) c28Case {
		return func(t *rapid.T) c28Case {
			c := c28Case{Idx: genSynIdx(t, max, oneIn(t, 4, "lumps"))}
			n := rapid.SampledFrom([]int{3, 10, 30}).Draw(t, "maxpasses")
			c.Passes = rapid.IntRange(1, n).Draw(t, "passes")
			if !oneIn(t, 3, "uneven") { // many ranges of similar size
				k := int64(rapid.IntRange(1, 40).Draw(t, "size"))
				for i := range c.Idx.Elems {
					c.Idx.Elems[i].Count = k + int64(i%3)
				}
			}
			return c
		}
	}
	// a pass that took everything would be seen
	cls28 := func(c c28Case) Class {
		es := c.Idx.elems()
		total, max := int64(0), int64(0)
		for _, x := range es {
			total += int64(x.Count)
			max = maxI(max, int64(x.Count))
		}
		for _, w := range c.Ways {
			al := int64(1) << c.Align
			n := (int64(len(encZero(w.Refs))) + al - 1) / al * al
			total += n
			max = maxI(max, n)
		}
		p := int64(c.Passes)
		if c.Mem > 0 {
			p = total/(int64(c.Mem)*131072) + 1
		}
		return Class{p > 1 && total > total/p+max+p, nil}
	}
	rule := "; non-trivial: a pass that covered everything would exceed its share"
	register(&Property{ID: "C28", Tools: []string{"rewritenodes"}, Drivers: []string{"index"}, Arms: []*Arm{
		arm("node", 3000, "node indexes (even and lopsided ranges) x number of passes"+rule, genNode(120), runC28Node, cls28),
		arm("way", 2000, "way indexes x alignment x number of passes"+rule, func(t *rapid.T) c28Case {
			return c28Case{Ways: genSynWays(t, 120), Align: rapid.IntRange(0, 8).Draw(t, "align"), Passes: rapid.IntRange(1, 20).Draw(t, "passes")}
		}, runC28Way, cls28),
		arm("tool", 300, "rewritenodes -m on sparse node indexes of 1 to 100 MiB, with the ranges each pass resolved read from its pass files"+rule, func(t *rapid.T) c28Case {
			el := rapid.Custom(func(t *rapid.T) synElem {
				x := synElem{Gap: genIDGap(t, true)}
				switch wpick(t, "count", 2, 4, 3, 2) {
				case 0:
					x.Count = rapid.Int64Range(1, 300).Draw(t, "cnt")
				case 1:
					x.Count = rapid.Int64Range(20000, 140000).Draw(t, "cnt")
				case 2:
					x.Count = 131072 * rapid.Int64Range(1, 3).Draw(t, "cnt")
				default:
					x.Count = rapid.Int64Range(200000, 1000000).Draw(t, "cnt")
				}
				return x
			})
			c := c28Case{Idx: synIdx{Elems: rapid.SliceOfN(el, 2, 40).Draw(t, "elems")}, Workers: genWorkers(t)}
			huge := oneIn(t, 8, "huge")
			if huge { // more than 4 GiB of locations
				for i := range c.Idx.Elems {
					c.Idx.Elems[i].Count = 1<<24 - 1 - c.Idx.Elems[i].Count%1000
				}
				for i := 0; len(c.Idx.Elems) < 36; i++ {
					c.Idx.Elems = append(c.Idx.Elems, c.Idx.Elems[i])
				}
			}
			mib := int(c.Idx.total() / 131072)
			c.Mem = rapid.IntRange(1, mib/4+1).Draw(t, "mem")
			if oneIn(t, 8, "muchmem") { // one pass; limits of 32 bits
				c.Mem = rapid.SampledFrom([]int{mib + 1, 2048, 4095, 4096, 4097, 8192, 8193, 65537, 1 << 22, 1<<22 + 1, 1<<32 + 1, 1 << 40, 1 << 43, 1 << 44, 1<<44 + 1, 1 << 45}).Draw(t, "memv")
			}
			if c.Mem < mib/50 { // not too many passes
				c.Mem = mib / 50
			}
			return c
		}, runC28Tool, cls28),
	}})

	genPicked := func(t *rapid.T) c05Case {
		el := rapid.Custom(func(t *rapid.T) synElem {
			return synElem{Gap: genIDGap(t, true), Count: rapid.SampledFrom([]int64{1, 2, 7, 300, 60000, 131072, 200000}).Draw(t, "cnt"), Hole: rapid.SampledFrom([]int{0, 2}).Draw(t, "hole")}
		})
		c := c05Case{Idx: synIdx{Elems: rapid.SliceOfN(el, 1, 12).Draw(t, "elems")}, Workers: genWorkers(t)}
		c.Picks = genPicks(t, 60, len(c.Idx.Elems))
		c.PerWay, c.PerBlk = rapid.IntRange(1, 9).Draw(t, "perway"), rapid.IntRange(1, 5).Draw(t, "perblk")
		if oneIn(t, 2, "mem") {
			c.Mem = []int{rapid.IntRange(1, 3).Draw(t, "memv")}
		}
		return c
	}
	register(&Property{ID: "C29", Tools: []string{"rewritenodes", "relindex"}, Drivers: []string{"status"}, Arms: []*Arm{
		arm("status", 1500, "workers and writer of each tool fed block by block x workers x order of feeding and taking, with the display's lines at every rest; non-trivial: two data blocks and a worker kept waiting",
			func(t *rapid.T) c29Case {
				c := c29Case{Doc: genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, maxPer: 6, maxBlobs: 10, coordFine: true}), Idx: mapIdx{Seed: uint64(rapid.IntRange(1, 1000).Draw(t, "seed"))},
					Tool:    rapid.SampledFrom([]string{"tagfilter", "nodeindex", "wayindex", "rewritenodes", "relindex", "decompress", "tagfilter"}).Draw(t, "tool"),
					Workers: rapid.IntRange(1, 5).Draw(t, "workers")}
				c.Steps = rapid.SliceOfN(rapid.SampledFrom([]string{"push", "push", "push", "take", "take"}), 1, 30).Draw(t, "steps")
				return c
			}, runC29Status, func(c c29Case) Class {
				_, _, _, b := c.Doc.kinds()
				push := 0
				for _, s := range c.Steps {
					if s == "push" {
						push++
					}
				}
				return Class{b >= 2 && push >= 2, []string{c.Tool}}
			}),
		arm("busy", 24, "the same with many blocks of thousands of refs for 2 to 8 workers at once; non-trivial: all", func(t *rapid.T) c29BusyCase {
			return c29BusyCase{
				Nodes:  rapid.IntRange(1, 3000).Draw(t, "nodes"),
				Blocks: rapid.IntRange(10, 60).Draw(t, "blocks"),
				Ways:   rapid.IntRange(5, 60).Draw(t, "ways"),
				Refs:   rapid.IntRange(200, 2000).Draw(t, "refs"),
				Stride: rapid.IntRange(1, 700).Draw(t, "stride"),
				Hole:   rapid.SampledFrom([]int{0, 0, 2, 7}).Draw(t, "hole"),
				Work:   rapid.IntRange(2, 8).Draw(t, "workers"),
			}
		}, runC29Busy, func(c29BusyCase) Class { return Class{true, nil} }),
		arm("rewrite", 600, "rewritenodes with refs inside (also at deleted nodes), beside and far from the ranges of the index x memory targets x workers x timing: printed statistics; non-trivial: two refs",
			genPicked, runC29Rewrite, func(c c05Case) Class { return Class{len(c.Picks) >= 2, nil} }),
		arm("rel", 800, "relindex on generated PBF and way indexes x passes: printed statistics; non-trivial: a relation with a member way", func(t *rapid.T) relCase {
			c := genRelCase(docOpt{kinds: kWay | kRel, maxPer: 8, staged: true})(t)
			c.Passes = []int{1, rapid.IntRange(2, 6).Draw(t, "p")}
			return c
		}, runC29Rel, func(c relCase) Class {
			mw := false
			c.Doc.eachRel(func(r *Rel) {
				for _, m := range r.Mem {
					mw = mw || m.Type == 1
				}
			})
			return Class{mw, nil}
		}),
	}})
}
