package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"

	"pgregory.net/rapid"
)

// C04, C05: node rewriting.  C07, C08: relation index.

// ---- a node index over arbitrary ids, written by the harness ---------------------------------

type mapIdx struct {
	Seed  uint64
	Drop  int     // one document node in Drop is left out of the index (0: none)
	Refs  int     // one unknown ref in Refs is in the index all the same (0: none)
	Extra []int64 `json:",omitempty"`
	Fill  bool    `json:",omitempty"` // a gap of one id is filled with location 0
	Split int     `json:",omitempty"` // ranges hold at most this many ids (0: no limit)
}

func genMapIdx(t *rapid.T) mapIdx {
	return mapIdx{Seed: uint64(rapid.IntRange(0, 1000).Draw(t, "ixseed")), Drop: rapid.SampledFrom([]int{0, 0, 3, 2, 1}).Draw(t, "drop"),
		Refs: rapid.SampledFrom([]int{0, 2, 1}).Draw(t, "ixrefs"), Extra: rapid.SliceOfN(rapid.Int64Range(1, 60), 0, 6).Draw(t, "extra"),
		Fill: rapid.Bool().Draw(t, "fill"), Split: rapid.SampledFrom([]int{0, 0, 1, 2, 7}).Draw(t, "split")}
}

func pseudoLoc(v uint64) int64 {
	v = splitmix(v)
	w := splitmix(v)
	return encLoc(int32(int64(v%3600000001)-1800000000), int32(int64(w%1800000001)-900000000))
}

// locs gives the id to location map for a document.
func (m *mapIdx) locs(d *Doc) map[int64]int64 {
	out := map[int64]int64{}
	put := func(id int64) { out[id] = pseudoLoc(uint64(id) ^ m.Seed*0x10001) }
	known := map[int64]bool{}
	d.eachNode(func(n *Node, lon, lat int32) {
		known[n.ID] = true
		if m.Drop == 0 || splitmix(uint64(n.ID)+m.Seed)%uint64(m.Drop) != 0 {
			put(n.ID)
		}
	})
	if m.Refs > 0 {
		d.eachWay(func(w *Way) {
			for _, r := range w.Refs {
				if r > 0 && !known[r] && splitmix(uint64(r)+m.Seed)%uint64(m.Refs) == 0 {
					put(r)
				}
			}
		})
	}
	for _, x := range m.Extra {
		put(x)
	}
	return out
}

func writeMapIdx(path string, locs map[int64]int64, fill bool, split int) error {
	ids := make([]int64, 0, len(locs))
	for id := range locs {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var el []nodeElem
	var data []int64
	for _, id := range ids {
		n := len(el)
		if n > 0 && (split == 0 || int(el[n-1].Count) < split) && el[n-1].Count < 1<<23 {
			next := int64(el[n-1].First + el[n-1].Count)
			if id == next+1 && fill {
				data = append(data, 0)
				el[n-1].Count++
				next++
			}
			if id == next {
				data = append(data, locs[id])
				el[n-1].Count++
				continue
			}
		}
		el = append(el, nodeElem{uint64(id), 1, uint64(len(data))})
		data = append(data, locs[id])
	}
	b := binary.LittleEndian.AppendUint64(nil, 1)
	b = binary.LittleEndian.AppendUint64(b, uint64(len(el)))
	for _, x := range el {
		b = binary.LittleEndian.AppendUint64(b, x.First)
		b = binary.LittleEndian.AppendUint64(b, x.Off<<24|x.Count)
	}
	for _, l := range data {
		b = binary.LittleEndian.AppendUint64(b, uint64(l))
	}
	return os.WriteFile(path, b, 0o644)
}

// ---- C04 -------------------------------------------------------------------------------------

type c04Case struct {
	Doc     Doc
	Idx     mapIdx
	Workers int
	Timing  float64 `json:",omitempty"`
}

// compareRewrite checks a rewritten file against the original.
func compareRewrite(in, out []byte, lookup func(int64) (int64, bool)) error {
	a, err := decodeFile(in)
	if err != nil {
		return fmt.Errorf("harness: input: %v", err)
	}
	b, err := decodeFile(out)
	if err != nil {
		return violf("the output is not a valid PBF: %v", err)
	}
	if len(a) != len(b) {
		return violf("%d blocks became %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Type != b[i].Type {
			return violf("block %d: type %q became %q", i, a[i].Type, b[i].Type)
		}
		if a[i].Type != "OSMData" {
			if d := diffBytes(a[i].Bytes, b[i].Bytes); d != "" {
				return violf("header block %d changed: %s", i, d)
			}
			continue
		}
		x, err := decodeBlock(a[i].Payload)
		if err != nil {
			return fmt.Errorf("harness: input block: %v", err)
		}
		nw := 0
		for _, g := range x.Groups {
			nw += len(g.Ways)
		}
		if nw == 0 {
			if d := diffBytes(a[i].Bytes, b[i].Bytes); d != "" {
				return violf("block %d has no ways but was not copied: %s", i, d)
			}
			continue
		}
		y, err := decodeBlock(b[i].Payload)
		if err != nil {
			return violf("output block %d does not decode: %v", i, err)
		}
		if err := eqBlock(x, y, lookup); err != nil {
			return violf("block %d: %v", i, err)
		}
	}
	return nil
}

// eqBlock: y is x with way refs mapped.
func eqBlock(x, y *DBlock, lookup func(int64) (int64, bool)) error {
	if len(x.Strings) != len(y.Strings) {
		return fmt.Errorf("string table has %d entries, had %d", len(y.Strings), len(x.Strings))
	}
	for i := range x.Strings {
		if x.Strings[i] != y.Strings[i] {
			return fmt.Errorf("string %d is %q, was %q", i, clipStr(y.Strings[i], 60), clipStr(x.Strings[i], 60))
		}
	}
	if x.Gran != y.Gran || x.DateGran != y.DateGran || x.LatOff != y.LatOff || x.LonOff != y.LonOff {
		return fmt.Errorf("parameters (%d %d %d %d), were (%d %d %d %d)", y.Gran, y.DateGran, y.LatOff, y.LonOff, x.Gran, x.DateGran, x.LatOff, x.LonOff)
	}
	fx, fy := flatten(x), flatten(y)
	if len(fx.order) != len(fy.order) {
		return fmt.Errorf("%d entities, had %d", len(fy.order), len(fx.order))
	}
	for i := range fx.order {
		if fx.order[i] != fy.order[i] {
			return fmt.Errorf("entity %d is %v, was %v", i, fy.order[i], fx.order[i])
		}
	}
	for i := range fx.nodes {
		if !eqNode(&fx.nodes[i], &fy.nodes[i]) {
			return fmt.Errorf("node %d is %+v, was %+v", i, fy.nodes[i], fx.nodes[i])
		}
	}
	for i := range fx.dinfo {
		if fx.dinfo[i] != fy.dinfo[i] {
			return fmt.Errorf("dense info changed")
		}
	}
	for i := range fx.rels {
		if !eqRel(&fx.rels[i], &fy.rels[i]) || fx.rinfo[i] != fy.rinfo[i] {
			return fmt.Errorf("relation %d is %+v, was %+v", i, fy.rels[i], fx.rels[i])
		}
	}
	for i := range fx.ways {
		v, w := &fx.ways[i], &fy.ways[i]
		if !eqTagList(v.Tags, w.Tags) {
			return fmt.Errorf("way %d has tags %v, had %v", v.ID, w.Tags, v.Tags)
		}
		if len(v.Refs) != len(w.Refs) {
			return fmt.Errorf("way %d has %d refs, had %d", v.ID, len(w.Refs), len(v.Refs))
		}
		for j, r := range v.Refs {
			want := r
			if lookup != nil && r > 0 {
				if l, ok := lookup(r); ok {
					want = l
				}
			}
			if w.Refs[j] != want {
				return fmt.Errorf("way %d: ref %d of %d is %d, expected %d (was %d)", v.ID, j, len(v.Refs), w.Refs[j], want, r)
			}
		}
	}
	return nil
}

type flat struct {
	order []struct {
		kind int
		id   int64
	}
	nodes []Node
	ways  []Way
	rels  []Rel
	dinfo []string
	rinfo []string
}

func flatten(b *DBlock) *flat {
	f := &flat{}
	type e = struct {
		kind int
		id   int64
	}
	for _, g := range b.Groups {
		for _, n := range g.Nodes {
			f.order = append(f.order, e{kNode, n.ID})
		}
		for _, n := range g.Ways {
			f.order = append(f.order, e{kWay, n.ID})
		}
		for _, n := range g.Rels {
			f.order = append(f.order, e{kRel, n.ID})
		}
		f.nodes = append(f.nodes, g.Nodes...)
		f.ways = append(f.ways, g.Ways...)
		f.rels = append(f.rels, g.Rels...)
		if len(g.Nodes) > 0 {
			f.dinfo = append(f.dinfo, g.DenseInfo)
		}
		f.rinfo = append(f.rinfo, g.RelInfo...)
	}
	return f
}

func eqTagList(a, b []Tag) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqNode(a, b *Node) bool {
	return a.ID == b.ID && a.Lat == b.Lat && a.Lon == b.Lon && eqTagList(a.Tags, b.Tags)
}

func eqMem(a, b []Member) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func eqRel(a, b *Rel) bool {
	return a.ID == b.ID && eqTagList(a.Tags, b.Tags) && eqMem(a.Mem, b.Mem)
}

func runC04(e *Env, c c04Case) error {
	dir, done := e.dir()
	defer done()
	in, ix, out := join(dir, "in.pbf"), join(dir, "n.idx"), join(dir, "out.pbf")
	locs := c.Idx.locs(&c.Doc)
	data := c.Doc.bytes()
	if err := writeFile(in, data); err != nil {
		return err
	}
	if err := writeMapIdx(ix, locs, c.Idx.Fill, c.Idx.Split); err != nil {
		return err
	}
	a := []string{"-r", "0", "-i", in, "-x", ix, "-o", out, "-w", itoa(c.Workers)}
	if c.Timing > 0 {
		a = append(a, "-t", fmt.Sprint(c.Timing))
	}
	if _, err := e.runOK("rewritenodes", a...); err != nil {
		return err
	}
	got, err := os.ReadFile(out)
	if err != nil {
		return violf("no output: %v", err)
	}
	return compareRewrite(data, got, func(id int64) (int64, bool) { l, ok := locs[id]; return l, ok })
}

// farWays are ways whose consecutive refs are as far apart as encoded locations get.
func genFarDoc(t *rapid.T) Doc {
	d := Doc{Blobs: []Blob{headerBlob(t)}}
	n := rapid.IntRange(1, 6).Draw(t, "nways")
	g := Group{Kind: kWay}
	id := int64(0)
	for i := 0; i < n; i++ {
		id += genIDGap(t, false)
		k := rapid.SampledFrom([]int{0, 1, 2, 127, 128, 1637, 1638, 1639, 1820, 1821, 2000}).Draw(t, "len")
		w := Way{ID: id, Tags: genTags(t, 2)}
		a, b := rapid.Int64Range(1, 40).Draw(t, "a"), rapid.Int64Range(1, 40).Draw(t, "b")
		for j := 0; j < k; j++ {
			if j%2 == 0 {
				w.Refs = append(w.Refs, a+int64(j%7))
			} else {
				w.Refs = append(w.Refs, b)
			}
		}
		g.Ways = append(g.Ways, w)
	}
	d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: genLevel(t), Block: &Block{Groups: []Group{g}}})
	return d
}

func init() {
	cls := func(c c04Case) Class {
		_, w, _, _ := c.Doc.kinds()
		l := docLabels(&c.Doc)
		if c.Timing > 0 {
			l = append(l, "timing")
		}
		return Class{Nontrivial: w >= 1, Labels: l}
	}
	gen := func(o docOpt) func(t *rapid.T) c04Case {
		return func(t *rapid.T) c04Case {
			c := c04Case{Doc: genDoc(t, o), Idx: genMapIdx(t), Workers: genWorkers(t)}
			if oneIn(t, 12, "timing") {
				c.Timing = rapid.SampledFrom([]float64{2, 1.5, 1.1, 1.01}).Draw(t, "factor")
			}
			return c
		}
	}
	register(&Property{ID: "C04", Tools: []string{"rewritenodes"}, Arms: []*Arm{
		arm("mixed", 5000, "generated PBF x node index x workers; non-trivial: at least one way",
			gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, coordFine: true, order: true, negRefs: true, anyWayID: true, relNeg: true, bigGaps: true, loose: true}), runC04, cls),
		arm("ways", 4000, "blocks of nodes and ways; non-trivial: at least one way",
			gen(docOpt{kinds: kNode | kWay, maxPer: 10, negRefs: true, bigGaps: true, staged: true}), runC04, cls),
		arm("bulk", 300, "thousands of nodes and ways per block; non-trivial: at least one way",
			gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, bulk: 1, bulkN: 9000, negRefs: true, maxBlobs: 4, staged: true}), runC04, cls),
		arm("long", 1000, "ways of up to 2000 refs whose locations are far apart; non-trivial: at least one way",
			func(t *rapid.T) c04Case {
				c := c04Case{Doc: genFarDoc(t), Idx: genMapIdx(t), Workers: genWorkers(t)}
				c.Idx.Refs = rapid.SampledFrom([]int{1, 2, 0}).Draw(t, "ixrefs")
				return c
			}, runC04, cls),
		arm("vast", 16, "ways of 16384 to 100000 refs; non-trivial: at least one way",
			func(t *rapid.T) c04Case {
				c := c04Case{Doc: genVast(t, kWay|kRel, true), Idx: genMapIdx(t), Workers: genWorkers(t)}
				c.Idx.Refs = rapid.SampledFrom([]int{1, 2, 0}).Draw(t, "ixrefs")
				return c
			}, runC04, cls),
	}})
}

// ---- C05 -------------------------------------------------------------------------------------

type c05Case struct {
	Idx     synIdx
	Picks   []c05Pick // refs
	PerWay  int
	PerBlk  int
	Extra   Doc // further blocks
	Mem     []int
	Workers int
}

// a ref: the Pos-th id (scaled, in 1/1000) of element El, shifted by D; El < 0: the negative or unknown id D
type c05Pick struct {
	El, Pos int
	D       int64
}

func (c *c05Case) refs() []int64 {
	es := c.Idx.elems()
	var out []int64
	for _, p := range c.Picks {
		if p.El < 0 || len(es) == 0 {
			r := p.D
			if r == 0 {
				r = 1
			}
			if r < 0 {
				r = pseudoLoc(uint64(-r))
			}
			out = append(out, r)
			continue
		}
		x := es[p.El%len(es)]
		r := int64(x.First) + int64(x.Count-1)*int64(p.Pos)/1000 + p.D
		if r < 1 {
			r = 1
		}
		out = append(out, r)
	}
	return out
}

func (c *c05Case) doc() Doc {
	d := Doc{Blobs: []Blob{{Type: "OSMHeader", Level: 6, Head: "\x22\x0eOsmSchema-V0.6"}}}
	refs := c.refs()
	g := Group{Kind: kWay}
	id := int64(0)
	flush := func() {
		if len(g.Ways) > 0 {
			d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: 6, Block: &Block{Groups: []Group{g}}})
			g = Group{Kind: kWay}
		}
	}
	per := c.PerWay
	if per < 1 {
		per = 1
	}
	for len(refs) > 0 {
		n := per
		if n > len(refs) {
			n = len(refs)
		}
		id++
		g.Ways = append(g.Ways, Way{ID: id, Refs: refs[:n]})
		refs = refs[n:]
		if len(g.Ways) >= c.PerBlk {
			flush()
		}
	}
	flush()
	d.Blobs = append(d.Blobs, c.Extra.Blobs...)
	return d
}

func runC05(e *Env, c c05Case) error {
	dir, done := e.dir()
	defer done()
	d := c.doc()
	only := map[int64]bool{}
	d.eachWay(func(w *Way) {
		for _, r := range w.Refs {
			if r > 0 {
				only[r] = true
			}
		}
	})
	ix, in := join(dir, "n.idx"), join(dir, "in.pbf")
	if err := c.Idx.write(ix, only); err != nil {
		return err
	}
	data := d.bytes()
	if err := writeFile(in, data); err != nil {
		return err
	}
	one := join(dir, "one.pbf")
	if err := e.rewritenodes(in, ix, one, c.Workers, 0); err != nil {
		return err
	}
	ref, err := os.ReadFile(one)
	if err != nil {
		return violf("no output: %v", err)
	}
	if err := compareRewrite(data, ref, c.Idx.lookup); err != nil {
		return err
	}
	for _, m := range c.Mem {
		od := join(dir, fmt.Sprintf("o%d", m))
		if err := os.MkdirAll(od, 0o755); err != nil {
			return err
		}
		out := join(od, "out.pbf")
		if err := e.rewritenodes(in, ix, out, c.Workers, m); err != nil {
			return err
		}
		got, err := os.ReadFile(out)
		if err != nil {
			return violf("-m %d: no output: %v", m, err)
		}
		if s := diffBytes(ref, got); s != "" {
			if err := compareRewrite(data, got, c.Idx.lookup); err != nil {
				return violf("-m %d (index of %d locations): output differs from the single pass: %s; %v", m, c.Idx.total(), s, err)
			}
			return violf("-m %d (index of %d locations): output differs from the single pass: %s", m, c.Idx.total(), s)
		}
		if err := onlyFiles(od, "out.pbf"); err != nil {
			return violf("-m %d: %v", m, err)
		}
	}
	return nil
}

func genPicks(t *rapid.T, max int, nel int) []c05Pick {
	return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) c05Pick {
		p := c05Pick{El: rapid.IntRange(0, nel).Draw(t, "el"), Pos: rapid.SampledFrom([]int{0, 1000, 500, 1, 999, 250, 333}).Draw(t, "pos"),
			D: rapid.SampledFrom([]int64{0, 0, 0, 0, 1, -1, 2}).Draw(t, "d")}
		if oneIn(t, 8, "other") {
			p.El, p.D = -1, rapid.SampledFrom([]int64{-1, -2, 1, 2, 1 << 40, 1<<62 + 3}).Draw(t, "od")
		}
		return p
	}), 1, max).Draw(t, "picks")
}

func init() {
	gen := func(maxEl int) func(t *rapid.T) c05Case {
		return func(t *rapid.T) c05Case {
			el := rapid.Custom(func(t *rapid.T) synElem {
				x := synElem{Gap: genIDGap(t, true)}
				switch wpick(t, "count", 4, 3, 3, 2, 1) {
				case 0:
					x.Count = rapid.Int64Range(1, 300).Draw(t, "cnt")
				case 1:
					x.Count = rapid.Int64Range(10000, 140000).Draw(t, "cnt")
				case 2:
					x.Count = 131072 * rapid.Int64Range(1, 3).Draw(t, "cnt")
				case 3:
					x.Count = 131072 + rapid.Int64Range(-2, 2).Draw(t, "cnt")
				default:
					x.Count = rapid.SampledFrom([]int64{1 << 20, 3000000}).Draw(t, "cnt")
				}
				return x
			})
			c := c05Case{Idx: synIdx{Elems: rapid.SliceOfN(el, 1, maxEl).Draw(t, "elems")}, Workers: genWorkers(t)}
			if oneIn(t, 12, "empty") { // an index without locations
				c.Idx.Elems = nil
			}
			c.Picks = genPicks(t, 40, len(c.Idx.Elems))
			c.PerWay, c.PerBlk = rapid.IntRange(1, 9).Draw(t, "perway"), rapid.IntRange(1, 5).Draw(t, "perblk")
			mib := int(c.Idx.total()*8/(1<<20)) + 1
			c.Mem = []int{1}
			if mib > 1 {
				for i := 0; i < 2; i++ {
					c.Mem = append(c.Mem, rapid.IntRange(1, mib+1).Draw(t, "mem"))
				}
			}
			if oneIn(t, 3, "more") {
				c.Extra = genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, maxBlobs: 3, order: true, noHeader: true})
			}
			return c
		}
	}
	cls := func(c c05Case) Class {
		l := []string{}
		n := c.Idx.total() * 8
		if n > 1<<20 {
			l = append(l, "two passes or more")
		}
		if n > 8<<20 {
			l = append(l, "nine passes or more")
		}
		if n == 0 {
			l = append(l, "no location")
		} else if n%(1<<20) == 0 {
			l = append(l, "exact multiple")
		}
		return Class{Nontrivial: n > 1<<20 && len(c.Picks) > 1, Labels: l}
	}
	register(&Property{ID: "C05", Tools: []string{"rewritenodes"}, Arms: []*Arm{
		arm("few", 1500, "sparse node index of 1 to 60 MiB x ways referring to range starts, ends and neighbours x memory targets x workers; non-trivial: more than 1 MiB and two refs", gen(4), runC05, cls),
		arm("many", 300, "as few with up to 30 ranges", gen(30), runC05, cls),
		arm("tail", 400, "many small ranges beside one that holds nearly everything", func(t *rapid.T) c05Case {
			c := gen(6)(t)
			if len(c.Idx.Elems) == 0 {
				c.Idx.Elems = []synElem{{}}
			}
			for i := range c.Idx.Elems {
				c.Idx.Elems[i].Count = rapid.Int64Range(1, 5).Draw(t, "small")
			}
			i := rapid.IntRange(0, len(c.Idx.Elems)-1).Draw(t, "lump")
			c.Idx.Elems[i].Count = rapid.Int64Range(130000, 400000).Draw(t, "big")
			c.Mem = []int{1, 2}
			return c
		}, runC05, cls),
		arm("runs", 200, "a node index of thousands of short ranges x ways whose refs jump all over it or stay close together; non-trivial: more than 1 MiB and two refs", func(t *rapid.T) c05Case {
			c := gen(2)(t)
			for i := range c.Idx.Elems {
				c.Idx.Elems[i].Count = rapid.Int64Range(1, 90000).Draw(t, "cnt")
			}
			c.Idx.More = rapid.IntRange(3400, 12000).Draw(t, "more")
			c.Idx.Seed = uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))
			n := len(c.Idx.Elems) + c.Idx.More
			mib := int(c.Idx.total()*8/(1<<20)) + 1
			c.Mem = []int{1, rapid.IntRange(1, mib).Draw(t, "mem")}
			c.Picks = nil
			r := &rng{uint64(rapid.IntRange(0, 1<<30).Draw(t, "picks"))}
			for i, k := 0, rapid.IntRange(2, 40).Draw(t, "clusters"); i < k; i++ {
				at, wide := int(r.n(int64(n))), []int{1, 3, 200, 2000}[r.n(4)]
				if r.n(4) == 0 { // the ends of the index
					at = []int{0, n - wide}[r.n(2)]
				}
				for j, m := 0, int(r.n(12)); j <= m; j++ {
					x := at + int(r.n(int64(wide)))
					if x < 0 {
						x = 0
					}
					c.Picks = append(c.Picks, c05Pick{El: x, Pos: []int{0, 1000, 500}[r.n(3)], D: []int64{0, 0, 0, 1, -1}[r.n(5)]})
				}
			}
			c.PerBlk = rapid.IntRange(1, 12).Draw(t, "perblk")
			return c
		}, runC05, cls),
	}})
}

// ---- C07 / C08 -------------------------------------------------------------------------------

type relCase struct {
	Doc     Doc
	Ways    []Way // the way index
	Long    int   `json:",omitempty"` // > 0: every way of the index has this many generated refs
	Align   int
	Passes  []int
	Workers int
}

func (c *relCase) ways() []Way {
	if c.Long == 0 {
		return c.Ways
	}
	var out []Way
	for _, w := range c.Ways {
		r := &rng{uint64(w.ID)}
		x := Way{ID: w.ID}
		for i := 0; i < c.Long; i++ {
			x.Refs = append(x.Refs, encLoc(int32(r.n(3600000001)-1800000000), int32(r.n(1800000001)-900000000)))
		}
		x.Refs = collapse(x.Refs)
		out = append(out, x)
	}
	return out
}

func runRel(e *Env, c relCase, passes []int) error {
	dir, done := e.dir()
	defer done()
	in, wx := join(dir, "in.pbf"), join(dir, "w.idx")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	ways := c.ways()
	if err := writeSynWay(wx, ways, c.Align, 0); err != nil {
		return err
	}
	m := map[int64][]int64{}
	for _, w := range ways {
		m[w.ID] = w.Refs
	}
	var ref []byte
	for i, p := range passes {
		od := join(dir, fmt.Sprintf("p%d", i))
		if err := os.MkdirAll(od, 0o755); err != nil {
			return err
		}
		out := join(od, "r.idx")
		if err := e.relindex(in, wx, out, c.Workers, p); err != nil {
			return err
		}
		got, err := os.ReadFile(out)
		if err != nil {
			return violf("-p %d: no output: %v", p, err)
		}
		if i == 0 {
			ref = got
			r, err := readRelIdx(out)
			if err != nil {
				return violf("-p %d: %v", p, err)
			}
			if err := compareRel(r, expectRel(&c.Doc, m)); err != nil {
				return err
			}
		} else if s := diffBytes(ref, got); s != "" {
			return violf("-p %d and -p %d write different indexes: %s", passes[0], p, s)
		}
		if len(passes) > 1 {
			if err := onlyFiles(od, "r.idx"); err != nil {
				return violf("-p %d: %v", p, err)
			}
		}
	}
	return nil
}

func genRelCase(o docOpt) func(t *rapid.T) relCase {
	return func(t *rapid.T) relCase {
		d, g := genDocState(t, o)
		c := relCase{Doc: d, Align: genAlign(t), Workers: genWorkers(t)}
		// way index: some of the members, some others
		want := map[int64]bool{}
		for _, id := range g.wayIDs {
			want[id] = true
		}
		c.Doc.eachRel(func(r *Rel) {
			for _, m := range r.Mem {
				if m.Type == 1 && m.ID < 1<<31 {
					want[m.ID] = true
				}
			}
		})
		for _, x := range []int64{1, 2, 3, 1000, 1<<31 - 1} {
			want[x] = true
		}
		ids := make([]int64, 0, len(want))
		for id := range want {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		drop := rapid.SampledFrom([]int{0, 0, 4, 2, 1}).Draw(t, "dropways")
		ds := uint64(rapid.IntRange(0, 100).Draw(t, "dropseed"))
		if len(ids) > 60 {
			c.Long = rapid.SampledFrom([]int{1, 2, 30}).Draw(t, "long")
		}
		refs := &docGen{t: t, o: docOpt{negRefs: true}}
		for _, id := range ids {
			if drop > 0 && splitmix(uint64(id)^ds)%uint64(drop) == 0 {
				continue
			}
			w := Way{ID: id}
			if c.Long == 0 {
				w.Refs = collapse(refs.refs())
			}
			c.Ways = append(c.Ways, w)
		}
		return c
	}
}

func genVastRel(t *rapid.T) relCase {
	c := relCase{Doc: genVast(t, kRel, false), Align: genAlign(t), Workers: genWorkers(t), Long: rapid.IntRange(1, 3).Draw(t, "long")}
	nw := int64(40)
	if oneIn(t, 2, "vastways") { // few members instead, of many locations
		c.Long, nw = rapid.SampledFrom([]int{16384, 32767, 32768, 40000, 65535, 65536, 70000}).Draw(t, "vlong"), 6
		for i := range c.Doc.Blobs {
			if b := c.Doc.Blobs[i].Block; b != nil {
				for k := range b.Groups {
					b.Groups[k].Bulk.Len, b.Groups[k].Bulk.Hi = rapid.IntRange(1, 6).Draw(t, "vmem"), 8
				}
			}
		}
	}
	for i := int64(1); i < nw; i++ {
		c.Ways = append(c.Ways, Way{ID: i})
	}
	return c
}

func init() {
	cls := func(c relCase) Class {
		_, _, r, _ := c.Doc.kinds()
		l := docLabels(&c.Doc)
		mw := 0
		c.Doc.eachRel(func(r *Rel) {
			for _, m := range r.Mem {
				if m.Type == 1 {
					mw++
				}
			}
		})
		if mw > 0 {
			l = append(l, "member ways")
		}
		if len(c.Ways) == 0 {
			l = append(l, "empty way index")
		}
		return Class{Nontrivial: r >= 1 && mw >= 1, Labels: l}
	}
	rule := "generated PBF x way index x workers; non-trivial: a relation with a member way"
	register(&Property{ID: "C07", Tools: []string{"relindex"}, Arms: []*Arm{
		arm("mixed", 4000, rule, genRelCase(docOpt{kinds: kNode | kWay | kRel, order: true, loose: true}),
			func(e *Env, c relCase) error { return runRel(e, c, []int{1}) }, cls),
		arm("rels", 4000, rule, genRelCase(docOpt{kinds: kWay | kRel, maxPer: 8, staged: true, loose: true}),
			func(e *Env, c relCase) error { return runRel(e, c, []int{1}) }, cls),
		arm("bulk", 200, "hundreds of relations per block", genRelCase(docOpt{kinds: kWay | kRel, bulk: 1, bulkN: 9000, maxBlobs: 4, staged: true}),
			func(e *Env, c relCase) error { return runRel(e, c, []int{1}) }, cls),
		arm("vast", 16, "relations of 16384 to 100000 members, or with ways of that many locations", genVastRel, func(e *Env, c relCase) error { return runRel(e, c, []int{1}) }, cls),
		arm("flush", 12, "relations whose locations fill the write buffer (1000000 words) several times", genFlushRel, func(e *Env, c relCase) error { return runRel(e, c, []int{1}) }, cls),
		arm("far", 40, "PBF of more than 2^31 or 2^32 bytes (sparse), or of up to 70000 blocks", func(t *rapid.T) relCase {
			c := genRelCase(docOpt{kinds: kWay | kRel, maxPer: 6, maxBlobs: 6, staged: true})(t)
			c.Doc = makeFar(t, c.Doc)
			return c
		}, func(e *Env, c relCase) error { return runRel(e, c, []int{1}) }, cls),
	}})
	withPasses := func(gen func(t *rapid.T) relCase) func(t *rapid.T) relCase {
		return func(t *rapid.T) relCase {
			c := gen(t)
			c.Passes = []int{1, rapid.IntRange(2, 5).Draw(t, "p")}
			k := len(c.Ways)
			c.Passes = append(c.Passes, rapid.SampledFrom([]int{3, k%40 + 1, (k+1)%40 + 1, 7, 16}).Draw(t, "p2"))
			if oneIn(t, 4, "manyp") {
				c.Passes = append(c.Passes, rapid.IntRange(6, 70).Draw(t, "p3"))
			}
			return c
		}
	}
	run8 := func(e *Env, c relCase) error { return runRel(e, c, c.Passes) }
	register(&Property{ID: "C08", Tools: []string{"relindex"}, Arms: []*Arm{
		arm("mixed", 1500, rule, withPasses(genRelCase(docOpt{kinds: kNode | kWay | kRel, order: true})), run8, cls),
		arm("rels", 2500, rule, withPasses(genRelCase(docOpt{kinds: kWay | kRel, maxPer: 8, staged: true})), run8, cls),
		arm("bulk", 80, "hundreds of relations per block", withPasses(genRelCase(docOpt{kinds: kWay | kRel, bulk: 1, bulkN: 9000, maxBlobs: 4, staged: true})), run8, cls),
		arm("vast", 16, "relations of 16384 to 100000 members, or with ways of that many locations", withPasses(genVastRel), run8, cls),
		arm("flush", 24, "relations whose locations fill the write buffer (1000000 words) several times", genFlushRel, run8, cls),
	}})
}

func genFlushRel(t *rapid.T) relCase {
	c := relCase{Align: genAlign(t), Workers: genWorkers(t), Long: rapid.IntRange(1500, 2000).Draw(t, "long")}
	nw := rapid.IntRange(3, 60).Draw(t, "nw")
	for i := 1; i <= nw; i++ {
		c.Ways = append(c.Ways, Way{ID: int64(i)})
	}
	nb := rapid.IntRange(1, 3).Draw(t, "nb")
	d := Doc{Blobs: []Blob{headerBlob(t)}}
	id := int64(1)
	for i := 0; i < nb; i++ {
		g := Group{Kind: kRel, Bulk: &Bulk{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), N: rapid.IntRange(1, 60).Draw(t, "n"), First: id,
			Mode: rapid.IntRange(0, 1).Draw(t, "mode"), Len: rapid.IntRange(1, 40).Draw(t, "len"), Lo: 1, Hi: int64(nw) + 3}}
		id += 1000
		d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: 1, Block: &Block{Groups: []Group{g}}})
	}
	c.Doc = d
	c.Passes = []int{1, rapid.IntRange(2, 4).Draw(t, "p")}
	return c
}
