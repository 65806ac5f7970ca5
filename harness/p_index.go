package main

import (
	"encoding/binary"
	"os"
	"sort"

	"pgregory.net/rapid"
)

// C01, C02, C03, C06: node and way indexes.

// ---- driver protocol -------------------------------------------------------------------------

type idxQuery struct {
	Pass int
	ID   int64
	Hint int // >= 0: use it; -1: 0; -2: the hint returned by the previous query of that pass; < -2: element count * k / 8
}

type idxReq struct {
	Kind    string // node, way
	File    string
	Passes  int
	Timing  float64
	Queries []idxQuery
}

type idxAns struct {
	Loc   int64
	Locs  []int64
	Found bool
	Hint  int
}

type idxResp struct {
	Ans   []idxAns
	Count uint64
}

// ---- C01 -------------------------------------------------------------------------------------

type docCase struct {
	Doc     Doc
	Workers int
	Align   int `json:",omitempty"`
}

func runC01(e *Env, c docCase) error {
	dir, done := e.dir()
	defer done()
	in, out := join(dir, "in.pbf"), join(dir, "out.idx")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	if err := e.nodeindex(in, out, c.Workers); err != nil {
		return err
	}
	ix, err := readNodeIdx(out)
	if err != nil {
		return violf("unreadable node index: %v", err)
	}
	want := map[int64]int64{}
	c.Doc.eachNode(func(n *Node, lon, lat int32) { want[n.ID] = encLoc(lon, lat) })
	got := ix.locations()
	for id, l := range want {
		g, ok := got[id]
		if !ok {
			return violf("node %d is not in the index", id)
		}
		if g != l {
			lo, la := decLoc(g)
			wlo, wla := decLoc(l)
			return violf("node %d has location (%d,%d), expected (%d,%d)", id, lo, la, wlo, wla)
		}
	}
	for id := range got {
		if _, ok := want[id]; !ok {
			return violf("node %d is answered by the index but is not in the file", id)
		}
	}
	// the same through the lookup API
	ids := make([]int64, 0, len(want))
	for id := range want {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var q []idxQuery
	step := len(ids)/400 + 1
	for i := 0; i < len(ids); i += step {
		q = append(q, idxQuery{0, ids[i], -2})
		for _, d := range []int64{-2, -1, 1, 2} {
			if ids[i]+d > 0 {
				q = append(q, idxQuery{0, ids[i] + d, -2})
			}
		}
	}
	for _, x := range []int64{1, 2, 3, 4, 1<<62 + 1, 1 << 33} {
		q = append(q, idxQuery{0, x, -2})
	}
	var resp idxResp
	if err := e.call("index", idxReq{Kind: "node", File: out, Passes: 1, Queries: q}, &resp); err != nil {
		return apiErr(err, "node lookup")
	}
	for i, a := range resp.Ans {
		w, ok := want[q[i].ID]
		if a.Found != ok || (ok && a.Loc != w) {
			return violf("lookup of node %d: found=%v location %d, expected found=%v location %d", q[i].ID, a.Found, a.Loc, ok, w)
		}
	}
	return nil
}

func init() {
	cls := func(c docCase) Class {
		n, _, _, _ := c.Doc.kinds()
		return Class{Nontrivial: n >= 2, Labels: docLabels(&c.Doc)}
	}
	register(&Property{ID: "C01", Tools: []string{"nodeindex"}, Drivers: []string{"index"}, Arms: []*Arm{
		arm("content", 1500, "generated PBF (ids, gaps, blocks, groups, granularity, offsets, compression, workers); non-trivial: at least two nodes",
			func(t *rapid.T) docCase {
				return docCase{Doc: genDoc(t, docOpt{kinds: kNode | kWay | kRel, maxPer: 8, coordFine: true, order: true, bigGaps: true}), Workers: genWorkers(t)}
			}, runC01, cls),
		arm("dense", 700, "node-only PBF with small gaps and many blocks; non-trivial: at least two nodes",
			func(t *rapid.T) docCase {
				return docCase{Doc: genDoc(t, docOpt{kinds: kNode, maxPer: 10, maxBlobs: 8, coordFine: true}), Workers: genWorkers(t)}
			}, runC01, cls),
		arm("bulk", 100, "PBF with blocks of thousands of nodes; non-trivial: at least two nodes",
			func(t *rapid.T) docCase {
				return docCase{Doc: genDoc(t, docOpt{kinds: kNode | kWay, maxPer: 4, bulk: 1, bulkN: 9000, coordFine: true}), Workers: genWorkers(t)}
			}, runC01, cls),
		arm("far", 40, "PBF of more than 2^31 or 2^32 bytes (sparse), or of up to 70000 blocks; non-trivial: at least two nodes",
			func(t *rapid.T) docCase {
				return docCase{Doc: makeFar(t, genDoc(t, docOpt{kinds: kNode | kWay, maxPer: 6, maxBlobs: 6, coordFine: true})), Workers: genWorkers(t)}
			}, runC01, cls),
		arm("huge", 16, "PBF whose location data exceeds the copy buffer (131072 locations); non-trivial: at least two nodes",
			func(t *rapid.T) docCase {
				d := Doc{Blobs: []Blob{headerBlob(t)}}
				id := rapid.Int64Range(1, 3).Draw(t, "first")
				nb := rapid.IntRange(1, 5).Draw(t, "nb")
				for i := 0; i < nb; i++ {
					g := Group{Kind: kNode, Bulk: &Bulk{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), N: rapid.IntRange(30000, 70000).Draw(t, "n"), First: id, Mode: rapid.IntRange(0, 4).Draw(t, "mode")}}
					ns := g.nodes()
					id = ns[len(ns)-1].ID + rapid.Int64Range(1, 4).Draw(t, "gap")
					d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: rapid.SampledFrom([]int{-1, 1}).Draw(t, "lvl"), Block: &Block{Groups: []Group{g}}})
				}
				return docCase{Doc: d, Workers: genWorkers(t)}
			}, runC01, cls),
	}})
}

// ---- synthetic node index --------------------------------------------------------------------

type synElem struct {
	Gap   int64 // distance of the first id from the last id of the element before (>= 1)
	Count int64
	Hole  int // one location in Hole is 0 (0: none), first and last kept
}

type synIdx struct {
	Elems []synElem
	Far   int64  `json:",omitempty"` // offset of the first element (locations before it exist but are unused)
	More  int    `json:",omitempty"` // so many further elements, of 1 to 80 ids, after these
	Seed  uint64 `json:",omitempty"`

	all []nodeElem
}

// elems gives first id, count, offset.
func (s *synIdx) elems() []nodeElem {
	if s.all != nil {
		return s.all
	}
	id, off := int64(0), s.Far
	var out []nodeElem
	elems := s.Elems
	if s.More > 0 {
		elems = append([]synElem(nil), elems...)
		r := &rng{s.Seed}
		for i := 0; i < s.More; i++ {
			elems = append(elems, synElem{Gap: 2 + int64(r.n(9)), Count: 1 + int64(r.n(80))})
		}
	}
	for _, x := range elems {
		id += x.Gap
		out = append(out, nodeElem{uint64(id), uint64(x.Count), uint64(off)})
		id += x.Count - 1
		off += x.Count
	}
	if s.More > 0 {
		s.all = out
	}
	return out
}

func (s *synIdx) total() int64 {
	n := s.Far
	for _, e := range s.elems() {
		n += int64(e.Count)
	}
	return n
}

// loc is the location stored for the j-th id of element i.
func (s *synIdx) loc(i int, el nodeElem, j uint64) int64 {
	h := 0
	if i < len(s.Elems) {
		h = s.Elems[i].Hole
	}
	if h > 0 && j != 0 && j != el.Count-1 && splitmix(el.First+j)%uint64(h) == 0 {
		return 0
	}
	v := splitmix(el.First + j*7919)
	return encLoc(int32(v%3600000001-1800000000), int32((v>>20)%1800000001-900000000))
}

func (s *synIdx) lookup(id int64) (int64, bool) {
	es := s.elems()
	i := sort.Search(len(es), func(i int) bool { return es[i].First+es[i].Count > uint64(id) })
	if i < len(es) && es[i].First <= uint64(id) {
		l := s.loc(i, es[i], uint64(id)-es[i].First)
		return l, l != 0
	}
	return 0, false
}

// write stores the index; with sparse only the given ids' locations are stored (the rest read 0).
func (s *synIdx) write(path string, only map[int64]bool) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	es := s.elems()
	w := []uint64{1, uint64(len(es))}
	for _, x := range es {
		w = append(w, x.First, x.Off<<24|x.Count)
	}
	b := make([]byte, 0, len(w)*8)
	for _, x := range w {
		b = binary.LittleEndian.AppendUint64(b, x)
	}
	if _, err := f.Write(b); err != nil {
		return err
	}
	base := int64(len(b))
	if only != nil {
		if err := f.Truncate(base + 8*s.total()); err != nil {
			return err
		}
		for i, x := range es {
			for id := range only {
				if uint64(id) >= x.First && uint64(id) < x.First+x.Count {
					var v [8]byte
					binary.LittleEndian.PutUint64(v[:], uint64(s.loc(i, x, uint64(id)-x.First)))
					if _, err := f.WriteAt(v[:], base+8*int64(x.Off+uint64(id)-x.First)); err != nil {
						return err
					}
				}
			}
		}
		return nil
	}
	if s.Far > 0 {
		if _, err := f.Write(make([]byte, 8*s.Far)); err != nil {
			return err
		}
	}
	for i, x := range es {
		b = b[:0]
		for j := uint64(0); j < x.Count; j++ {
			b = binary.LittleEndian.AppendUint64(b, uint64(s.loc(i, x, j)))
		}
		if _, err := f.Write(b); err != nil {
			return err
		}
	}
	return nil
}

func genSynIdx(t *rapid.T, maxElems int, big bool) synIdx {
	el := rapid.Custom(func(t *rapid.T) synElem {
		x := synElem{Gap: genIDGap(t, true), Hole: rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(t, "hole")}
		switch wpick(t, "count", 5, 4, 2) {
		case 0:
			x.Count = 1
		case 1:
			x.Count = rapid.Int64Range(2, 9).Draw(t, "cnt")
		default:
			x.Count = rapid.Int64Range(10, 300).Draw(t, "cnt")
		}
		return x
	})
	s := synIdx{Elems: rapid.SliceOfN(el, 0, maxElems).Draw(t, "elems")}
	if big && len(s.Elems) > 0 && oneIn(t, 3, "lump") {
		// one element holds most of the locations
		i := rapid.IntRange(0, len(s.Elems)-1).Draw(t, "which")
		s.Elems[i].Count = rapid.Int64Range(1000, 20000).Draw(t, "lumpn")
	}
	return s
}

// ---- C02 -------------------------------------------------------------------------------------

type c02Case struct {
	Idx    synIdx
	Passes int
	Timing bool `json:",omitempty"`
	Probes []int64
	Order  []int // history: indexes into the id list, in lookup order
	Hints  []int
}

func (c *c02Case) ids() []int64 {
	var ids []int64
	seen := map[int64]bool{}
	add := func(x int64) {
		if x > 0 && !seen[x] {
			seen[x] = true
			ids = append(ids, x)
		}
	}
	for _, x := range c.Idx.elems() {
		f, n := int64(x.First), int64(x.Count)
		add(f - 1)
		if n <= 64 {
			for j := int64(0); j < n; j++ {
				add(f + j)
			}
		} else {
			for _, j := range []int64{0, 1, 2, n / 3, n / 2, n - 3, n - 2, n - 1} {
				add(f + j)
			}
		}
		add(f + n)
	}
	for _, p := range c.Probes {
		add(p)
	}
	return ids
}

func runC02(e *Env, c c02Case) error {
	dir, done := e.dir()
	defer done()
	f := join(dir, "x.idx")
	var only map[int64]bool
	ids := c.ids()
	if c.Idx.total() > 1<<22 {
		only = map[int64]bool{}
		for _, i := range ids {
			only[i] = true
		}
	}
	if err := c.Idx.write(f, only); err != nil {
		return err
	}
	req := idxReq{Kind: "node", File: f, Passes: c.Passes}
	if c.Timing {
		req.Timing = []float64{1.01, 1.1, 2}[len(c.Order)%3]
	}
	// ascending sweep of all ids in each pass with the carried hint, then the generated history
	passes := c.Passes
	for p := 0; p < passes; p++ {
		for i, id := range ids {
			h := -2
			if len(c.Hints) > 0 {
				h = c.Hints[i%len(c.Hints)]
			}
			req.Queries = append(req.Queries, idxQuery{p, id, h})
		}
	}
	for i, o := range c.Order {
		if len(ids) == 0 {
			break
		}
		h := -2
		if len(c.Hints) > 0 {
			h = c.Hints[i%len(c.Hints)]
		}
		req.Queries = append(req.Queries, idxQuery{o % passes, ids[(o*31+i)%len(ids)], h})
	}
	var resp idxResp
	if err := e.call("index", req, &resp); err != nil {
		return apiErr(err, "node sub-index")
	}
	foundIn := map[int64]int{}
	where := map[int64]int{}
	for i, a := range resp.Ans {
		q := req.Queries[i]
		l, ok := c.Idx.lookup(q.ID)
		if a.Found && (!ok || a.Loc != l) {
			return violf("pass %d of %d: id %d (hint %d) answered %d, expected found=%v %d", q.Pass, passes, q.ID, q.Hint, a.Loc, ok, l)
		}
		if i < passes*len(ids) {
			if a.Found {
				foundIn[q.ID]++
				where[q.ID] = q.Pass
			}
		} else if p, ok := where[q.ID]; a.Found != (ok && p == q.Pass) {
			return violf("pass %d of %d: id %d with hint %d: found=%v, but found=%v with another hint", q.Pass, passes, q.ID, q.Hint, a.Found, !a.Found)
		}
	}
	for _, id := range ids {
		_, ok := c.Idx.lookup(id)
		n := foundIn[id]
		if ok && n != 1 {
			return violf("id %d is found in %d of %d passes", id, n, passes)
		}
	}
	return nil
}

func init() {
	gen := func(max, maxPass int) func(t *rapid.T) c02Case {
		return func(t *rapid.T) c02Case {
			c := c02Case{Idx: genSynIdx(t, max, true)}
			switch wpick(t, "passes", 4, 2, 2) {
			case 0:
				c.Passes = rapid.IntRange(1, maxPass).Draw(t, "p")
			case 1:
				c.Passes = len(c.Idx.Elems) + rapid.IntRange(0, 2).Draw(t, "p")
			default:
				c.Passes = int(c.Idx.total()%97) + rapid.IntRange(0, 3).Draw(t, "p")
			}
			if c.Passes < 1 {
				c.Passes = 1
			}
			if c.Passes > 60 {
				c.Passes = 60
			}
			c.Probes = rapid.SliceOfN(rapid.Int64Range(1, 1<<42), 0, 4).Draw(t, "probes")
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 0, 40).Draw(t, "order")
			c.Hints = rapid.SliceOfN(rapid.SampledFrom([]int{-2, -2, -1, -3, -4, -5, -6, -7, -8, -9, -10, -11}), 0, 6).Draw(t, "hints")
			c.Timing = oneIn(t, 10, "timing")
			return c
		}
	}
	cls := func(c c02Case) Class {
		l := []string{}
		n := c.Idx.total()
		if n == 0 {
			l = append(l, "empty index")
		}
		if int64(c.Passes) > n {
			l = append(l, "more passes than locations")
		}
		if c.Passes > 1 && n%int64(c.Passes) != 0 {
			l = append(l, "remainder")
		}
		if n > 1<<32 {
			l = append(l, "offset beyond 2^32")
		}
		return Class{Nontrivial: len(c.Idx.Elems) >= 2 && c.Passes >= 2, Labels: l}
	}
	rule := "generated index contents x pass count x lookup history x hints; non-trivial: at least two elements and two passes"
	register(&Property{ID: "C02", Tools: []string{"dumpnodeindex"}, Drivers: []string{"index"}, Arms: []*Arm{
		arm("api", 6000, rule, gen(12, 9), runC02, cls),
		arm("many", 300, rule, gen(150, 40), runC02, cls),
		arm("far", 24, "sparse index file of more than 2^32 locations; "+rule, func(t *rapid.T) c02Case {
			c := c02Case{Passes: rapid.IntRange(1, 12).Draw(t, "p")}
			n := rapid.IntRange(257, 300).Draw(t, "n")
			mode := rapid.IntRange(0, 2).Draw(t, "mode")
			for i := 0; i < n; i++ {
				x := synElem{Gap: 2, Count: 1<<24 - 1}
				if mode == 1 && i%7 == 3 {
					x.Count = int64(i)
				}
				if mode == 2 {
					x.Gap = int64(i) + 1
				}
				c.Idx.Elems = append(c.Idx.Elems, x)
			}
			c.Order = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 0, 40).Draw(t, "order")
			return c
		}, runC02, cls),
		arm("cli", 400, rule+" (through dumpnodeindex sub-indexes)", func(t *rapid.T) c02Case {
			c := gen(10, 5)(t)
			if c.Passes > 8 {
				c.Passes = 8
			}
			return c
		}, runC02CLI, cls),
	}})
}

// runC02CLI: the sub-indexes printed by dumpnodeindex, concatenated, are the whole index.
func runC02CLI(e *Env, c c02Case) error {
	dir, done := e.dir()
	defer done()
	f := join(dir, "x.idx")
	if err := c.Idx.write(f, nil); err != nil {
		return err
	}
	whole, err := e.runOK("dumpnodeindex", "-i", f, "-p", "-s")
	if err != nil {
		return err
	}
	all := ""
	for p := 0; p < c.Passes; p++ {
		r, err := e.runOK("dumpnodeindex", "-i", f, "-p", "-s", "--sub-index-index", itoa(p), "--sub-index-count", itoa(c.Passes))
		if err != nil {
			return err
		}
		all += r.Stdout
	}
	if all != whole.Stdout {
		return violf("the %d sub-indexes together print something else than the whole index: %s", c.Passes, diffBytes([]byte(all), []byte(whole.Stdout)))
	}
	return nil
}

// ---- C03 -------------------------------------------------------------------------------------

func runC03(e *Env, c docCase) error {
	dir, done := e.dir()
	defer done()
	in := join(dir, "in.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	nix, wix, rix := join(dir, "n"), join(dir, "w"), join(dir, "r")
	if err := e.nodeindex(in, nix, c.Workers); err != nil {
		return err
	}
	n, err := readNodeIdx(nix)
	if err != nil {
		return violf("node index: %v", err)
	}
	if err := n.check(); err != nil {
		return violf("node index: %v", err)
	}
	locs := n.locations()
	nn := 0
	c.Doc.eachNode(func(x *Node, lon, lat int32) {
		nn++
		if locs[x.ID] != encLoc(lon, lat) && err == nil {
			err = violf("node index: node %d decodes to %d, expected %d", x.ID, locs[x.ID], encLoc(lon, lat))
		}
	})
	if err != nil {
		return err
	}
	if nn != len(locs) {
		return violf("node index holds %d locations for %d nodes", len(locs), nn)
	}
	if err := e.wayindex(in, wix, c.Workers, c.Align); err != nil {
		return err
	}
	w, err := readWayIdx(wix)
	if err != nil {
		return violf("way index: %v", err)
	}
	if w.Shift != c.Align {
		return violf("way index: alignment shift %d, expected %d", w.Shift, c.Align)
	}
	if err := w.check(); err != nil {
		return violf("way index: %v", err)
	}
	i := 0
	c.Doc.eachWay(func(x *Way) {
		if err != nil {
			return
		}
		if i >= len(w.Elems) {
			err = violf("way index: %d elements, way %d missing", len(w.Elems), x.ID)
			return
		}
		if w.Elems[i].ID != x.ID || !eqI64(w.Elems[i].Loc, collapse(x.Refs)) {
			err = violf("way index: element %d is way %d with %s, expected way %d with %s", i, w.Elems[i].ID, showI64(w.Elems[i].Loc), x.ID, showI64(collapse(x.Refs)))
		}
		i++
	})
	if err == nil && i != len(w.Elems) {
		err = violf("way index: %d elements for %d ways", len(w.Elems), i)
	}
	if err != nil {
		return err
	}
	if err := e.relindex(in, wix, rix, c.Workers, 1); err != nil {
		return err
	}
	r, err := readRelIdx(rix)
	if err != nil {
		return violf("relation index: %v", err)
	}
	return compareRel(r, expectRel(&c.Doc, wayMap(w)))
}

func wayMap(w *wayIdx) map[int64][]int64 {
	m := map[int64][]int64{}
	for _, x := range w.Elems {
		m[x.ID] = x.Loc
	}
	return m
}

func expectRel(d *Doc, ways map[int64][]int64) []relEnt {
	var out []relEnt
	d.eachRel(func(r *Rel) {
		x := relEnt{ID: r.ID}
		for _, m := range r.Mem {
			if m.Type == 1 {
				x.Ways = append(x.Ways, relWay{m.ID, ways[m.ID]})
			}
		}
		out = append(out, x)
	})
	return out
}

func compareRel(got, want []relEnt) error {
	for i := range want {
		if i >= len(got) {
			return violf("relation index ends after %d of %d relations", len(got), len(want))
		}
		g, w := got[i], want[i]
		if g.ID != w.ID {
			return violf("relation %d of the index is %d, expected %d", i, g.ID, w.ID)
		}
		if len(g.Ways) != len(w.Ways) {
			return violf("relation %d has %d ways, expected %d", g.ID, len(g.Ways), len(w.Ways))
		}
		for j := range w.Ways {
			if g.Ways[j].ID != w.Ways[j].ID || !eqI64(g.Ways[j].Loc, w.Ways[j].Loc) {
				return violf("relation %d way %d: got way %d with %s, expected way %d with %s", g.ID, j, g.Ways[j].ID, showI64(g.Ways[j].Loc), w.Ways[j].ID, showI64(w.Ways[j].Loc))
			}
		}
	}
	if len(got) != len(want) {
		return violf("relation index holds %d relations, expected %d", len(got), len(want))
	}
	return nil
}

func genAlign(t *rapid.T) int {
	return rapid.SampledFrom([]int{3, 0, 1, 2, 4, 5, 8, 12}).Draw(t, "align")
}

func init() {
	cls := func(c docCase) Class {
		n, w, r, _ := c.Doc.kinds()
		return Class{Nontrivial: n+w+r >= 3, Labels: docLabels(&c.Doc)}
	}
	register(&Property{ID: "C03", Tools: []string{"nodeindex", "wayindex", "relindex"}, Arms: []*Arm{
		arm("layout", 700, "generated PBF x alignment x workers; non-trivial: at least three entities", func(t *rapid.T) docCase {
			return docCase{Doc: genDoc(t, docOpt{kinds: kNode | kWay | kRel, coordFine: true, order: true, negRefs: true, bigGaps: true}), Workers: genWorkers(t), Align: genAlign(t)}
		}, runC03, cls),
		arm("bulk", 60, "as layout with thousands of entities per block", func(t *rapid.T) docCase {
			return docCase{Doc: genDoc(t, docOpt{kinds: kNode | kWay | kRel, bulk: 1, bulkN: 9000, negRefs: true, maxBlobs: 4}), Workers: genWorkers(t), Align: genAlign(t)}
		}, runC03, cls),
	}})
}

// ---- C06 -------------------------------------------------------------------------------------

type c06Case struct {
	Doc     Doc
	Workers int
	Align   int
	Passes  int
	Order   []int
	Hints   []int
}

func runC06(e *Env, c c06Case) error {
	dir, done := e.dir()
	defer done()
	in, out := join(dir, "in.pbf"), join(dir, "w.idx")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	if err := e.wayindex(in, out, c.Workers, c.Align); err != nil {
		return err
	}
	ix, err := readWayIdx(out)
	if err != nil {
		return violf("way index: %v", err)
	}
	want := map[int64][]int64{}
	var ids []int64
	c.Doc.eachWay(func(w *Way) {
		want[w.ID] = collapse(w.Refs)
		ids = append(ids, w.ID)
	})
	if len(ix.Elems) != len(want) {
		return violf("way index has %d elements for %d ways", len(ix.Elems), len(want))
	}
	for _, x := range ix.Elems {
		w, ok := want[x.ID]
		if !ok || !eqI64(w, x.Loc) {
			return violf("way %d is stored with %s, expected %s", x.ID, showI64(x.Loc), showI64(w))
		}
	}
	step := len(ids)/60 + 1
	var probe []int64
	seen := map[int64]bool{}
	for i := 0; i < len(ids); i += step {
		for _, d := range []int64{-1, 0, 1} {
			if x := ids[i] + d; x > 0 && !seen[x] {
				seen[x] = true
				probe = append(probe, x)
			}
		}
	}
	for _, x := range []int64{1, 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 40} {
		if !seen[x] {
			probe = append(probe, x)
		}
	}
	if len(ids) > 0 && !seen[ids[0]+1<<31] {
		probe = append(probe, ids[0]+1<<31)
	}
	return wayLookups(e, out, probe, want, c.Passes, c.Order, c.Hints)
}

func wayLookups(e *Env, file string, probe []int64, want map[int64][]int64, passes int, order, hints []int) error {
	req := idxReq{Kind: "way", File: file, Passes: passes}
	hint := func(i int) int {
		if len(hints) > 0 {
			return hints[i%len(hints)]
		}
		return -2
	}
	for p := 0; p < passes; p++ {
		for i, id := range probe {
			req.Queries = append(req.Queries, idxQuery{p, id, hint(i)})
		}
	}
	for i, o := range order {
		req.Queries = append(req.Queries, idxQuery{o % passes, probe[(o*31+i)%len(probe)], hint(i)})
	}
	var resp idxResp
	if err := e.call("index", req, &resp); err != nil {
		return apiErr(err, "way sub-index")
	}
	type pk struct {
		p  int
		id int64
	}
	where := map[pk]bool{}
	n := map[int64]int{}
	for i, a := range resp.Ans {
		q := req.Queries[i]
		w, ok := want[q.ID]
		if a.Found && !ok {
			return violf("pass %d of %d: way %d is answered (%s) but is not in the index", q.Pass, passes, q.ID, showI64(a.Locs))
		}
		if a.Found && !eqI64(a.Locs, w) {
			return violf("pass %d of %d: way %d hint %d answered %s, expected %s", q.Pass, passes, q.ID, q.Hint, showI64(a.Locs), showI64(w))
		}
		if i < passes*len(probe) {
			if a.Found {
				n[q.ID]++
				where[pk{q.Pass, q.ID}] = true
			}
		} else if a.Found != where[pk{q.Pass, q.ID}] {
			return violf("pass %d of %d: way %d with hint %d: found=%v, but found=%v with another hint", q.Pass, passes, q.ID, q.Hint, a.Found, !a.Found)
		}
	}
	for _, id := range probe {
		if _, ok := want[id]; ok && n[id] == 0 {
			return violf("way %d is found in none of %d passes", id, passes)
		}
	}
	return nil
}

// synthetic way index: arbitrary ids and lists, alignment, optional far offsets
type c06SynCase struct {
	Align  int
	Ways   []Way
	Far    int64 `json:",omitempty"` // blocks to leave before the data of the second half (sparse)
	Passes int
	Order  []int
	Hints  []int
}

func runC06Syn(e *Env, c c06SynCase) error {
	dir, done := e.dir()
	defer done()
	f := join(dir, "w.idx")
	if err := writeSynWay(f, c.Ways, c.Align, c.Far); err != nil {
		return err
	}
	want := map[int64][]int64{}
	var probe []int64
	for _, w := range c.Ways {
		want[w.ID] = w.Refs
		probe = append(probe, w.ID)
	}
	for _, w := range c.Ways {
		for _, d := range []int64{-1, 1} {
			if _, ok := want[w.ID+d]; !ok && w.ID+d > 0 {
				probe = append(probe, w.ID+d)
			}
		}
	}
	probe = append(probe, 1<<31, 1<<40)
	return wayLookups(e, f, probe, want, c.Passes, c.Order, c.Hints)
}

func writeSynWay(path string, ways []Way, align int, far int64) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	b := binary.LittleEndian.AppendUint64(nil, uint64(len(ways)))
	b = binary.LittleEndian.AppendUint64(b, uint64(align))
	base := int64(16 + 8*len(ways))
	al := int64(1) << align
	off := int64(0)
	type chunk struct {
		at int64
		b  []byte
	}
	var chunks []chunk
	for i, w := range ways {
		if far > 0 && i == len(ways)/2 {
			off += far
		}
		x := encZero(w.Refs)
		for int64(len(x))%al != 0 {
			x = append(x, 0)
		}
		b = binary.LittleEndian.AppendUint64(b, uint64(w.ID)<<33|uint64(off))
		chunks = append(chunks, chunk{base + off*al, x})
		off += int64(len(x)) / al
	}
	if _, err := f.Write(b); err != nil {
		return err
	}
	for _, c := range chunks {
		if _, err := f.WriteAt(c.b, c.at); err != nil {
			return err
		}
	}
	return nil
}

func genWayHints(t *rapid.T) (passes int, order, hints []int) {
	passes = rapid.IntRange(1, 7).Draw(t, "passes")
	if oneIn(t, 6, "manypasses") {
		passes = rapid.IntRange(8, 60).Draw(t, "passes2")
	}
	order = rapid.SliceOfN(rapid.IntRange(0, 1<<20), 0, 30).Draw(t, "order")
	hints = rapid.SliceOfN(rapid.SampledFrom([]int{-2, -2, -1, -3, -4, -5, -6, -7, -8, -9, -10, -11}), 0, 6).Draw(t, "hints")
	return
}

func genSynWays(t *rapid.T, max int) []Way {
	g := &docGen{t: t, o: docOpt{negRefs: true}}
	id := int64(0)
	n := rapid.IntRange(0, max).Draw(t, "n")
	var out []Way
	for i := 0; i < n; i++ {
		id += genIDGap(t, false)
		if oneIn(t, 20, "jump") {
			id += 1 << 29
		}
		if id >= 1<<31 {
			break
		}
		out = append(out, Way{ID: id, Refs: collapse(g.refs())})
	}
	return out
}

func init() {
	cls := func(c c06Case) Class {
		_, w, _, _ := c.Doc.kinds()
		return Class{Nontrivial: w >= 2, Labels: docLabels(&c.Doc)}
	}
	gen := func(o docOpt) func(t *rapid.T) c06Case {
		return func(t *rapid.T) c06Case {
			c := c06Case{Doc: genDoc(t, o), Workers: genWorkers(t), Align: genAlign(t)}
			c.Passes, c.Order, c.Hints = genWayHints(t)
			return c
		}
	}
	register(&Property{ID: "C06", Tools: []string{"wayindex"}, Drivers: []string{"index"}, Arms: []*Arm{
		arm("file", 1200, "generated PBF with ways x alignment x workers x passes x lookup history; non-trivial: at least two ways",
			gen(docOpt{kinds: kNode | kWay | kRel, order: true, negRefs: true}), runC06, cls),
		arm("ways", 1000, "ways only, with converted refs", gen(docOpt{kinds: kWay, maxPer: 9, negRefs: true}), runC06, cls),
		arm("bulk", 60, "thousands of ways, up to 2000 refs each", gen(docOpt{kinds: kNode | kWay, bulk: 1, bulkN: 9000, negRefs: true, maxBlobs: 4}), runC06, cls),
		arm("vast", 16, "ways of 16384 to 100000 refs", func(t *rapid.T) c06Case {
			c := gen(docOpt{kinds: kWay, maxPer: 1, maxBlobs: 1})(t)
			c.Doc = genVast(t, kWay, true)
			return c
		}, runC06, cls),
		arm("far", 40, "PBF of more than 2^31 or 2^32 bytes (sparse), or of up to 70000 blocks", func(t *rapid.T) c06Case {
			c := gen(docOpt{kinds: kNode | kWay, negRefs: true, maxBlobs: 6})(t)
			c.Doc = makeFar(t, c.Doc)
			return c
		}, runC06, cls),
		arm("lookup", 4000, "synthetic way index x passes x hints x lookup history; non-trivial: at least two ways and two passes",
			func(t *rapid.T) c06SynCase {
				c := c06SynCase{Align: genAlign(t), Ways: genSynWays(t, 14)}
				c.Passes, c.Order, c.Hints = genWayHints(t)
				if oneIn(t, 10, "far") {
					c.Align = rapid.SampledFrom([]int{3, 4, 0, 1}).Draw(t, "align")
					top := int64(1<<33 - 1) // the last offset that the format can hold
					for _, w := range c.Ways {
						top -= int64(len(encZero(w.Refs)))>>c.Align + 1
					}
					c.Far = rapid.SampledFrom([]int64{1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 5, top}).Draw(t, "far")
				}
				return c
			}, runC06Syn, func(c c06SynCase) Class {
				l := []string{}
				if c.Far > 0 {
					l = append(l, "far offsets")
				}
				if len(c.Ways) == 0 {
					l = append(l, "empty")
				}
				return Class{Nontrivial: len(c.Ways) >= 2 && c.Passes >= 2, Labels: l}
			}),
	}})
}
