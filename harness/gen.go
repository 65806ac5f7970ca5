package main

import (
	"fmt"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// Generators of PBF documents.

type docOpt struct {
	kinds     int  // entity kinds that may occur
	maxBlobs  int  // number of data blobs
	maxPer    int  // entities per group
	bulk      int  // one document in n gets bulk groups (0 never)
	bulkN     int  // size of a bulk group
	negRefs   bool // refs may already be converted locations
	anyWayID  bool // way ids beyond 2^31, any order
	relNeg    bool
	coordFine bool // unusual granularity and offsets
	exact     bool // only coordinates that are multiples of 1e-7 degree
	nodeTags  bool
	noHeader  bool // never a header blob
	bigGaps   bool // node id gaps beyond 2^24
	order     bool // field order / padding variations
	staged    bool // most documents hold nodes, then ways, then relations, as real files do
	loose     bool // some documents have their entities or blocks in any order
}

// ids in a document share this state so that references hit existing entities.
type idState struct {
	node, way, rel int64
}

func wpick(t *rapid.T, label string, w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	v := rapid.IntRange(0, sum-1).Draw(t, label)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	panic("wpick")
}

func oneIn(t *rapid.T, n int, label string) bool {
	// false is the simple case, so that shrinking moves to it
	return rapid.IntRange(0, n-1).Draw(t, label) == n-1
}

var genUnits = rapid.Custom(func(t *rapid.T) int64 {
	// a coordinate as a fraction of its range in 1e-7 degree, before clamping
	switch wpick(t, "coord", 3, 2, 6, 3) {
	case 0:
		return rapid.Int64Range(-3, 3).Draw(t, "c")
	case 1:
		return rapid.SampledFrom([]int64{1800000000, -1800000000, 900000000, -900000000, 1799999999, -899999999, 1073741823, 1073741824, -1073741824, 536870912, -536870912}).Draw(t, "c")
	case 2:
		return rapid.Int64Range(-1800000000, 1800000000).Draw(t, "c")
	default:
		s := int64(1) << rapid.IntRange(0, 30).Draw(t, "bit")
		if rapid.Bool().Draw(t, "neg") {
			return -s
		}
		return s
	}
})

// the harness's own copy of the documented deletion lists of tagfilter
var deleteTags = []S{"note", "source", "source_ref", "attribution", "comment", "fixme", "created_by", "odbl", "odbl:note",
	"project:eurosha_2012", "ref:UrbIS", "accuracy:meters", "sub_sea:type", "waterway:type", "statscan:rbuid", "ref:ruian:addr",
	"ref:ruian", "building:ruian:type", "dibavod:id", "uir_adr:ADRESA_KOD", "gst:feat_id", "maaamet:ETAK", "ref:FR:FANTOIR",
	"3dshapes:ggmodelk", "AND_nosr_r", "OPPDATERIN", "addr:city:simc", "addr:street:sym_ul", "building:usage:pl", "building:use:pl",
	"teryt:simc", "raba:id", "dcgis:gis_id", "nycdoitt:bin", "chicago:building_id", "lojic:bgnum", "massgis:way_id", "import",
	"import_uuid", "OBJTYPE", "SK53_bulk:load"}

var deletePrefixes = []S{"note:", "source:", "CLC:", "geobase:", "canvec:", "osak:", "kms:", "ngbe:", "it:fvg:", "KSJ2:", "yh:",
	"LINZ2OSM:", "linz2osm:", "LINZ:", "WroclawGIS:", "naptan:", "tiger:", "gnis:", "NHD:", "nhd:", "mvdgis:"}

func tagDeleted(k S) bool {
	for _, d := range deleteTags {
		if k == d {
			return true
		}
	}
	for _, p := range deletePrefixes {
		if strings.HasPrefix(string(k), string(p)) {
			return true
		}
	}
	return false
}

var plainKeys = []S{"highway", "name", "a", "b", "c", "building", "ref", "type", "zz", "name:en"}

var genKey = rapid.Custom(func(t *rapid.T) S {
	switch wpick(t, "key", 8, 3, 3, 2, 1) {
	case 0:
		return rapid.SampledFrom(plainKeys).Draw(t, "k")
	case 1:
		return rapid.SampledFrom(deleteTags).Draw(t, "k")
	case 2:
		p := rapid.SampledFrom(deletePrefixes).Draw(t, "k")
		return p + rapid.SampledFrom([]S{"", "x", "note", ":"}).Draw(t, "sfx")
	case 3: // near misses of the lists
		b := rapid.SampledFrom([]S{"note", "source", "import", "fixme", "tiger:", "NHD:", "kms:", "odbl", "ref:ruian", "created_by", "it:fvg:"}).Draw(t, "k")
		switch rapid.IntRange(0, 5).Draw(t, "near") {
		case 0:
			return b + "_x"
		case 1:
			return "x" + b
		case 2:
			return b[:len(b)-1]
		case 3:
			return S(strings.ToUpper(string(b))) + "0"
		case 4:
			return "x:" + b
		default:
			return b + "s"
		}
	default:
		s := genBytes(t, "k")
		if s == "" {
			return "k"
		}
		return s
	}
})

func genBytes(t *rapid.T, label string) S {
	switch wpick(t, label+"kind", 6, 3, 1) {
	case 0:
		return S(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, label))
	case 1:
		return S(rapid.StringN(0, 6, 20).Draw(t, label))
	default:
		n := rapid.SampledFrom([]int{127, 128, 129, 255, 16383, 16384}).Draw(t, label+"n")
		c := rapid.ByteRange('a', 'z').Draw(t, label+"c")
		return S(strings.Repeat(string(rune(c)), n))
	}
}

var genVal = rapid.Custom(func(t *rapid.T) S {
	switch wpick(t, "val", 5, 2, 3, 1) {
	case 0:
		return rapid.SampledFrom([]S{"yes", "no", "1", "2", "residential", "a", "b", "name"}).Draw(t, "v")
	case 1:
		return ""
	case 2:
		return S(fmt.Sprint(rapid.IntRange(0, 300).Draw(t, "v")))
	default:
		if oneIn(t, 8, "longval") {
			n := rapid.SampledFrom([]int{126, 127, 128, 255, 256, 1000, 16383, 16384, 65535, 70000}).Draw(t, "vlen")
			return S(strings.Repeat(rapid.SampledFrom([]string{"x", "note", "\xff\x00", "ä"}).Draw(t, "vrep"), n)[:n])
		}
		return genBytes(t, "v")
	}
})

var genTag = rapid.Custom(func(t *rapid.T) Tag { return Tag{genKey.Draw(t, "k"), genVal.Draw(t, "v")} })

func genTags(t *rapid.T, max int) []Tag {
	return rapid.SliceOfNDistinct(genTag, 0, max, func(x Tag) S { return x.K }).Draw(t, "tags")
}

func genIDGap(t *rapid.T, big bool) int64 {
	w := 1
	if !big {
		w = 0
	}
	switch wpick(t, "gap", 12, 5, 4, 3, 2, w) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return 3
	case 3:
		return rapid.Int64Range(4, 12).Draw(t, "g")
	case 4:
		return rapid.Int64Range(13, 5000).Draw(t, "g")
	default:
		return rapid.SampledFrom([]int64{1 << 16, 1<<24 - 1, 1 << 24, 1<<24 + 1, 1 << 31, 1 << 32, 1<<33 + 1, 1 << 40}).Draw(t, "g")
	}
}

func genFirstGap(t *rapid.T, big bool) int64 {
	// distance from id 0 of the first entity: 1, 2 and 3 matter
	w := 2
	if !big {
		w = 0
	}
	switch wpick(t, "first", 4, 3, 2, 3, w) {
	case 0:
		return 1
	case 1:
		return 2
	case 2:
		return 3
	case 3:
		return rapid.Int64Range(4, 1000).Draw(t, "g")
	default:
		return rapid.SampledFrom([]int64{1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, 1 << 45}).Draw(t, "g")
	}
}

type docGen struct {
	t         *rapid.T
	o         docOpt
	node      int64 // last node id used
	way       int64
	rel       int64
	nodeIDs   []int64 // known ids, to refer to
	wayIDs    []int64
	nodeFirst bool
	wayFirst  bool
	bulk      bool
	only      int // kinds of the current block, if not all
}

func (g *docGen) gap(first *bool, big bool) int64 {
	if !*first {
		*first = true
		return genFirstGap(g.t, big)
	}
	return genIDGap(g.t, big)
}

func maxI(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func clampI(v, lo, hi int64) int64 {
	if v < lo {
		return lo
	}
	if v > hi {
		return hi
	}
	return v
}

func toRaw(units int64, limit int64, gran, off int64, sub int64) int64 {
	nano := clampI(units, -limit, limit)*100 + sub
	nano = clampI(nano, -limit*100, limit*100)
	raw := (nano - off) / gran
	for off+raw*gran > limit*100 {
		raw--
	}
	for off+raw*gran < -limit*100 {
		raw++
	}
	return raw
}

func (g *docGen) ref() int64 {
	t := g.t
	neg := 0
	if g.o.negRefs {
		neg = 3
	}
	k := 8
	if len(g.nodeIDs) == 0 {
		k = 0
	}
	switch wpick(t, "ref", k, 3, neg, 2) {
	case 0:
		return rapid.SampledFrom(g.nodeIDs).Draw(t, "r")
	case 1:
		if len(g.nodeIDs) == 0 {
			return rapid.Int64Range(1, 50).Draw(t, "r")
		}
		v := rapid.SampledFrom(g.nodeIDs).Draw(t, "r") + rapid.Int64Range(-2, 2).Draw(t, "d")
		if v < 1 {
			v = 1
		}
		return v
	case 2:
		lon := clampI(genUnits.Draw(t, "lon"), -1800000000, 1800000000)
		lat := clampI(genUnits.Draw(t, "lat"), -900000000, 900000000)
		return encLoc(int32(lon), int32(lat))
	default:
		return rapid.SampledFrom([]int64{1, 2, 1 << 20, 1 << 31, 1<<32 + 7, 1 << 40, 1<<62 + 5}).Draw(t, "r")
	}
}

// heavy is now and then a number of tags, refs or members around a limit of an encoding.
func (g *docGen) heavy(label string) int {
	if !oneIn(g.t, 70, "heavy"+label) {
		return 0
	}
	return rapid.SampledFrom([]int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300, 511, 512, 513, 1000, 1024}).Draw(g.t, "n"+label)
}

func (g *docGen) tags(max int) []Tag {
	if n := g.heavy("tags"); n > 0 {
		return heavyTags(n, uint64(rapid.IntRange(1, 1<<20).Draw(g.t, "tseed")))
	}
	return genTags(g.t, max)
}

func (g *docGen) refs() []int64 {
	t := g.t
	max := 8
	if n := g.heavy("refs"); n > 0 {
		bk := &Bulk{Seed: uint64(n), Lo: 1, Hi: 1000, RMode: rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "hmode")}
		if len(g.nodeIDs) > 0 {
			bk.Lo, bk.Hi = g.nodeIDs[0], g.nodeIDs[len(g.nodeIDs)-1]
		}
		if g.o.negRefs && oneIn(t, 3, "hneg") {
			bk.RMode = 2
		}
		return bulkRefs(&rng{bk.Seed}, n, bk)
	}
	if oneIn(t, 12, "long") {
		max = 60
	}
	n := rapid.IntRange(0, max).Draw(t, "nrefs")
	out := make([]int64, 0, n)
	for i := 0; i < n; i++ {
		if i > 0 && oneIn(t, 5, "dup") {
			out = append(out, out[i-1])
			continue
		}
		out = append(out, g.ref())
	}
	return out
}

func (g *docGen) block() *Block {
	t, o := g.t, g.o
	b := &Block{}
	if o.coordFine {
		switch wpick(t, "gran", 6, 2, 2, 2) {
		case 1:
			b.Gran = rapid.SampledFrom([]int32{1, 7, 10, 99, 100, 101, 250, 1000, 10000, 1000000}).Draw(t, "g")
		case 2:
			b.Gran = int32(rapid.IntRange(1, 5000).Draw(t, "g"))
		case 3:
			b.Explicit = true
		}
		if oneIn(t, 3, "off") {
			b.LatOff = rapid.Int64Range(-5000000000, 5000000000).Draw(t, "lato")
			b.LonOff = rapid.Int64Range(-5000000000, 5000000000).Draw(t, "lono")
		} else if oneIn(t, 6, "off1") {
			b.LonOff = rapid.Int64Range(-150, 150).Draw(t, "lono")
		}
		if oneIn(t, 5, "dg") {
			b.DateGran = rapid.SampledFrom([]int32{1, 500, 999, 1000, 1001, 60000}).Draw(t, "dgv")
		}
	}
	if o.exact && b.Gran%100 != 0 {
		b.Gran = 0
	}
	if o.exact {
		b.LatOff -= b.LatOff % 100
		b.LonOff -= b.LonOff % 100
	}
	if o.order {
		if oneIn(t, 3, "ord") {
			b.Order = rapid.IntRange(0, 11).Draw(t, "order")
		}
		if oneIn(t, 4, "padq") {
			b.Pad = rapid.IntRange(0, 3).Draw(t, "pad")
		}
	}
	b.StrSeed = rapid.IntRange(0, 5).Draw(t, "strseed")
	if oneIn(t, 4, "extra") {
		b.Extra = rapid.SliceOfN(genVal, 0, 4).Draw(t, "extras")
	}
	if oneIn(t, 25, "xstr") {
		b.XStr = rapid.SampledFrom([]int{130, 260, 17000, 33000, 66000}).Draw(t, "nxstr")
	}
	var kinds []int
	for _, k := range []int{kNode, kWay, kRel} {
		if o.kinds&k != 0 && (g.only == 0 || g.only&k != 0) {
			kinds = append(kinds, k)
		}
	}
	mixed := oneIn(t, 3, "mixed")
	ng := wpick(t, "ngroups", 1, 8, 3, 2)
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	for i := 0; i < ng; i++ {
		if mixed {
			kind = rapid.SampledFrom(kinds).Draw(t, "kind")
		}
		gr := g.group(b, kind)
		gr.Join = mixed && i > 0 && oneIn(t, 2, "join")
		b.Groups = append(b.Groups, gr)
	}
	return b
}

func (g *docGen) group(b *Block, kind int) Group {
	t, o := g.t, g.o
	gr := Group{Kind: kind, Info: oneIn(t, 4, "info"), KV: oneIn(t, 4, "kv")}
	if g.bulk && oneIn(t, 2, "bulkgroup") {
		return g.bulkGroup(b, gr, kind)
	}
	n := 0
	if oneIn(t, 10, "many") {
		n = rapid.IntRange(0, o.maxPer*4).Draw(t, "n")
	} else {
		n = rapid.IntRange(0, o.maxPer).Draw(t, "n")
	}
	for i := 0; i < n; i++ {
		switch kind {
		case kNode:
			g.node += g.gap(&g.nodeFirst, o.bigGaps)
			nd := Node{ID: g.node}
			sub := int64(0)
			if !o.exact && b.gran() < 100 {
				sub = rapid.Int64Range(-99, 99).Draw(t, "sub")
			}
			nd.Lon = toRaw(genUnits.Draw(t, "lon"), 1800000000, b.gran(), b.LonOff, sub)
			nd.Lat = toRaw(genUnits.Draw(t, "lat"), 900000000, b.gran(), b.LatOff, sub)
			if o.nodeTags {
				nd.Tags = g.tags(4)
			}
			g.nodeIDs = append(g.nodeIDs, nd.ID)
			gr.Nodes = append(gr.Nodes, nd)
		case kWay:
			if o.anyWayID && oneIn(t, 6, "anyid") {
				w := rapid.Int64Range(1, 1<<40).Draw(t, "wid")
				gr.Ways = append(gr.Ways, Way{ID: w, Tags: g.tags(3), Refs: g.refs()})
				continue
			}
			gap := g.gap(&g.wayFirst, false)
			if oneIn(t, 30, "wjump") {
				gap = rapid.SampledFrom([]int64{1 << 24, 1 << 29, 1 << 30, 1<<31 - 40}).Draw(t, "wj")
			}
			if g.way+gap >= 1<<31 {
				gap = 1
			}
			if g.way+gap >= 1<<31 {
				return gr
			}
			g.way += gap
			w := Way{ID: g.way, Refs: g.refs()}
			w.Tags = g.tags(3)
			g.wayIDs = append(g.wayIDs, w.ID)
			gr.Ways = append(gr.Ways, w)
		case kRel:
			g.rel += rapid.SampledFrom([]int64{1, 1, 1, 2, 3, 100, 1 << 33}).Draw(t, "rgap")
			r := Rel{ID: g.rel, Tags: g.tags(3)}
			nm := rapid.IntRange(0, 6).Draw(t, "nmem")
			if n := g.heavy("members"); n > 0 {
				nm = 0
				lo, hi := int64(1), int64(1000)
				if len(g.wayIDs) > 0 {
					lo, hi = g.wayIDs[0], g.wayIDs[len(g.wayIDs)-1]
				}
				rg := &rng{uint64(n)}
				all := rapid.Bool().Draw(t, "hall")
				for j := 0; j < n; j++ {
					m := Member{1, lo + rg.n(hi-lo+1), []S{"", "outer", "inner", S(fmt.Sprint(j))}[rg.n(4)]}
					if len(g.wayIDs) > 0 && rg.n(3) > 0 {
						m.ID = g.wayIDs[rg.n(int64(len(g.wayIDs)))]
					}
					if !all {
						m.Type = int(rg.n(3))
					}
					r.Mem = append(r.Mem, m)
				}
			}
			for j := 0; j < nm; j++ {
				m := Member{Type: rapid.SampledFrom([]int{1, 1, 1, 0, 2}).Draw(t, "mt"), Role: rapid.SampledFrom([]S{"outer", "inner", "", "stop", "x"}).Draw(t, "role")}
				if len(g.wayIDs) > 0 && !oneIn(t, 4, "unknown") {
					m.ID = rapid.SampledFrom(g.wayIDs).Draw(t, "mid")
				} else {
					m.ID = rapid.SampledFrom([]int64{1, 2, 3, 7, 1000, 1<<31 - 1, 1 << 31, 1<<40 + 3}).Draw(t, "mid")
				}
				if m.Type == 1 && oneIn(t, 12, "near") {
					m.ID += rapid.Int64Range(0, 2).Draw(t, "nid")
				}
				r.Mem = append(r.Mem, m)
			}
			gr.Rels = append(gr.Rels, r)
		}
	}
	return gr
}

func (g *docGen) bulkGroup(b *Block, gr Group, kind int) Group {
	t := g.t
	bn := g.o.bulkN
	uniq := oneIn(t, 4, "uniq")
	bk := &Bulk{Uniq: uniq, Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "bseed")), N: rapid.IntRange(bn/8, bn).Draw(t, "bn"),
		Mode: rapid.IntRange(0, 4).Draw(t, "bmode"), Tag: rapid.SampledFrom([]int{0, 1, 3, 50}).Draw(t, "btag")}
	gr.Bulk = bk
	gr.Info = false
	switch kind {
	case kNode:
		if !g.o.nodeTags {
			bk.Tag = 0
		}
		bk.Gran, bk.LatOff, bk.LonOff = b.gran(), b.LatOff, b.LonOff
		g.node += g.gap(&g.nodeFirst, g.o.bigGaps)
		bk.First = g.node
		ns := gr.nodes()
		for i, n := range ns {
			g.node = n.ID
			if i%(len(ns)/16+1) == 0 || i == len(ns)-1 {
				g.nodeIDs = append(g.nodeIDs, n.ID)
			}
		}
	case kWay:
		gap := g.gap(&g.wayFirst, false)
		bk.N = bk.N/10 + 1
		if g.way+gap+int64(bk.N)*1000 >= 1<<31 {
			bk.N = 0
			bk.First = 1
			return gr
		}
		g.way += gap
		bk.First = g.way
		bk.Len = rapid.SampledFrom([]int{0, 2, 12, 100}).Draw(t, "blen")
		if bk.N < 200 && oneIn(t, 3, "long") {
			bk.N = rapid.IntRange(1, 4).Draw(t, "nlong")
			bk.Len = rapid.SampledFrom([]int{1999, 2000}).Draw(t, "blen2")
		}
		bk.Lo, bk.Hi = 1, 1000
		if len(g.nodeIDs) > 0 {
			bk.Lo, bk.Hi = g.nodeIDs[0], g.nodeIDs[len(g.nodeIDs)-1]
		}
		bk.RMode = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "rmode")
		if g.o.negRefs && oneIn(t, 3, "bneg") {
			bk.RMode = 2
		}
		ws := gr.ways()
		for i, w := range ws {
			g.way = w.ID
			if i%(len(ws)/16+1) == 0 {
				g.wayIDs = append(g.wayIDs, w.ID)
			}
		}
	case kRel:
		g.rel++
		bk.N = bk.N/10 + 1
		bk.First = g.rel
		bk.Len = rapid.SampledFrom([]int{0, 3, 30}).Draw(t, "blen")
		bk.RMode = rapid.IntRange(0, 1).Draw(t, "rmode")
		bk.Lo, bk.Hi = 1, 1000
		if len(g.wayIDs) > 0 {
			bk.Lo, bk.Hi = g.wayIDs[0], g.wayIDs[len(g.wayIDs)-1]
		}
		for _, r := range gr.rels() {
			g.rel = r.ID
		}
	}
	return gr
}

func genLevel(t *rapid.T) int {
	return rapid.SampledFrom([]int{-1, 6, 1, 9, 0}).Draw(t, "level")
}

func headerBlob(t *rapid.T) Blob {
	h := Blob{Type: "OSMHeader", Level: genLevel(t)}
	h.Head = S(putFields(nil, []*field{fBytes(4, []byte("OsmSchema-V0.6"), ""), fBytes(4, []byte("DenseNodes"), ""), fBytes(16, []byte("gen"), "")}))
	if oneIn(t, 4, "hdrbytes") {
		h.Head = S(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "hdr"))
	}
	return h
}

func genDoc(t *rapid.T, o docOpt) Doc {
	d, _ := genDocState(t, o)
	return d
}

func genDocState(t *rapid.T, o docOpt) (Doc, *docGen) {
	if o.maxPer == 0 {
		o.maxPer = 6
	}
	if o.maxBlobs == 0 {
		o.maxBlobs = 5
	}
	g := &docGen{t: t, o: o}
	g.bulk = o.bulk > 0 && oneIn(t, o.bulk, "bulk")
	var d Doc
	if !o.noHeader && !oneIn(t, 8, "nohdr") {
		d.Blobs = append(d.Blobs, headerBlob(t))
	}
	n := rapid.IntRange(0, o.maxBlobs).Draw(t, "nblobs")
	if o.order && oneIn(t, 15, "manyblobs") {
		n = rapid.IntRange(0, o.maxBlobs*6).Draw(t, "nblobs2")
	}
	var stages []int
	if o.staged && !oneIn(t, 3, "unstaged") {
		for _, k := range []int{kNode, kWay, kRel} {
			if o.kinds&k != 0 {
				for c := rapid.IntRange(1, int(maxI(1, int64(o.maxBlobs/2)))).Draw(t, "stage"); c > 0; c-- {
					stages = append(stages, k)
				}
			}
		}
		n = len(stages)
	}
	for i := 0; i < n; i++ {
		if stages != nil {
			g.only = stages[i]
		}
		b := Blob{Type: "OSMData", Level: genLevel(t), Block: g.block()}
		if o.order {
			b.Flip = oneIn(t, 6, "flip")
			b.RawSz = oneIn(t, 5, "rawsz")
		}
		d.Blobs = append(d.Blobs, b)
		if o.order && oneIn(t, 25, "midhdr") {
			d.Blobs = append(d.Blobs, headerBlob(t))
		}
	}
	if len(d.Blobs) == 0 {
		d.Blobs = append(d.Blobs, headerBlob(t))
	}
	if o.loose && oneIn(t, 5, "loose") {
		d.loosen(&rng{uint64(rapid.IntRange(1, 1<<30).Draw(t, "mix"))})
	}
	return d, g
}

// loosen mixes the entities of each group and the blocks after the first.
func (d *Doc) loosen(r *rng) {
	mix := func(n int, swap func(i, j int)) {
		for i := n - 1; i > 0; i-- {
			swap(i, int(r.n(int64(i+1))))
		}
	}
	for _, b := range d.Blobs {
		if b.Block == nil {
			continue
		}
		for i := range b.Block.Groups {
			g := &b.Block.Groups[i]
			mix(len(g.Nodes), func(i, j int) { g.Nodes[i], g.Nodes[j] = g.Nodes[j], g.Nodes[i] })
			mix(len(g.Ways), func(i, j int) { g.Ways[i], g.Ways[j] = g.Ways[j], g.Ways[i] })
			mix(len(g.Rels), func(i, j int) { g.Rels[i], g.Rels[j] = g.Rels[j], g.Rels[i] })
		}
	}
	if r.n(2) == 0 && len(d.Blobs) > 1 {
		bs := d.Blobs[1:]
		mix(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
	}
}

// makeFar lets the file pass the limits of 31- and 32-bit offsets and 16-bit block numbers.
func makeFar(t *rapid.T, d Doc) Doc {
	var out Doc
	if oneIn(t, 3, "manysmall") {
		k := rapid.IntRange(0, len(d.Blobs)).Draw(t, "at")
		out.Blobs = append(out.Blobs, d.Blobs[:k]...)
		out.Blobs = append(out.Blobs, Blob{Type: "OSMHeader", Level: -1, Rep: rapid.SampledFrom([]int{65530, 70000, 300}).Draw(t, "rep")})
		out.Blobs = append(out.Blobs, d.Blobs[k:]...)
		return out
	}
	// offsets around the limits, ascending
	for i := range d.Blobs {
		if oneIn(t, 3, "hole") || i == len(d.Blobs)-1 {
			lim := rapid.SampledFrom([]int64{1 << 31, 1 << 32, 1 << 33}).Draw(t, "limit")
			out.Blobs = append(out.Blobs, Blob{Type: "OSMHeader", Upto: lim + rapid.Int64Range(-600, 100).Draw(t, "near")})
		}
		out.Blobs = append(out.Blobs, d.Blobs[i])
	}
	return out
}

func genWorkers(t *rapid.T) int {
	return rapid.SampledFrom([]int{1, 2, 3, 4, 8, 16, 33, 70}).Draw(t, "workers")
}

func docLabels(d *Doc) []string {
	n, w, r, b := d.kinds()
	l := []string{}
	add := func(c bool, s string) {
		if c {
			l = append(l, s)
		}
	}
	add(n > 0, "nodes")
	add(w > 0, "ways")
	add(r > 0, "relations")
	add(n == 0, "no-nodes")
	add(w == 0, "no-ways")
	add(r == 0, "no-relations")
	add(b >= 3, "blocks>=3")
	add(n+w+r > 5000, "bulk")
	raw, z, par, joined := false, false, false, false
	for i := range d.Blobs {
		if d.Blobs[i].Level < 0 {
			raw = true
		} else {
			z = true
		}
		if k := d.Blobs[i].Block; k != nil {
			for j := range k.Groups {
				joined = joined || k.Groups[j].Join
			}
		}
		if k := d.Blobs[i].Block; k != nil && (k.Gran != 0 || k.LatOff != 0 || k.LonOff != 0) {
			par = true
		}
	}
	add(raw, "raw")
	add(joined, "several-kinds-in-a-group")
	add(z, "zlib")
	add(par, "gran/offset")
	sort.Strings(l)
	return l
}

// genVast is a document with entities of more refs or members than 15 or 16 bits can count.
func genVast(t *rapid.T, kinds int, neg bool) Doc {
	d := Doc{Blobs: []Blob{headerBlob(t)}}
	first := rapid.Int64Range(1, 50).Draw(t, "vfirst")
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "vblobs"); i < n; i++ {
		b := &Block{}
		for _, k := range []int{kWay, kRel} {
			if kinds&k == 0 {
				continue
			}
			bk := &Bulk{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "vseed")), N: rapid.IntRange(1, 2).Draw(t, "vn"), First: first, Lo: 1,
				Len: rapid.SampledFrom([]int{16384, 32767, 32768, 33000, 40000, 65535, 65536, 65537, 70000, 100000}).Draw(t, "vlen"),
				Hi:  rapid.SampledFrom([]int64{30, 5000, 200000}).Draw(t, "vhi"), Tag: rapid.IntRange(0, 1).Draw(t, "vtag")}
			bk.RMode = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "vmode")
			if k == kWay && neg && oneIn(t, 3, "vneg") {
				bk.RMode = 2
			}
			if k == kRel {
				bk.RMode %= 2
			}
			first += 2
			b.Groups = append(b.Groups, Group{Kind: k, Bulk: bk})
		}
		d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: genLevel(t), Block: b})
	}
	return d
}
