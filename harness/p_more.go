package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
)

// C30: a truncated index never gives a wrong result.  C31: memory does not grow with the file.

// ---- C30 -------------------------------------------------------------------------------------

type idxCut struct {
	Near int // 0 anywhere, 1 the end of the file, 2 start, 3 the end of the ids, 4 a location
	A    int
}

type c30Case struct {
	Tool    string
	Doc     Doc
	Idx     mapIdx
	Ways    []Way // the way index
	Align   int
	Workers int
	Passes  int
	Mem     int
	Flags   []string // dump tools
	Cuts    []idxCut
}

func (c *c30Case) node() bool { return c.Tool == "rewritenodes" || c.Tool == "dumpnodeindex" }

// at is the length of the cut file.
func (x idxCut) at(size, ids, word int) int {
	n := 0
	switch x.Near {
	case 0:
		n = x.A * 7919 % size
	case 1:
		n = size - 1 - x.A%40
	case 2:
		n = x.A % 40
	case 3:
		n = ids - 20 + x.A%40
	default:
		if size > ids {
			n = ids + x.A*7919%(size-ids)/word*word
		}
	}
	return int(clampI(int64(n), 0, int64(size-1)))
}

func runC30(e *Env, c c30Case) error {
	dir, done := e.dir()
	defer done()
	in, ix := join(dir, "in.pbf"), join(dir, "x.idx")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	var whole []byte
	var ids int
	if c.node() {
		if err := writeMapIdx(ix, c.Idx.locs(&c.Doc), c.Idx.Fill, c.Idx.Split); err != nil {
			return err
		}
		n, err := readNodeIdx(ix)
		if err != nil {
			return err
		}
		ids = 16 + 16*len(n.Elems)
	} else {
		if err := writeSynWay(ix, c.Ways, c.Align, 0); err != nil {
			return err
		}
		ids = 16 + 8*len(c.Ways)
	}
	whole, err := os.ReadFile(ix)
	if err != nil {
		return err
	}
	n := 0
	run := func() (r *toolResult, res []byte, err error) {
		n++
		out := join(dir, fmt.Sprintf("out%d", n))
		var a []string
		switch c.Tool {
		case "rewritenodes":
			a = []string{"-r", "0", "-i", in, "-x", ix, "-o", out, "-w", itoa(c.Workers)}
			if c.Mem > 0 {
				a = append(a, "-m", itoa(c.Mem))
			}
		case "relindex":
			a = []string{"-r", "0", "-i", in, "-x", ix, "-o", out, "-w", itoa(c.Workers), "-p", itoa(c.Passes)}
		default:
			a = append([]string{"-i", ix}, c.Flags...)
		}
		r, err = e.tool(c.Tool, a...)
		if err != nil || !r.ok() {
			return
		}
		if strings.HasPrefix(c.Tool, "dump") {
			res = []byte(r.Stdout)
			return
		}
		res, err = os.ReadFile(out)
		return
	}
	r, ref, err := run()
	if err != nil {
		return err
	}
	if !r.ok() {
		return violf("tool failed on a whole index: %s", r)
	}
	word := 8
	if !c.node() {
		word = 1 << c.Align
	}
	for _, x := range c.Cuts {
		k := x.at(len(whole), ids, word)
		if err := os.WriteFile(ix, whole[:k], 0o644); err != nil {
			return err
		}
		r, got, err := run()
		if err != nil {
			return err
		}
		if r.Hung {
			return violf("index cut to %d of %d bytes: %s", k, len(whole), r)
		}
		if r.ok() && !bytes.Equal(ref, got) {
			return violf("%s succeeds with an index cut to %d of %d bytes (the ids end at %d), but its result differs from that with the whole index: %s", c.Tool, k, len(whole), ids, diffBytes(ref, got))
		}
	}
	return nil
}

func genC30(t *rapid.T) c30Case {
	c := c30Case{Tool: rapid.SampledFrom([]string{"rewritenodes", "relindex", "dumpnodeindex", "dumpwayindex"}).Draw(t, "tool"), Workers: genWorkers(t),
		Align: rapid.SampledFrom([]int{0, 1, 2, 3, 3, 4, 6}).Draw(t, "align"), Passes: rapid.IntRange(1, 6).Draw(t, "passes")}
	switch c.Tool {
	case "rewritenodes", "dumpnodeindex":
		c.Doc = genDoc(t, docOpt{kinds: kNode | kWay, negRefs: true, maxPer: 8, maxBlobs: 5})
		c.Idx = genMapIdx(t)
		if rapid.Bool().Draw(t, "mem") {
			c.Mem = rapid.IntRange(1, 3).Draw(t, "m")
		}
	default:
		rc := genRelCase(docOpt{kinds: kWay | kRel, maxPer: 6, maxBlobs: 5, staged: true})(t)
		c.Doc, c.Ways = rc.Doc, rc.ways()
	}
	switch c.Tool {
	case "dumpnodeindex":
		c.Flags = rapid.SampledFrom([][]string{{"-p", "-s"}, {"-p"}, {"-s"}}).Draw(t, "flags")
	case "dumpwayindex":
		c.Flags = rapid.SampledFrom([][]string{{"-p", "-s"}, {"-p"}, {"-s"}}).Draw(t, "flags")
	}
	c.Cuts = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) idxCut {
		return idxCut{wpick(t, "near", 3, 4, 1, 2, 5), rapid.IntRange(0, 1<<20).Draw(t, "a")}
	}), 1, 8).Draw(t, "cuts")
	return c
}

// ---- C31 -------------------------------------------------------------------------------------

type c31Case struct {
	Tool    string
	Kind    int
	N       int // entities per block
	Len     int // refs per way, members per relation
	Gap     int `json:",omitempty"` // so many ids between two nodes have none
	Tags    int // one entity in so many has tags (0: none)
	Seed    uint64
	Level   int
	Workers int
	Align   int
	Passes  int
	Hold    int   `json:",omitempty"` // the writing operation that takes long, counted from 1 (0: none)
	Span    int64 `json:",omitempty"` // ids referred to are up to this
	Uniq    int   `json:",omitempty"` // so many strings of a block are in no other block
	Few     int   // blocks of the short file
	Many    int   // and of the long one
}

func (c *c31Case) step() int { return 1 + c.Gap }

// write makes a file of blocks that are alike in size, all entities and some strings differ.
func (c *c31Case) write(path string, blocks int) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	r := &rng{c.Seed}
	var lat, lon, kv []byte
	var refs, roles, types [][]byte
	for i := 0; i < c.N; i++ {
		switch c.Kind {
		case kNode:
			lat = putVar(lat, zz(r.n(2000001)-1000000))
			lon = putVar(lon, zz(r.n(2000001)-1000000))
			if c.Tags > 0 && i%c.Tags == 0 {
				kv = append(kv, 1, byte(3+i%5))
				kv = putVar(append(kv, 2), uint64(8+i%(1+c.Uniq)))
			}
			kv = append(kv, 0)
		default:
			if i >= 50 { // a few lists are used over and over
				break
			}
			var ids []int64
			span := map[int]int64{kWay: 50000, kRel: 900}[c.Kind]
			if c.Span > 0 {
				span = c.Span
			}
			for j := 0; j < c.Len; j++ {
				ids = append(ids, 1+r.n(span))
			}
			refs = append(refs, packDelta(ids))
			roles = append(roles, bytes.Repeat([]byte{4}, c.Len))
			types = append(types, bytes.Repeat([]byte{1}, c.Len))
		}
	}
	next := int64(1)
	var group, m []byte
	put := func(b []byte, id int, x []byte) []byte {
		b = putVar(b, uint64(id<<3|2))
		b = putVar(b, uint64(len(x)))
		return append(b, x...)
	}
	for k := 0; k < blocks; k++ {
		group = group[:0]
		if c.Kind == kNode {
			ids := putVar(nil, zz(next))
			ids = append(ids, bytes.Repeat([]byte{byte(2 * c.step())}, c.N-1)...)
			next += int64(c.N * c.step())
			m = put(m[:0], 1, ids)
			m = put(m, 8, lat)
			m = put(m, 9, lon)
			if c.Tags > 0 {
				m = put(m, 10, kv)
			}
			group = put(group, 2, m)
		} else {
			for i := 0; i < c.N; i++ {
				m = putVar(append(m[:0], 1<<3), uint64(next))
				next++
				if c.Tags > 0 && i%c.Tags == 0 {
					m = put(m, 2, []byte{1, 2})
					m = put(m, 3, putVar([]byte{byte(3 + i%5)}, uint64(8+i%(1+c.Uniq))))
				}
				j := int(r.n(int64(len(refs))))
				if c.Kind == kWay {
					m = put(m, 8, refs[j])
					group = put(group, 3, m)
				} else {
					m = put(m, 8, roles[j])
					m = put(m, 9, refs[j])
					m = put(m, 10, types[j])
					group = put(group, 4, m)
				}
			}
		}
		var st []byte
		for _, s := range []string{"", "name", "highway", "a", "outer", "b", "c", "d", fmt.Sprintf("block %d", k)} {
			st = put(st, 1, []byte(s))
		}
		for i := 0; i < c.Uniq; i++ {
			st = put(st, 1, fmt.Appendf(nil, "%06d of block %d", i, k))
		}
		p := put(put(nil, 1, st), 2, group)
		b := Blob{Type: "OSMData", Level: c.Level}
		if _, err := f.Write(frame("OSMData", putFields(nil, b.blobFields(p)), false)); err != nil {
			return err
		}
	}
	return nil
}

func runC31(e *Env, c c31Case) error {
	dir, done := e.dir()
	defer done()
	nx, wx := join(dir, "n.idx"), join(dir, "w.idx")
	locs := map[int64]int64{}
	for i := int64(1); i <= 40000; i++ {
		locs[i*3/2] = pseudoLoc(uint64(i))
	}
	if err := writeMapIdx(nx, locs, true, 1000); err != nil {
		return err
	}
	var ws []Way
	for i := int64(1); i <= 400; i++ {
		w := Way{ID: i * 2}
		for j := int64(0); j < 60; j++ {
			w.Refs = append(w.Refs, pseudoLoc(uint64(i*100+j)))
		}
		ws = append(ws, w)
	}
	if err := writeSynWay(wx, ws, c.Align, 0); err != nil {
		return err
	}
	peak := func(rep int, max int64) (int64, int64, error) {
		in, od := join(dir, fmt.Sprintf("in%d.pbf", rep)), join(dir, "o")
		if _, err := os.Stat(in); err != nil {
			if err := c.write(in, rep); err != nil {
				return 0, 0, err
			}
		}
		st, err := os.Stat(in)
		if err != nil {
			return 0, 0, err
		}
		if err := os.MkdirAll(od, 0o755); err != nil {
			return 0, 0, err
		}
		defer os.RemoveAll(od)
		a := []string{"-i", in}
		if c.Tool != "blockcount" {
			a = append(a, "-w", itoa(c.Workers))
		}
		switch c.Tool {
		case "blockcount", "entitycount":
		case "entityfind":
			a = append(a, "-e", "4000000000")
		default:
			a = append(a, "-r", "0", "-o", join(od, "out"))
		}
		switch c.Tool {
		case "wayindex":
			a = append(a, "-a", itoa(c.Align))
		case "rewritenodes":
			a = append(a, "-x", nx)
		case "relindex":
			a = append(a, "-x", wx, "-p", itoa(c.Passes))
		}
		var p int64
		o := toolOpt{fsize: -1, anon: &p, anonMax: max, gogc: 25}
		if c.Hold > 0 {
			// hold the operation until the tool needs no more memory
			o.inject = &injection{dir: od, at: c.Hold - 1, pause: func() {
				last, same := int64(-1), 0
				for i := 0; i < 100 && same < 8; i++ {
					time.Sleep(50 * time.Millisecond)
					if v := atomic.LoadInt64(&p); v != last {
						last, same = v, 0
					} else {
						same++
					}
				}
			}}
		}
		r, err := e.toolOpt(o, c.Tool, a...)
		if err != nil {
			return 0, 0, err
		}
		if !r.ok() && !r.Big {
			return 0, 0, violf("tool failed on valid input: %s", r)
		}
		return p, st.Size(), nil
	}
	few, _, err := peak(c.Few, 0)
	if err != nil {
		return err
	}
	max := few*3/2 + 40<<20
	var last, size int64
	for i := 0; i < 3; i++ { // one process being kept waiting can make others run ahead: has to happen every time
		last, size, err = peak(c.Many, max)
		if err != nil {
			return err
		}
		if last <= max {
			return nil
		}
	}
	return violf("%s needs at least %d MiB of memory for a file of %d blocks (%d MiB), but %d MiB for one of %d such blocks: memory grows with the file",
		c.Tool, last>>20, c.Many, size>>20, few>>20, c.Few)
}

func genC31(t *rapid.T) c31Case {
	c := c31Case{Tool: rapid.SampledFrom([]string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress", "blockcount", "entitycount", "entityfind"}).Draw(t, "tool"),
		Level: rapid.SampledFrom([]int{-1, 0, 0, 1}).Draw(t, "level"), Workers: rapid.SampledFrom([]int{1, 1, 2, 4}).Draw(t, "workers"), Align: rapid.IntRange(0, 4).Draw(t, "align"),
		Passes: rapid.IntRange(1, 3).Draw(t, "passes"), Few: 16, Many: 300, Tags: rapid.SampledFrom([]int{0, 1, 10, 1000}).Draw(t, "tags")}
	kinds := map[string][]int{"nodeindex": {kNode}, "wayindex": {kWay}, "rewritenodes": {kWay}, "relindex": {kRel}, "tagfilter": {kNode, kWay, kRel}}[c.Tool]
	if kinds == nil {
		kinds = []int{kNode, kWay, kRel}
	}
	c.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
	if c.Tool != "blockcount" && c.Tool != "entitycount" && c.Tool != "entityfind" {
		c.Hold = rapid.SampledFrom([]int{0, 0, 1, 2, 5, 12}).Draw(t, "hold")
	}
	if c.Tags < 1000 {
		c.Uniq = rapid.SampledFrom([]int{0, 0, 4000, 12000}).Draw(t, "uniq")
	}
	c.Seed = uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))
	size := rapid.IntRange(50, 80).Draw(t, "size") // in 10 kB, about
	switch c.Kind {
	case kNode:
		c.N = size * 1250
		c.Gap = rapid.SampledFrom([]int{0, 1, 2, 5}).Draw(t, "gap")
	case kWay:
		c.Len = rapid.SampledFrom([]int{5, 60, 500}).Draw(t, "len")
		c.N = size * 10000 / (12 + 3*c.Len)
	default:
		c.Len = rapid.SampledFrom([]int{5, 60}).Draw(t, "len")
		c.N = size * 5000 / (14 + 4*c.Len)
	}
	return c
}

func init() {
	register(&Property{ID: "C30", Tools: []string{"rewritenodes", "relindex", "dumpnodeindex", "dumpwayindex"}, Arms: []*Arm{
		arm("cut", 1500, "tool x generated PBF and index x lengths to which the index file is cut (at and beside the borders of its parts and anywhere) x workers, passes, memory targets; non-trivial: the index holds something",
			genC30, runC30, func(c c30Case) Class {
				nt := len(c.Ways) > 0
				if c.node() {
					nt = len(c.Idx.locs(&c.Doc)) > 0
				}
				return Class{nt, []string{c.Tool}}
			}),
	}})
	register(&Property{ID: "C31", Tools: []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress", "blockcount", "entitycount", "entityfind"}, Arms: []*Arm{
		arm("growth", 40, "tool x blocks of 0.25 to 0.8 MB of one kind x compression x workers x a writing operation that takes long: peak private memory for 16 and for 300 such blocks; non-trivial: all",
			genC31, runC31, func(c c31Case) Class {
				return Class{true, []string{c.Tool, fmt.Sprintf("workers=%d", c.Workers), fmt.Sprintf("hold=%v", c.Hold > 0), fmt.Sprintf("strings of one block=%v", c.Uniq > 0)}}
			}),
	}})
}
