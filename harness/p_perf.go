package main

import (
	"fmt"
	"os"
	"time"

	"pgregory.net/rapid"
)

// C33: processing time is in proportion to the size of the input.

type c33Case struct {
	Tool    string
	Kind    int
	Dim     string // what there is Factor times as much of
	Factor  int
	Blocks  int
	Ents    int // per block
	Len     int // tags per node, references per way, members per relation
	Strs    int // different strings per block
	Gap     int // ids between two entities
	Group   int // entities per primitive group
	Size    int // elements of the index
	Per     int // locations per element of the index
	Back    bool
	Passes  int
	Level   int
	Workers int
	Align   int
	Seed    uint64
}

func (c *c33Case) scaled() c33Case {
	x := *c
	switch c.Dim {
	case "blocks":
		x.Blocks *= c.Factor
	case "entities":
		x.Ents *= c.Factor
	case "groups": // as many more entities, each group as large as before
		x.Ents *= c.Factor
	case "length":
		x.Len *= c.Factor
	case "strings":
		x.Strs *= c.Factor
	case "index":
		x.Size *= c.Factor
	case "per":
		x.Per *= c.Factor
	case "distinct": // strings, and entities that use them
		x.Ents *= c.Factor
		x.Strs *= c.Factor
	case "dataset": // entities, and the part of the index they refer to
		x.Ents *= c.Factor
		x.Size *= c.Factor
	}
	return x
}

// span is the largest id looked up.
func (c *c33Case) span() int64 {
	switch c.Tool {
	case "rewritenodes":
		return maxI(1, int64(c.Size)*int64(c.Per+1))
	case "relindex":
		return maxI(1, 2*int64(c.Size))
	}
	return 1 << 33
}

func (c *c33Case) write(path string) (int64, error) {
	f, err := os.Create(path)
	if err != nil {
		return 0, err
	}
	defer f.Close()
	if _, err := f.Write(frame("OSMHeader", putFields(nil, (&Blob{Type: "OSMHeader", Level: -1}).blobFields([]byte("\x22\x0eOsmSchema-V0.6\x22\x0aDenseNodes"))), false)); err != nil {
		return 0, err
	}
	r := &rng{c.Seed}
	put := func(b []byte, id int, x []byte) []byte {
		b = putVar(b, uint64(id<<3|2))
		b = putVar(b, uint64(len(x)))
		return append(b, x...)
	}
	next := int64(1)
	size := int64(0)
	var m, group []byte
	for k := 0; k < c.Blocks; k++ {
		var st []byte
		st = put(st, 1, nil)
		for i := 0; i < c.Strs; i++ {
			st = put(st, 1, []byte(fmt.Sprintf("a rather long key or value %d", i)))
		}
		payload := put(nil, 1, st)
		for at := 0; at < c.Ents; at += c.Group {
			group = group[:0]
			n := min(c.Group, c.Ents-at)
			if c.Kind == kNode {
				var ids, lat, lon, kv []byte
				last := int64(0)
				for i := 0; i < n; i++ {
					ids = putVar(ids, zz(next-last))
					last = next
					next += int64(c.Gap + 1)
					lat, lon = putVar(lat, zz(r.n(2000001)-1000000)), putVar(lon, zz(r.n(2000001)-1000000))
					if c.Strs > 0 {
						for j := 0; j < c.Len; j++ {
							kv = putVar(kv, uint64(1+r.n(int64(c.Strs))))
							kv = putVar(kv, uint64(1+r.n(int64(c.Strs))))
						}
						kv = append(kv, 0)
					}
				}
				m = put(m[:0], 1, ids)
				m = put(m, 8, lat)
				m = put(m, 9, lon)
				if c.Strs > 0 {
					m = put(m, 10, kv)
				}
				group = put(group, 2, m)
			} else {
				for i := 0; i < n; i++ {
					m = putVar(append(m[:0], 1<<3), uint64(next))
					next += int64(c.Gap + 1)
					var keys, vals, refs, roles, types []byte
					for j := 0; j < 3 && c.Strs > 0; j++ {
						keys = putVar(keys, uint64(1+r.n(int64(c.Strs))))
						vals = putVar(vals, uint64(1+r.n(int64(c.Strs))))
					}
					if c.Strs > 0 {
						m = put(m, 2, keys)
						m = put(m, 3, vals)
					}
					last := int64(0)
					for j := 0; j < c.Len; j++ {
						v := 1 + r.n(c.span())
						refs = putVar(refs, zz(v-last))
						last = v
						types = append(types, byte(1))
						roles = putVar(roles, uint64(r.n(int64(c.Strs)+1)))
					}
					if c.Kind == kWay {
						m = put(m, 8, refs)
						group = put(group, 3, m)
					} else {
						m = put(m, 8, roles)
						m = put(m, 9, refs)
						m = put(m, 10, types)
						group = put(group, 4, m)
					}
				}
			}
			payload = put(payload, 2, group)
		}
		b := Blob{Type: "OSMData", Level: c.Level}
		x := frame("OSMData", putFields(nil, b.blobFields(payload)), false)
		size += int64(len(payload))
		if _, err := f.Write(x); err != nil {
			return 0, err
		}
	}
	return size, nil
}

// time33 is the least CPU time of n runs.
func (c *c33Case) time33(e *Env, dir string, n int, limit time.Duration, again bool) (time.Duration, error) {
	in, nx, wx, od := join(dir, "in.pbf"), join(dir, "n.idx"), join(dir, "w.idx"), join(dir, "o")
	if c.Tool == "rewritenodes" || c.Tool == "dumpnodeindex" {
		var s synIdx
		for i := 0; i < c.Size; i++ {
			s.Elems = append(s.Elems, synElem{Gap: 2, Count: int64(c.Per)})
		}
		if err := s.write(nx, nil); err != nil {
			return 0, err
		}
	}
	if c.Tool == "relindex" || c.Tool == "dumpwayindex" {
		var ws []Way
		for i := 0; i < c.Size; i++ {
			w := Way{ID: int64(2*i + 2), Refs: make([]int64, c.Per)}
			for j := range w.Refs {
				w.Refs[j] = pseudoLoc(uint64(i*c.Per + j))
			}
			ws = append(ws, w)
		}
		if err := writeSynWay(wx, ws, c.Align, 0); err != nil {
			return 0, err
		}
	}
	var a []string
	switch c.Tool {
	case "dumpnodeindex":
		a = []string{"-i", nx, "-s"}
		if c.Back {
			a = append(a, "-p")
		}
	case "dumpwayindex":
		a = []string{"-i", wx, "-p", "-s"}
	default:
		if _, err := c.write(in); err != nil {
			return 0, err
		}
		a = []string{"-i", in}
		if c.Tool != "blockcount" {
			a = append(a, "-w", itoa(c.Workers))
		}
		switch c.Tool {
		case "blockcount", "entitycount":
		case "entityfind":
			a = append(a, "-e", "1", "-e", "1000", "-e", "4000000000")
		default:
			a = append(a, "-r", "0", "-o", join(od, "out"))
		}
		switch c.Tool {
		case "wayindex":
			a = append(a, "-a", itoa(c.Align))
		case "rewritenodes":
			a = append(a, "-x", nx)
		case "relindex":
			a = append(a, "-x", wx, "-p", itoa(c.Passes))
		}
	}
	var best time.Duration
	for i := 0; i < n; i++ {
		if err := os.MkdirAll(od, 0o755); err != nil {
			return 0, err
		}
		var u time.Duration
		o := toolOpt{fsize: -1, used: &u, hang: true, gomaxprocs: 2, stdout: "/dev/null"}
		o.cpu = int(limit/time.Second) + 1
		r, err := e.toolOpt(o, c.Tool, a...)
		os.RemoveAll(od)
		if err != nil {
			return 0, err
		}
		over := u > limit
		if !r.ok() && !over {
			return 0, violf("tool failed on valid input: %s", r)
		}
		if i == 0 || u < best {
			best = u
		}
		if !again && !over || again && over {
			return best, nil
		}
	}
	return best, nil
}

func runC33(e *Env, c c33Case) error {
	dir, done := e.dir()
	defer done()
	few, err := c.time33(e, dir, 3, 20*time.Second, true)
	if err != nil {
		return err
	}
	if few > 20*time.Second { // 20 to 100 ms
		return violf("%s takes over 20 s of CPU time for a small file", c.Tool)
	}
	x := c.scaled()
	lim := time.Duration(float64(maxI(int64(few), int64(8*time.Millisecond)))*float64(c.Factor)*3.5) + 300*time.Millisecond
	many, err := x.time33(e, dir, 3, lim, false)
	if err != nil {
		return err
	}
	if os.Getenv("VERIF_PERF") != "" {
		perfLog("PERF %-12s kind=%d %-8s few %v many %v ratio %.1f of limit %.2f\n", c.Tool, c.Kind, c.Dim, few, many, float64(many)/float64(few), float64(many)/float64(lim))
	}
	if many > lim {
		return violf("%s takes %v of CPU time for %d times as many %s as in a file that takes %v, three times in a row (killed at that)", c.Tool, many.Round(time.Millisecond), c.Factor, map[string]string{"length": "tags, references or members per entity", "index": "index elements", "per": "locations per index element", "strings": "different strings", "distinct": "entities and strings", "dataset": "entities and index elements"}[c.Dim]+map[string]string{"blocks": "blocks", "entities": "entities per block", "groups": "groups per block"}[c.Dim], few.Round(time.Millisecond))
	}
	return nil
}

func genC33(t *rapid.T) c33Case {
	pbfTools := []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress", "blockcount", "entitycount", "entityfind"}
	c := c33Case{Tool: rapid.SampledFrom(append(pbfTools, "dumpnodeindex", "dumpwayindex", "tagfilter", "rewritenodes", "relindex")).Draw(t, "tool"), Factor: 16, Blocks: 2, Ents: 2000, Len: 4, Strs: 20, Group: 1 << 30, Size: 500, Per: 8,
		Level: rapid.SampledFrom([]int{-1, 1}).Draw(t, "level"), Workers: rapid.SampledFrom([]int{1, 2}).Draw(t, "workers"), Align: rapid.IntRange(0, 3).Draw(t, "align"),
		Passes: rapid.IntRange(1, 2).Draw(t, "passes"), Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), Gap: rapid.SampledFrom([]int{0, 0, 1, 70}).Draw(t, "gap"), Back: rapid.Bool().Draw(t, "back")}
	dims := []string{"blocks", "entities", "groups", "length", "strings", "distinct"}
	switch c.Tool {
	case "nodeindex":
		c.Kind = kNode
	case "wayindex":
		c.Kind = kWay
	case "rewritenodes":
		c.Kind = kWay
		dims = append(dims, "index", "per", "dataset", "dataset")
	case "relindex":
		c.Kind = kRel
		dims = append(dims, "index", "per", "dataset", "dataset")
	case "dumpnodeindex", "dumpwayindex":
		dims = []string{"index", "per"}
	case "tagfilter":
		c.Kind = rapid.SampledFrom([]int{kNode, kNode, kNode, kWay}).Draw(t, "kind")
	default:
		c.Kind = rapid.SampledFrom([]int{kNode, kWay, kRel}).Draw(t, "kind")
	}
	c.Dim = rapid.SampledFrom(dims).Draw(t, "dim")
	z := rapid.IntRange(7, 12).Draw(t, "size")
	switch c.Dim {
	case "blocks":
		c.Blocks, c.Ents = z*6, 300
	case "entities":
		c.Blocks, c.Ents = 1, z*2000
		if c.Kind == kNode {
			c.Ents *= 2
		}
	case "groups":
		c.Blocks, c.Ents, c.Group = 1, z*1200, rapid.SampledFrom([]int{1, 2, 10}).Draw(t, "group")
		if c.Kind != kNode {
			c.Ents /= 2
		}
	case "length":
		c.Blocks, c.Ents, c.Len = 1, rapid.SampledFrom([]int{8, 20, 100}).Draw(t, "ents"), 1
		c.Len = z * 7200 / c.Ents // an entity of more than 2 MiB can't be written
	case "strings":
		c.Blocks, c.Ents, c.Strs = 1, 2000, z*2000
		c.Len = 8
		if oneIn(t, 2, "rare") { // hardly any string is used
			c.Ents, c.Len = 10, 1
		}
	case "distinct":
		c.Blocks, c.Ents, c.Len = 1, z*200, 2
		c.Strs = c.Ents * rapid.IntRange(1, 4).Draw(t, "strs")
	case "dataset":
		c.Blocks, c.Ents, c.Len, c.Size, c.Per = 1, z*100, 20, z*1000, 2
		if c.Tool == "relindex" {
			c.Len = 5
		}
	case "index":
		c.Size, c.Per = z*2000, 2
		c.Ents, c.Len = 1000, 20
	case "per":
		c.Size, c.Per = 10, z*200
		c.Ents, c.Len = 200, 4
		if c.Tool != "relindex" {
			c.Per *= 3
		}
	}
	return c
}

func init() {
	register(&Property{ID: "C33", Tools: []string{"nodeindex", "wayindex", "rewritenodes", "relindex", "tagfilter", "decompress", "blockcount", "entitycount", "entityfind", "dumpnodeindex", "dumpwayindex"}, Arms: []*Arm{
		arm("scale", 120, "tool x one dimension of its input (blocks, entities or groups per block, tags or references or members per entity, strings per block, elements or locations of the index): CPU time for a file and for one with 16 times as much of it; non-trivial: all",
			genC33, runC33, func(c c33Case) Class { return Class{true, []string{c.Tool, c.Dim}} }),
	}})
}

func perfLog(f string, a ...any) {
	l, err := os.OpenFile(os.Getenv("VERIF_PERF"), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0o644)
	if err == nil {
		fmt.Fprintf(l, f, a...)
		l.Close()
	}
}
