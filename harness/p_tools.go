package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// C09 tagfilter, C10 decompress, C11 counting and finding, C20 dump tools.

// ---- C09 -------------------------------------------------------------------------------------

func absI(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

type flatDoc struct {
	nodes   []Node // coordinates in 1e-9 degree
	ways    []Way
	rels    []Rel
	headers [][]byte
}

// flatFile decodes a PBF strictly into its entities.
func flatFile(b []byte) (*flatDoc, error) {
	bl, err := decodeFile(b)
	if err != nil {
		return nil, err
	}
	out := &flatDoc{}
	for i, x := range bl {
		if x.Type != "OSMData" {
			if x.Type != "OSMHeader" {
				return nil, fmt.Errorf("block %d has type %q", i, x.Type)
			}
			out.headers = append(out.headers, x.Bytes)
			continue
		}
		d, err := decodeBlock(x.Payload)
		if err != nil {
			return nil, fmt.Errorf("block %d: %v", i, err)
		}
		if len(d.Strings) > 0 && d.Strings[0] != "" {
			return nil, fmt.Errorf("block %d: string 0 is %q", i, clipStr(d.Strings[0], 40))
		}
		for _, g := range d.Groups {
			for _, n := range g.Nodes {
				n.Lat, n.Lon = d.LatOff+int64(d.Gran)*n.Lat, d.LonOff+int64(d.Gran)*n.Lon
				out.nodes = append(out.nodes, n)
			}
			out.ways = append(out.ways, g.Ways...)
			out.rels = append(out.rels, g.Rels...)
		}
	}
	return out, nil
}

func (d *Doc) flat() *flatDoc {
	out := &flatDoc{}
	for i := range d.Blobs {
		x := &d.Blobs[i]
		if x.Type != "OSMData" {
			out.headers = append(out.headers, putFields(nil, x.blobFields(x.payload())))
			continue
		}
		for j := range x.Block.Groups {
			g := &x.Block.Groups[j]
			if g.Kind == kNode {
				for _, n := range g.nodes() {
					n.Lat, n.Lon = x.Block.LatOff+x.Block.gran()*n.Lat, x.Block.LonOff+x.Block.gran()*n.Lon
					out.nodes = append(out.nodes, n)
				}
			}
			if g.Kind == kWay {
				out.ways = append(out.ways, g.ways()...)
			}
			if g.Kind == kRel {
				out.rels = append(out.rels, g.rels()...)
			}
		}
	}
	return out
}

func sameTagSet(a, b []Tag) bool { return eqTagList(sortTags(a), sortTags(b)) }

// checkFiltered verifies the result of tagfilter on a document.
func checkFiltered(d *Doc, out []byte) error {
	got, err := flatFile(out)
	if err != nil {
		return violf("the output is not a valid PBF: %v", err)
	}
	in := d.flat()
	if len(in.headers) != len(got.headers) {
		return violf("%d header blocks became %d", len(in.headers), len(got.headers))
	}
	for i := range in.headers {
		if s := diffBytes(in.headers[i], got.headers[i]); s != "" {
			return violf("header block %d changed: %s", i, s)
		}
	}
	var want []Node
	for _, n := range in.nodes {
		var ts []Tag
		for _, t := range n.Tags {
			if !tagDeleted(t.K) {
				ts = append(ts, t)
			}
		}
		if len(ts) > 0 {
			n.Tags = ts
			want = append(want, n)
		}
	}
	for i, w := range want {
		if i >= len(got.nodes) || got.nodes[i].ID != w.ID {
			id := int64(-1)
			if i < len(got.nodes) {
				id = got.nodes[i].ID
			}
			return violf("kept node %d of %d should be %d with tags %q, found %d", i, len(want), w.ID, w.Tags, id)
		}
		g := got.nodes[i]
		if !sameTagSet(g.Tags, w.Tags) {
			return violf("node %d has tags %q, expected %q", w.ID, g.Tags, w.Tags)
		}
		if absI(g.Lat-w.Lat) >= 100 || absI(g.Lon-w.Lon) >= 100 || g.Lat/100 != w.Lat/100 || g.Lon/100 != w.Lon/100 {
			return violf("node %d is at (%d,%d) nanodegrees, was at (%d,%d)", w.ID, g.Lon, g.Lat, w.Lon, w.Lat)
		}
	}
	if len(got.nodes) != len(want) {
		return violf("%d nodes in the output, expected %d; first unexpected %+v", len(got.nodes), len(want), got.nodes[len(want)])
	}
	if len(got.ways) != len(in.ways) || len(got.rels) != len(in.rels) {
		return violf("%d ways and %d relations, had %d and %d", len(got.ways), len(got.rels), len(in.ways), len(in.rels))
	}
	for i, w := range in.ways {
		g := got.ways[i]
		if g.ID != w.ID || !sameTagSet(g.Tags, w.Tags) || !eqI64(g.Refs, w.Refs) {
			return violf("way %d: got id %d tags %q refs %s, expected id %d tags %q refs %s", i, g.ID, g.Tags, showI64(g.Refs), w.ID, w.Tags, showI64(w.Refs))
		}
	}
	for i, w := range in.rels {
		g := got.rels[i]
		if g.ID != w.ID || !sameTagSet(g.Tags, w.Tags) || !eqMem(g.Mem, w.Mem) {
			return violf("relation %d: got %+v, expected %+v", i, clipStr(fmt.Sprint(g), 400), clipStr(fmt.Sprint(w), 400))
		}
	}
	return nil
}

func runC09(e *Env, c docCase) error {
	dir, done := e.dir()
	defer done()
	in, out := join(dir, "in.pbf"), join(dir, "out.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	if err := e.simple("tagfilter", in, out, c.Workers); err != nil {
		return err
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return violf("no output: %v", err)
	}
	return checkFiltered(&c.Doc, b)
}

func init() {
	cls := func(c docCase) Class {
		l := docLabels(&c.Doc)
		del, keep, drop := 0, 0, 0
		c.Doc.eachNode(func(n *Node, _, _ int32) {
			k := 0
			for _, t := range n.Tags {
				if tagDeleted(t.K) {
					del++
				} else {
					k++
				}
			}
			if k > 0 {
				keep++
			} else {
				drop++
			}
		})
		if del > 0 {
			l = append(l, "deleted tags")
		}
		if keep > 0 {
			l = append(l, "kept nodes")
		}
		if drop > 0 {
			l = append(l, "dropped nodes")
		}
		n, w, r, _ := c.Doc.kinds()
		return Class{Nontrivial: n+w+r >= 2 && (keep > 0 || w+r > 0), Labels: l}
	}
	gen := func(o docOpt) func(t *rapid.T) docCase {
		return func(t *rapid.T) docCase { return docCase{Doc: genDoc(t, o), Workers: genWorkers(t)} }
	}
	register(&Property{ID: "C09", Tools: []string{"tagfilter"}, Arms: []*Arm{
		arm("mixed", 6000, "generated PBF whose keys come from the deletion lists, near misses of them and ordinary strings x workers; non-trivial: two entities and something to keep",
			gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, coordFine: true, order: true, negRefs: true, anyWayID: true, bigGaps: true, loose: true}), runC09, cls),
		arm("nodes", 5000, "tagged nodes", gen(docOpt{kinds: kNode, maxPer: 10, nodeTags: true, coordFine: true, loose: true}), runC09, cls),
		arm("rels", 1500, "ways and relations", gen(docOpt{kinds: kWay | kRel, maxPer: 8, negRefs: true, loose: true}), runC09, cls),
		arm("bulk", 250, "thousands of entities per block", gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, bulk: 1, bulkN: 9000, maxBlobs: 4}), runC09, cls),
		arm("long", 300, "ways of up to 2000 refs", func(t *rapid.T) docCase { return docCase{Doc: genFarDoc(t), Workers: genWorkers(t)} }, runC09, cls),
		arm("strings", 10, "blocks whose tags use up to 150000 different strings", genStringsDoc, runC09, cls),
		arm("giant", 5, "one block of 900000 to 1200000 nodes with tags, whose coordinates and often ids take more than 2 MiB", func(t *rapid.T) docCase {
			b := &Block{}
			b.Groups = append(b.Groups, Group{Kind: kNode, Bulk: &Bulk{Seed: uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed")), N: rapid.IntRange(900000, 1200000).Draw(t, "n"), First: rapid.Int64Range(1, 1000).Draw(t, "first"), Mode: rapid.IntRange(0, 4).Draw(t, "mode"), Tag: 1}})
			return docCase{Doc: Doc{Blobs: []Blob{headerBlob(t), {Type: "OSMData", Level: rapid.SampledFrom([]int{-1, 1}).Draw(t, "level"), Block: b}}}, Workers: genWorkers(t)}
		}, runC09, cls),
		arm("vast", 16, "ways and relations of 16384 to 100000 refs or members", func(t *rapid.T) docCase {
			return docCase{Doc: genVast(t, kWay|kRel, true), Workers: genWorkers(t)}
		}, runC09, cls),
		arm("keys", 160, "every listed key and prefix, alone and with one byte more, less or changed, on its own node", genKeysDoc, runC09, cls),
	}})
}

// genStringsDoc is a block with more strings than 16 bits can number, entities that use them may be few.
func genStringsDoc(t *rapid.T) docCase {
	seed := func(l string) uint64 { return uint64(rapid.IntRange(1, 1<<30).Draw(t, l)) }
	b := &Block{StrSeed: rapid.IntRange(0, 3).Draw(t, "strseed")}
	for _, k := range rapid.Permutation([]int{kNode, kWay, kRel}).Draw(t, "kinds") {
		n := rapid.SampledFrom([]int{0, 1, 300, 20000, 40000, 70000}).Draw(t, "n")
		if k != kNode && n > 300 {
			n /= 4
		}
		bk := &Bulk{Seed: seed("seed"), N: n, First: 1 + rapid.Int64Range(0, 1<<30).Draw(t, "first"), Mode: rapid.IntRange(0, 2).Draw(t, "mode"), Len: 2, Lo: 1, Hi: 1000, Tag: 1, Uniq: true}
		b.Groups = append(b.Groups, Group{Kind: k, Bulk: bk})
	}
	b.XStr = rapid.SampledFrom([]int{0, 0, 70000}).Draw(t, "xstr")
	return docCase{Doc: Doc{Blobs: []Blob{{Type: "OSMData", Level: rapid.SampledFrom([]int{-1, 1}).Draw(t, "level"), Block: b}}}, Workers: genWorkers(t)}
}

// genKeysDoc covers all list entries in each case, with generated variations of every one.
func genKeysDoc(t *rapid.T) docCase {
	b := &Block{}
	id := int64(0)
	g := Group{Kind: kNode}
	put := func(k S) {
		if k == "" {
			return
		}
		id += rapid.Int64Range(1, 3).Draw(t, "gap")
		n := Node{ID: id, Tags: []Tag{{k, genVal.Draw(t, "v")}}}
		if oneIn(t, 3, "also") {
			if x := rapid.SampledFrom(plainKeys).Draw(t, "other"); x != k {
				n.Tags = append(n.Tags, Tag{x, "y"})
			}
		}
		g.Nodes = append(g.Nodes, n)
	}
	all := append(append([]S{}, deleteTags...), deletePrefixes...)
	for _, k := range all {
		switch rapid.IntRange(0, 6).Draw(t, "var") {
		case 0:
			put(k)
		case 1:
			put(k + "x")
		case 2:
			put(k + ":")
		case 3:
			put(k[:len(k)-1])
		case 4:
			put("x" + k)
		case 5:
			put(S(strings.ToUpper(string(k))))
		default:
			put(S(strings.ToLower(string(k))))
		}
	}
	b.Groups = []Group{g}
	return docCase{Doc: Doc{Blobs: []Blob{headerBlob(t), {Type: "OSMData", Level: genLevel(t), Block: b}}}, Workers: genWorkers(t)}
}

// ---- C10 -------------------------------------------------------------------------------------

type payload struct {
	Type string
	Data []byte
}

func payloads(b []byte) ([]payload, error) {
	bl, err := decodeFile(b)
	if err != nil {
		return nil, err
	}
	var out []payload
	for _, x := range bl {
		out = append(out, payload{x.Type, x.Payload})
	}
	return out, nil
}

func eqPayloads(a, b []payload) error {
	if len(a) != len(b) {
		return fmt.Errorf("%d blocks became %d", len(a), len(b))
	}
	for i := range a {
		if a[i].Type != b[i].Type {
			return fmt.Errorf("block %d: type %q became %q", i, a[i].Type, b[i].Type)
		}
		if s := diffBytes(a[i].Data, b[i].Data); s != "" {
			return fmt.Errorf("block %d: payload changed: %s", i, s)
		}
	}
	return nil
}

func runC10(e *Env, c docCase) error {
	dir, done := e.dir()
	defer done()
	in, out, again := join(dir, "in.pbf"), join(dir, "out.pbf"), join(dir, "again.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	var want []payload
	for i := range c.Doc.Blobs {
		x := &c.Doc.Blobs[i]
		want = append(want, payload{x.Type, x.payload()})
	}
	if err := e.simple("decompress", in, out, c.Workers); err != nil {
		return err
	}
	check := func(p string) error {
		b, err := os.ReadFile(p)
		if err != nil {
			return violf("no output: %v", err)
		}
		bl, err := decodeFile(b)
		if err != nil {
			return violf("the output is not a valid PBF: %v", err)
		}
		var got []payload
		for i, x := range bl {
			if !x.Raw {
				return violf("block %d is still compressed", i)
			}
			got = append(got, payload{x.Type, x.Payload})
		}
		return wrap(eqPayloads(want, got), "decompress")
	}
	if err := check(out); err != nil {
		return err
	}
	if len(want) > 0 {
		if err := e.simple("decompress", out, again, c.Workers); err != nil {
			return err
		}
		return check(again)
	}
	return nil
}

type manyCase struct{ N, Fill, Step, Level, RawEvery, Workers int }

func (c *manyCase) doc() Doc {
	var d Doc
	for i := 0; i < c.N; i++ {
		b := Blob{Type: "OSMData", Level: c.Level, Head: S(fmt.Sprintf("block %d ", i)), Fill: c.Fill + i*c.Step}
		if c.RawEvery > 0 && i%c.RawEvery == 0 {
			b.Level = -1
		}
		d.Blobs = append(d.Blobs, b)
	}
	return d
}

// runC10Many: a worker must not see or change what another works on.
func runC10Many(e *Env, c manyCase) error {
	dir, done := e.dir()
	defer done()
	in, out := join(dir, "in.pbf"), join(dir, "out.pbf")
	d := c.doc()
	if err := d.write(in); err != nil {
		return err
	}
	var want []payload
	for i := range d.Blobs {
		want = append(want, payload{d.Blobs[i].Type, d.Blobs[i].payload()})
	}
	for i := 0; i < 2; i++ {
		r, err := e.toolOpt(toolOpt{fsize: -1, gomaxprocs: 8}, "decompress", "-r", "0", "-i", in, "-o", out, "-w", itoa(c.Workers))
		if err != nil {
			return err
		}
		if r.Exit != 0 {
			return violf("%s", r)
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return violf("no output: %v", err)
		}
		bl, err := decodeFile(b)
		if err != nil {
			return violf("the output is not a valid PBF: %v", err)
		}
		var got []payload
		for _, x := range bl {
			got = append(got, payload{x.Type, x.Payload})
		}
		if err := wrap(eqPayloads(want, got), "decompress"); err != nil {
			return err
		}
	}
	return nil
}

// runC10Tools: every other tool gives the same result on the decompressed file.
func runC10Tools(e *Env, c docCase) error {
	dir, done := e.dir()
	defer done()
	in, out := join(dir, "in.pbf"), join(dir, "out.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	if err := e.simple("decompress", in, out, c.Workers); err != nil {
		return err
	}
	o := allOpt{Workers: c.Workers, Align: c.Align, Passes: 1}
	a, err := e.runAll(join(dir, "a"), in, o)
	if err != nil {
		return err
	}
	b, err := e.runAll(join(dir, "b"), out, o)
	if err != nil {
		return err
	}
	for _, k := range sortedKeys(a) {
		if strings.HasSuffix(k, ".pbf") {
			x, err := payloads(a[k])
			if err != nil {
				return violf("%s: %v", k, err)
			}
			y, err := payloads(b[k])
			if err != nil {
				return violf("%s on the decompressed file: %v", k, err)
			}
			if err := eqPayloads(x, y); err != nil {
				return violf("%s differs between the compressed and the decompressed file: %v", k, err)
			}
			continue
		}
		if s := diffBytes(a[k], b[k]); s != "" {
			return violf("%s differs between the compressed and the decompressed file: %s", k, s)
		}
	}
	return nil
}

type allOpt struct {
	Workers, Align, Passes, Mem int
	Threads                     int
	Procs                       int
	Race                        bool
	Weave                       uint64
	Ask                         []uint64 // ids for entityfind
}

// runAll runs every tool that takes a PBF; the result maps a name to output bytes.
func (e *Env) runAll(dir, in string, o allOpt) (map[string][]byte, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	res := map[string][]byte{}
	to := toolOpt{fsize: -1, race: o.Race, weave: o.Weave, gomaxprocs: o.Procs}
	run := func(tool string, a ...string) (*toolResult, error) {
		a = append(a, "-w", itoa(o.Workers))
		if o.Threads > 0 {
			a = append(a, "--max-threads", itoa(o.Threads))
		}
		r, err := e.toolOpt(to, tool, a...)
		if err != nil {
			return nil, err
		}
		if o.Race && (r.Exit == 66 || strings.Contains(r.Stderr, "WARNING: DATA RACE")) {
			return r, violf("data race: %s: %s", strings.Join(r.Args, " "), clipStr(r.Stderr, 2500))
		}
		if !r.ok() {
			return r, violf("tool failed on valid input: %s", r)
		}
		return r, nil
	}
	file := func(name string) error {
		b, err := os.ReadFile(join(dir, name))
		if err != nil {
			return violf("no output %s: %v", name, err)
		}
		res[name] = b
		return nil
	}
	step := func(tool, out string, a ...string) error {
		if _, err := run(tool, append([]string{"-r", "0", "-o", join(dir, out)}, a...)...); err != nil {
			return err
		}
		return file(out)
	}
	if err := step("nodeindex", "node.idx", "-i", in); err != nil {
		return nil, err
	}
	a := []string{"-i", in, "-x", join(dir, "node.idx")}
	if o.Mem > 0 {
		a = append(a, "-m", itoa(o.Mem))
	}
	if err := step("rewritenodes", "rewritten.pbf", a...); err != nil {
		return nil, err
	}
	if err := step("wayindex", "way.idx", "-i", in, "-a", itoa(o.Align)); err != nil {
		return nil, err
	}
	p := o.Passes
	if p == 0 {
		p = 1
	}
	if err := step("relindex", "rel.idx", "-i", in, "-x", join(dir, "way.idx"), "-p", itoa(p)); err != nil {
		return nil, err
	}
	if err := step("tagfilter", "filtered.pbf", "-i", in); err != nil {
		return nil, err
	}
	if err := step("decompress", "decompressed.pbf", "-i", in); err != nil {
		return nil, err
	}
	for _, tl := range []string{"blockcount", "entitycount"} {
		r, err := run(tl, "-i", in)
		if err != nil {
			return nil, err
		}
		var keep []string
		for _, l := range strings.Split(r.Stdout, "\n") {
			if strings.HasPrefix(l, "Counted") {
				keep = append(keep, l)
			}
		}
		res[tl] = []byte(strings.Join(keep, "\n"))
	}
	if len(o.Ask) > 0 {
		a := []string{"-i", in}
		for _, id := range o.Ask {
			a = append(a, "-e", strconv.FormatUint(id, 10))
		}
		r, err := run("entityfind", a...)
		if err != nil {
			return nil, err
		}
		var ls []string
		for _, l := range strings.Split(r.Stdout, "\n") {
			if l == "" {
				continue
			}
			s, err := parseFind(l)
			if err != nil {
				return nil, violf("entityfind printed %q: %v", clipStr(l, 300), err)
			}
			ls = append(ls, s)
		}
		sort.Strings(ls)
		res["entityfind"] = []byte(strings.Join(ls, "\n"))
	}
	return res, nil
}

func init() {
	genBlob := rapid.Custom(func(t *rapid.T) Blob {
		b := Blob{Type: rapid.SampledFrom([]string{"OSMData", "OSMData", "OSMHeader"}).Draw(t, "type"), Level: genLevel(t), Flip: oneIn(t, 6, "flip"), RawSz: oneIn(t, 4, "rawsz")}
		switch wpick(t, "size", 3, 4, 3, 2) {
		case 0:
		case 1:
			b.Head = S(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "bytes"))
		case 2:
			b.Fill = rapid.SampledFrom([]int{1, 127, 128, 16383, 16384, 65535, 65536, 65537, 70000, 131072}).Draw(t, "fill")
		default:
			b.Fill = rapid.IntRange(1, 300000).Draw(t, "fill")
		}
		return b
	})
	cls := func(c docCase) Class {
		l := docLabels(&c.Doc)
		empty, big := false, false
		for i := range c.Doc.Blobs {
			x := &c.Doc.Blobs[i]
			if x.Block == nil && len(x.Head)+x.Fill == 0 {
				empty = true
			}
			if x.Fill > 65536 {
				big = true
			}
		}
		if empty {
			l = append(l, "empty payload")
		}
		if big {
			l = append(l, "payload > 65536")
		}
		return Class{Nontrivial: len(c.Doc.Blobs) >= 2, Labels: l}
	}
	register(&Property{ID: "C10", Tools: []string{"decompress", "nodeindex", "wayindex", "relindex", "rewritenodes", "tagfilter", "blockcount", "entitycount"}, Arms: []*Arm{
		arm("payload", 4000, "sequences of blocks with arbitrary payloads (empty to 300000 bytes), types, compression levels and field order x workers; non-trivial: at least two blocks",
			func(t *rapid.T) docCase {
				return docCase{Doc: Doc{Blobs: rapid.SliceOfN(genBlob, 1, 12).Draw(t, "blobs")}, Workers: genWorkers(t)}
			}, runC10, cls),
		arm("doc", 1500, "generated PBF x workers; non-trivial: at least two blocks",
			func(t *rapid.T) docCase {
				return docCase{Doc: genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, coordFine: true, order: true, maxBlobs: 9}), Workers: genWorkers(t)}
			}, runC10, cls),
		arm("large", 40, "payloads of 1 to 20 MB; non-trivial: at least two blocks", func(t *rapid.T) docCase {
			var d Doc
			n := rapid.IntRange(1, 4).Draw(t, "n")
			for i := 0; i < n; i++ {
				b := Blob{Type: "OSMData", Level: rapid.SampledFrom([]int{-1, 1, 0}).Draw(t, "lvl"), Fill: rapid.SampledFrom([]int{1 << 20, 2 << 20, 2<<20 - 1, 5000000, 20000000}).Draw(t, "fill")}
				d.Blobs = append(d.Blobs, b)
				if rapid.Bool().Draw(t, "small") {
					d.Blobs = append(d.Blobs, genBlob.Draw(t, "b"))
				}
			}
			return docCase{Doc: d, Workers: genWorkers(t)}
		}, runC10, cls),
		arm("many", 60, "30 to 250 compressed blocks of 5 to 100 KB, all different, x 4 to 33 workers, twice; non-trivial: always", func(t *rapid.T) manyCase {
			return manyCase{N: rapid.IntRange(30, 250).Draw(t, "n"), Fill: rapid.SampledFrom([]int{5000, 20000, 60000, 100000}).Draw(t, "fill"), Step: rapid.SampledFrom([]int{1, 1, 7, 100}).Draw(t, "step"),
				Level: rapid.SampledFrom([]int{1, 6, 0}).Draw(t, "lvl"), RawEvery: rapid.SampledFrom([]int{0, 0, 2, 5}).Draw(t, "raw"), Workers: rapid.SampledFrom([]int{16, 4, 8, 33}).Draw(t, "workers")}
		}, runC10Many, func(c manyCase) Class {
			return Class{Nontrivial: true, Labels: []string{fmt.Sprintf("workers=%d", c.Workers)}}
		}),
		arm("tools", 600, "every other tool on the original and on the decompressed file; non-trivial: at least two blocks",
			func(t *rapid.T) docCase {
				return docCase{Doc: genDoc(t, docOpt{kinds: kNode | kWay | kRel, nodeTags: true, coordFine: true, order: true, negRefs: true}), Workers: genWorkers(t), Align: genAlign(t)}
			}, runC10Tools, cls),
	}})
}

// ---- C11 -------------------------------------------------------------------------------------

type c11Case struct {
	Doc     Doc
	Workers int
	IDs     []uint64
}

func runC11(e *Env, c c11Case) error {
	dir, done := e.dir()
	defer done()
	in := join(dir, "in.pbf")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	var nodes, ways, rels, refs int
	var maxN, maxW, maxR, maxL int64
	var want []string
	ask := map[uint64]bool{}
	for _, id := range c.IDs {
		ask[id] = true
	}
	for _, n := range c.Doc.flat().nodes {
		nodes++
		maxN = maxI(maxN, n.ID)
		if ask[uint64(n.ID)] {
			want = append(want, showFind("node", n.ID, n.Tags, fmt.Sprintf("%d %d", n.Lat, n.Lon)))
		}
	}
	c.Doc.eachWay(func(w *Way) {
		ways++
		refs += len(w.Refs)
		maxW, maxL = maxI(maxW, w.ID), maxI(maxL, int64(len(w.Refs)))
		if ask[uint64(w.ID)] {
			want = append(want, showFind("way", w.ID, w.Tags, fmt.Sprint(w.Refs)))
		}
	})
	c.Doc.eachRel(func(r *Rel) {
		rels++
		maxR = maxI(maxR, r.ID)
		if ask[uint64(r.ID)] {
			var m []string
			for _, x := range r.Mem {
				m = append(m, fmt.Sprintf("%d/%d/%q", x.Type, x.ID, x.Role))
			}
			want = append(want, showFind("relation", r.ID, r.Tags, strings.Join(m, " ")))
		}
	})
	w := itoa(c.Workers)
	r, err := e.runOK("blockcount", "-i", in, "-w", w)
	if err != nil {
		return err
	}
	blobs := c.Doc.nblobs()
	if l := fmt.Sprintf("Counted %d blocks", blobs); !hasLine(r.Stdout, l) || strings.Count(r.Stdout, "Counted") != 1 {
		return violf("blockcount printed %q, expected %q", r.Stdout, l)
	}
	if r, err = e.runOK("entitycount", "-i", in, "-w", w); err != nil {
		return err
	}
	exp := fmt.Sprintf("Counted %d blocks\nCounted %d nodes, %d max\nCounted %d ways, %d max\nCounted %d ways refs, %d maximum length\nCounted %d relations, %d max\n",
		blobs, nodes, maxN, ways, maxW, refs, maxL, rels, maxR)
	for _, l := range strings.Split(strings.TrimSpace(exp), "\n") {
		if !hasLine(r.Stdout, l) {
			return violf("entitycount printed %q, expected %q", r.Stdout, l)
		}
	}
	if strings.Count(r.Stdout, "Counted") != 5 {
		return violf("entitycount printed %q, expected %q", r.Stdout, exp)
	}
	if len(c.IDs) == 0 {
		return nil
	}
	a := []string{"-i", in, "-w", w}
	for _, id := range c.IDs {
		a = append(a, "-e", strconv.FormatUint(id, 10))
	}
	if r, err = e.runOK("entityfind", a...); err != nil {
		return err
	}
	var got []string
	for _, l := range strings.Split(strings.TrimSuffix(r.Stdout, "\n"), "\n") {
		if l == "" {
			continue
		}
		s, err := parseFind(l)
		if err != nil {
			return violf("entityfind printed %q: %v", clipStr(l, 300), err)
		}
		got = append(got, s)
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got) || (i < len(want) && want[i] < got[i]):
			return violf("entityfind did not print %s (or printed it differently); it printed %d entities, expected %d", clipStr(want[i], 400), len(got), len(want))
		case i >= len(want) || got[i] < want[i]:
			return violf("entityfind printed %s, which is not in the file or was not asked for", clipStr(got[i], 400))
		}
	}
	return nil
}

func hasLine(s, l string) bool {
	for _, x := range strings.Split(s, "\n") {
		if strings.TrimSpace(x) == l {
			return true
		}
	}
	return false
}

func showFind(kind string, id int64, tags []Tag, rest string) string {
	var ts []string
	for _, t := range sortTags(tags) {
		ts = append(ts, fmt.Sprintf("%q=%q", t.K, t.V))
	}
	return fmt.Sprintf("%s %d {%s} %s", kind, id, strings.Join(ts, " "), rest)
}

// parseFind reads one line of entityfind (Go syntax) into the form of showFind.
func parseFind(l string) (string, error) {
	x, err := parser.ParseExpr(l)
	if err != nil {
		return "", err
	}
	if u, ok := x.(*ast.UnaryExpr); ok {
		x = u.X
	}
	c, ok := x.(*ast.CompositeLit)
	if !ok {
		return "", fmt.Errorf("not a composite")
	}
	sel, ok := c.Type.(*ast.SelectorExpr)
	if !ok {
		return "", fmt.Errorf("no type")
	}
	f := map[string]ast.Expr{}
	for _, el := range c.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return "", fmt.Errorf("no field name")
		}
		f[kv.Key.(*ast.Ident).Name] = kv.Value
	}
	num := func(x ast.Expr) (int64, error) {
		neg := false
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.SUB {
			neg, x = true, u.X
		}
		b, ok := x.(*ast.BasicLit)
		if !ok {
			return 0, fmt.Errorf("not a number")
		}
		v, err := strconv.ParseUint(b.Value, 0, 64)
		if neg {
			return -int64(v), err
		}
		return int64(v), err
	}
	list := func(x ast.Expr) ([]ast.Expr, error) {
		if id, ok := x.(*ast.CallExpr); ok && len(id.Args) == 1 { // []T(nil)
			return nil, nil
		}
		c, ok := x.(*ast.CompositeLit)
		if !ok {
			return nil, fmt.Errorf("not a list")
		}
		return c.Elts, nil
	}
	str := func(x ast.Expr) (S, error) {
		b, ok := x.(*ast.BasicLit)
		if !ok {
			return "", fmt.Errorf("not a string")
		}
		s, err := strconv.Unquote(b.Value)
		return S(s), err
	}
	nums := func(x ast.Expr) ([]int64, error) {
		es, err := list(x)
		if err != nil {
			return nil, err
		}
		var o []int64
		for _, e := range es {
			v, err := num(e)
			if err != nil {
				return nil, err
			}
			o = append(o, v)
		}
		return o, nil
	}
	id, err := num(f["Id"])
	if err != nil {
		return "", fmt.Errorf("Id: %v", err)
	}
	var tags []Tag
	es, err := list(f["Tags"])
	if err != nil {
		return "", fmt.Errorf("Tags: %v", err)
	}
	for _, e := range es {
		kv, ok := e.(*ast.KeyValueExpr)
		if !ok {
			return "", fmt.Errorf("Tags")
		}
		k, err := str(kv.Key)
		if err != nil {
			return "", err
		}
		v, err := str(kv.Value)
		if err != nil {
			return "", err
		}
		tags = append(tags, Tag{k, v})
	}
	switch sel.Sel.Name {
	case "HLNode":
		la, err := num(f["Lat"])
		if err != nil {
			return "", err
		}
		lo, err := num(f["Lon"])
		if err != nil {
			return "", err
		}
		return showFind("node", id, tags, fmt.Sprintf("%d %d", la, lo)), nil
	case "HLWay":
		ns, err := nums(f["Nodes"])
		if err != nil {
			return "", err
		}
		return showFind("way", id, tags, fmt.Sprint(ns)), nil
	case "HLRelation":
		ms, err := nums(f["Members"])
		if err != nil {
			return "", err
		}
		ts, err := nums(f["MemberType"])
		if err != nil {
			return "", err
		}
		rs, err := list(f["Roles"])
		if err != nil {
			return "", err
		}
		if len(ms) != len(ts) || len(ms) != len(rs) {
			return "", fmt.Errorf("%d members, %d types, %d roles", len(ms), len(ts), len(rs))
		}
		var m []string
		for i := range ms {
			r, err := str(rs[i])
			if err != nil {
				return "", err
			}
			m = append(m, fmt.Sprintf("%d/%d/%q", ts[i], ms[i], r))
		}
		return showFind("relation", id, tags, strings.Join(m, " ")), nil
	}
	return "", fmt.Errorf("type %s", sel.Sel.Name)
}

func init() {
	cls := func(c c11Case) Class {
		n, w, r, b := c.Doc.kinds()
		l := docLabels(&c.Doc)
		if len(c.IDs) > 1 {
			l = append(l, "several ids asked")
		}
		return Class{Nontrivial: n+w+r >= 2 && b >= 1, Labels: l}
	}
	gen := func(o docOpt) func(t *rapid.T) c11Case {
		return func(t *rapid.T) c11Case {
			d, g := genDocState(t, o)
			c := c11Case{Doc: d, Workers: genWorkers(t)}
			pool := []int64{1, 2, 3, 1 << 40}
			pool = append(append(pool, g.nodeIDs...), g.wayIDs...)
			d.eachRel(func(r *Rel) {
				if len(pool) < 500 {
					pool = append(pool, r.ID)
				}
			})
			n := rapid.IntRange(1, 6).Draw(t, "nask")
			for i := 0; i < n; i++ {
				c.IDs = append(c.IDs, uint64(rapid.SampledFrom(pool).Draw(t, "ask")))
			}
			if oneIn(t, 6, "askall") && len(pool) < 60 {
				for _, x := range pool {
					c.IDs = append(c.IDs, uint64(x))
				}
			}
			return c
		}
	}
	register(&Property{ID: "C11", Tools: []string{"blockcount", "entitycount", "entityfind"}, Arms: []*Arm{
		arm("mixed", 3000, "generated PBF x asked ids (present, absent, shared by kinds, repeated) x workers; non-trivial: at least two entities",
			gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, coordFine: true, order: true, negRefs: true, anyWayID: true, bigGaps: true, loose: true}), runC11, cls),
		arm("blocks", 1500, "many small blocks", gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, maxPer: 3, maxBlobs: 30, loose: true}), runC11, cls),
		arm("bulk", 150, "thousands of entities per block", gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, bulk: 1, bulkN: 9000, maxBlobs: 5}), runC11, cls),
		arm("vast", 16, "ways and relations of 16384 to 100000 refs or members", func(t *rapid.T) c11Case {
			return c11Case{Doc: genVast(t, kWay|kRel, true), Workers: genWorkers(t), IDs: []uint64{rapid.Uint64Range(1, 9).Draw(t, "ask"), 3}}
		}, runC11, cls),
		arm("far", 40, "files of more than 2^31 or 2^32 bytes (sparse), or with up to 70000 blocks", func(t *rapid.T) c11Case {
			c := gen(docOpt{kinds: kNode | kWay | kRel, nodeTags: true, maxPer: 4, maxBlobs: 6})(t)
			c.Doc = makeFar(t, c.Doc)
			return c
		}, runC11, cls),
	}})
}

// ---- C20 -------------------------------------------------------------------------------------

type c20Case struct {
	Doc        Doc
	Workers    int
	Align      int
	Subs       int
	Start, End int // element range, in 1/8 of the element count; End < 0: none
	P, S       bool
}

func stripPrefix(s string) []string {
	var o []string
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			o = append(o, l)
		}
	}
	return o
}

func expectNodeDump(ix *nodeIdx, from, to int, p, s bool) []string {
	var o []string
	for i := from; i < to && i < len(ix.Elems); i++ {
		x := ix.Elems[i]
		for j := uint64(0); j < x.Count; j++ {
			l := ix.Locs[x.Off+j]
			lo, la := decLoc(l)
			pos := fmt.Sprintf("%x (%f, %f)", uint64(l), float64(lo)/10_000_000, float64(la)/10_000_000)
			if p {
				if l == 0 {
					o = append(o, "Extract: skip")
				} else {
					o = append(o, fmt.Sprintf("Extract: %s [%d+%d=%d]", pos, x.First, j, x.First+j))
				}
			}
			if s {
				if l == 0 {
					o = append(o, " Search: skip")
				} else {
					o = append(o, " Search: "+pos)
				}
			}
		}
	}
	return o
}

func eqLines(got, want []string) error {
	for i := range want {
		if i >= len(got) {
			return fmt.Errorf("%d lines printed, expected %d; next should be %q", len(got), len(want), clipStr(want[i], 200))
		}
		if got[i] != want[i] {
			return fmt.Errorf("line %d is %q, expected %q", i+1, clipStr(got[i], 200), clipStr(want[i], 200))
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d lines printed, expected %d; extra %q", len(got), len(want), clipStr(got[len(want)], 200))
	}
	return nil
}

func runC20(e *Env, c c20Case) error {
	dir, done := e.dir()
	defer done()
	in, nf, wf := join(dir, "in.pbf"), join(dir, "n.idx"), join(dir, "w.idx")
	if err := c.Doc.write(in); err != nil {
		return err
	}
	if err := e.nodeindex(in, nf, c.Workers); err != nil {
		return err
	}
	if err := e.wayindex(in, wf, c.Workers, c.Align); err != nil {
		return err
	}
	nx, err := readNodeIdx(nf)
	if err != nil {
		return violf("node index: %v", err)
	}
	wx, err := readWayIdx(wf)
	if err != nil {
		return violf("way index: %v", err)
	}
	fl := []string{}
	if c.P {
		fl = append(fl, "-p")
	}
	if c.S {
		fl = append(fl, "-s")
	}
	dump := func(tool, f string, more ...string) ([]string, error) {
		r, err := e.runOK(tool, append(append([]string{"-i", f}, fl...), more...)...)
		if err != nil {
			return nil, err
		}
		return stripPrefix(r.Stdout), nil
	}
	n := len(nx.Elems)
	g, err := dump("dumpnodeindex", nf)
	if err != nil {
		return err
	}
	full := expectNodeDump(nx, 0, n, c.P, c.S)
	if err := eqLines(g, full); err != nil {
		return violf("dumpnodeindex: %v", err)
	}
	// element range
	from, to := n*c.Start/8, n
	more := []string{"--start-element", itoa(from)}
	if c.End >= 0 {
		to = n * c.End / 8
		if c.End == 9 {
			to = n + 3
		}
		more = append(more, "--end-element", itoa(to))
		if c.Start == 0 {
			more = more[2:]
		}
	}
	if g, err = dump("dumpnodeindex", nf, more...); err != nil {
		return err
	}
	if err := eqLines(g, expectNodeDump(nx, from, to, c.P, c.S)); err != nil {
		return violf("dumpnodeindex %v: %v", more, err)
	}
	// sub-indexes
	var all []string
	var bounds []int // the elements of sub-index i are bounds[i] to bounds[i+1]
	at, lines := 0, 0
	for i := 0; i < c.Subs; i++ {
		g, err := dump("dumpnodeindex", nf, "--sub-index-index", itoa(i), "--sub-index-count", itoa(c.Subs))
		if err != nil {
			return err
		}
		bounds = append(bounds, at)
		all = append(all, g...)
		for per := b2i(c.P) + b2i(c.S); at < n && lines+int(nx.Elems[at].Count)*per <= len(all); at++ {
			lines += int(nx.Elems[at].Count) * per
		}
	}
	bounds = append(bounds, at)
	if err := eqLines(all, full); err != nil {
		return violf("dumpnodeindex with %d sub-indexes: %v", c.Subs, err)
	}
	// an element range of a sub-index
	sub := (c.Start + c.End + 1) % c.Subs
	lo, hi := bounds[sub], bounds[sub+1]
	from, to = lo+(hi-lo)*c.Start/8, hi
	more = []string{"--sub-index-index", itoa(sub), "--sub-index-count", itoa(c.Subs), "--start-element", itoa(from - lo)}
	if c.End >= 0 {
		to = lo + (hi-lo)*c.End/8
		if c.End == 9 {
			to = hi
			more = append(more, "--end-element", itoa(hi-lo+3))
		} else {
			more = append(more, "--end-element", itoa(to-lo))
		}
	}
	if g, err = dump("dumpnodeindex", nf, more...); err != nil {
		return err
	}
	if err := eqLines(g, expectNodeDump(nx, from, to, c.P, c.S)); err != nil {
		return violf("dumpnodeindex %v: %v", more, err)
	}
	// ways
	line := func(x wayElem) string { return fmt.Sprintf("%d %v", x.ID, x.Loc) }
	var want []string
	for _, x := range wx.Elems {
		if c.P {
			want = append(want, line(x))
		}
		if c.S {
			want = append(want, line(x))
		}
	}
	if g, err = dump("dumpwayindex", wf); err != nil {
		return err
	}
	if err := eqLines(g, want); err != nil {
		return violf("dumpwayindex: %v", err)
	}
	if !c.S {
		return nil
	}
	found := map[int64]int{}
	for i := 0; i < c.Subs; i++ {
		g, err := dump("dumpwayindex", wf, "--sub-index-index", itoa(i), "--sub-index-count", itoa(c.Subs))
		if err != nil {
			return err
		}
		var exp []string
		k := 0
		for _, x := range wx.Elems {
			if c.P {
				exp = append(exp, line(x))
				k++
			}
			miss := fmt.Sprintf("XX failed to find way %d", x.ID)
			if k < len(g) && g[k] == miss {
				exp = append(exp, miss)
			} else {
				exp = append(exp, line(x))
				found[x.ID]++
			}
			k++
		}
		if err := eqLines(g, exp); err != nil {
			return violf("dumpwayindex sub-index %d of %d: %v", i, c.Subs, err)
		}
	}
	for _, x := range wx.Elems {
		if found[x.ID] == 0 {
			return violf("dumpwayindex finds way %d in none of %d sub-indexes", x.ID, c.Subs)
		}
	}
	return nil
}

func init() {
	gen := func(o docOpt) func(t *rapid.T) c20Case {
		return func(t *rapid.T) c20Case {
			c := c20Case{Doc: genDoc(t, o), Workers: genWorkers(t), Align: genAlign(t), Subs: rapid.IntRange(1, 5).Draw(t, "subs"),
				Start: rapid.IntRange(0, 8).Draw(t, "start"), End: rapid.IntRange(-1, 9).Draw(t, "end"), P: true, S: true}
			switch rapid.IntRange(0, 5).Draw(t, "flags") {
			case 4:
				c.S = false
			case 5:
				c.P = false
			}
			return c
		}
	}
	register(&Property{ID: "C20", Tools: []string{"nodeindex", "wayindex", "dumpnodeindex", "dumpwayindex"}, Arms: []*Arm{
		arm("built", 1500, "indexes built from generated PBF x element range x sub-index count x options; non-trivial: at least two nodes and a way",
			gen(docOpt{kinds: kNode | kWay, maxPer: 8, coordFine: true, negRefs: true, bigGaps: true, staged: true}), runC20, func(c c20Case) Class {
				n, w, _, _ := c.Doc.kinds()
				return Class{Nontrivial: n >= 2 && w >= 1, Labels: docLabels(&c.Doc)}
			}),
		arm("bulk", 60, "indexes of thousands of nodes and ways",
			gen(docOpt{kinds: kNode | kWay, bulk: 1, bulkN: 6000, negRefs: true, maxBlobs: 3, staged: true}), runC20, func(c c20Case) Class {
				n, w, _, _ := c.Doc.kinds()
				return Class{Nontrivial: n >= 2 && w >= 1, Labels: docLabels(&c.Doc)}
			}),
	}})
}
