package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"

	"pgregory.net/rapid"
)

// C14: truncated or malformed PBF input is rejected.

type c14Case struct {
	Doc     Doc
	Workers int
	Kind    string // cut, overrun, inner, varint, hlen, datasize, type, zcut, zflip, rawsize, none
	Pick    int    // which of the possible places
	A       uint64 // position or amount within it
	B       int
}

// which tools parse which message
var (
	readAll   = []string{"blockcount", "entitycount", "entityfind", "nodeindex", "rewritenodes", "wayindex", "relindex", "tagfilter", "decompress"}
	readBlob  = readAll[1:]
	readBlock = readAll[1:8]
	readMsg   = map[string][]string{
		"blob":        readBlob,
		"headerblob":  {"decompress"},
		"block":       readBlock,
		"group":       readBlock,
		"stringtable": {"tagfilter", "entityfind"},
		"dense":       {"nodeindex", "tagfilter", "entitycount", "entityfind"},
		"way":         {"wayindex", "rewritenodes", "tagfilter", "entitycount", "entityfind"},
		"relation":    {"relindex", "tagfilter", "entitycount", "entityfind"},
	}
	// packed fields whose values a tool needs
	readField = map[string][]string{
		"dense.id": {"nodeindex", "tagfilter", "entitycount", "entityfind"}, "dense.lat": {"nodeindex", "tagfilter", "entityfind"}, "dense.lon": {"nodeindex", "tagfilter", "entityfind"},
		"dense.keyvals": {"tagfilter", "entityfind"},
		"way.refs":      {"wayindex", "rewritenodes", "tagfilter", "entitycount", "entityfind"}, "way.keys": {"tagfilter", "entityfind"}, "way.vals": {"tagfilter", "entityfind"},
		"rel.keys": {"tagfilter", "entityfind"}, "rel.vals": {"tagfilter", "entityfind"}, "rel.roles": {"tagfilter", "entityfind"},
		"rel.memids": {"relindex", "tagfilter", "entityfind"}, "rel.types": {"relindex", "tagfilter", "entityfind"},
	}
)

// place is one field of the field tree of a document.
type place struct {
	blob  int
	f     *field
	after int // bytes of the enclosing message that follow the field
	in    string
}

type tree struct {
	doc    *Doc
	blob   [][]*field // fields of each Blob message
	block  [][]*field // fields of each block, nil when not a data block
	places []place
}

func (d *Doc) tree() *tree {
	t := &tree{doc: d, blob: make([][]*field, len(d.Blobs)), block: make([][]*field, len(d.Blobs))}
	for i := range d.Blobs {
		if b := &d.Blobs[i]; b.Block != nil && b.Type == "OSMData" {
			t.block[i] = b.Block.fields()
			t.walk(i, t.block[i], "block")
		}
	}
	return t
}

func (t *tree) walk(blob int, fs []*field, in string) {
	after := 0
	sizes := make([]int, len(fs))
	for i, f := range fs {
		sizes[i] = len(f.put(nil))
		after += sizes[i]
	}
	for i, f := range fs {
		after -= sizes[i]
		if !f.varint {
			t.places = append(t.places, place{blob, f, after, in})
		}
		if f.msg && readMsg[f.name] != nil {
			t.walk(blob, f.kids, f.name)
		}
	}
}

func overrun(n, after int, a uint64) uint64 {
	base := uint64(n + after)
	switch a % 8 {
	case 0:
		return base + 1
	case 1:
		return base + 2 + a/8%40
	case 2:
		return base + 100 + a/8%5000
	case 3:
		return base + 1<<31 + a/8%10
	case 4:
		return 1<<63 + a/8%50
	case 5:
		return 1<<64 - 1 - a/8%50 // a negative number of bytes
	case 6:
		return base + 1 + a/8%3
	default:
		return base + 1<<62
	}
}

// bytesWith serialises the document; edit may change the pieces of one blob.
func (t *tree) bytesWith(edit func(i int, typ *string, bf *[]*field, hf *[]*field, hlen *uint32)) []byte {
	var out []byte
	for i := range t.doc.Blobs {
		b := t.doc.Blobs[i]
		p := []byte(nil)
		if t.block[i] != nil {
			p = putFields(nil, t.block[i])
		} else {
			p = b.payload()
		}
		bf := b.blobFields(p)
		typ := b.Type
		var hlen uint32
		var hf []*field
		if edit != nil {
			edit(i, &typ, &bf, &hf, &hlen)
		}
		body := putFields(nil, bf)
		if hf == nil {
			hf = []*field{fBytes(1, []byte(typ), "header.type"), fVar(3, uint64(len(body)))}
			if b.Flip {
				hf[0], hf[1] = hf[1], hf[0]
			}
		}
		h := putFields(nil, hf)
		n := uint32(len(h))
		if hlen != 0 {
			n = hlen
		}
		out = binary.BigEndian.AppendUint32(out, n)
		out = append(append(out, h...), body...)
	}
	return out
}

// mutate returns the bad file, the tools that have to refuse it, and what was done.
func (c *c14Case) mutate() (b []byte, tools []string, what string) {
	t := c.Doc.tree()
	nb := len(c.Doc.Blobs)
	if c.Kind == "none" {
		return t.bytesWith(nil), readAll, "nothing"
	}
	if nb == 0 {
		return nil, nil, ""
	}
	pk := c.Pick % nb
	// blobs that hold data come first in the choice
	var data []int
	for i := range c.Doc.Blobs {
		if t.block[i] != nil {
			data = append(data, i)
		}
	}
	if len(data) > 0 && c.Pick%4 != 3 {
		pk = data[c.Pick/4%len(data)]
	}
	blobTools := readMsg["headerblob"]
	if t.block[pk] != nil {
		blobTools = readBlob
	}
	switch c.Kind {
	case "cut":
		b = t.bytesWith(nil)
		bounds := map[int]bool{0: true}
		p := 0
		for p < len(b) {
			hl := int(binary.BigEndian.Uint32(b[p:]))
			r := &rd{b: b[p+4 : p+4+hl]}
			size := 0
			for r.more() {
				if id, w := r.tag(); w == 2 {
					r.bytes()
				} else if v := r.uv(); id == 3 {
					size = int(v)
				}
			}
			start := p
			p += 4 + hl + size
			if c.B == 1 && start/7%nb == pk && c.Pick%3 == 0 { // near the start of a block
				c.A = uint64(start) + c.A%uint64(hl+8)
			}
			bounds[p] = true
		}
		n := int(c.A % uint64(len(b)))
		if bounds[n] {
			n++
		}
		if bounds[n] || n >= len(b) {
			return nil, nil, ""
		}
		return b[:n], readAll, fmt.Sprintf("file cut to %d of %d bytes", n, len(b))
	case "overrun", "inner":
		if len(t.places) == 0 {
			return nil, nil, ""
		}
		if c.Kind == "overrun" && c.B%5 == 0 { // a field of the Blob message or of its header
			return t.overrunBlob(pk, c, blobTools)
		}
		pl := t.places[c.Pick%len(t.places)]
		for k := 0; c.B%3 == 1 && !pl.f.msg && pl.f.name == "string" && k < len(t.places); k++ {
			pl = t.places[(c.Pick+k)%len(t.places)] // strings are the most numerous
		}
		f := pl.f
		if c.Kind == "overrun" {
			body := f.b
			if f.msg {
				body = putFields(nil, f.kids)
			}
			v := overrun(len(body), pl.after, c.A)
			f.lenOver = &v
			return t.bytesWith(nil), readMsg[pl.in], fmt.Sprintf("blob %d: field %s of %d bytes with length %d, its message ends %d bytes after it", pl.blob, f.name, len(body), int64(v), pl.after)
		}
		// a message cut inside one of its fields
		if !f.msg || readMsg[f.name] == nil || len(f.kids) == 0 {
			return nil, nil, ""
		}
		body := putFields(nil, f.kids)
		stop := map[int]bool{0: true}
		n := 0
		for _, k := range f.kids {
			n += len(k.put(nil))
			stop[n] = true
		}
		n = int(c.A % uint64(len(body)))
		if stop[n] {
			n++
		}
		if stop[n] || n >= len(body) {
			return nil, nil, ""
		}
		name := f.name
		*f = *fBytes(f.id, body[:n], f.name)
		return t.bytesWith(nil), readMsg[name], fmt.Sprintf("blob %d: %s message cut to %d of %d bytes", pl.blob, name, n, len(body))
	case "varint":
		var cand []place
		for _, pl := range t.places {
			if readField[pl.f.name] != nil && len(pl.f.b) > 0 {
				cand = append(cand, pl)
			}
		}
		if len(cand) == 0 {
			return nil, nil, ""
		}
		pl := cand[c.Pick%len(cand)]
		x := append([]byte(nil), pl.f.b...)
		x[len(x)-1] |= 0x80
		pl.f.b = x
		return t.bytesWith(nil), readField[pl.f.name], fmt.Sprintf("blob %d: the last varint of %s continues beyond the field", pl.blob, pl.f.name)
	case "hlen":
		total := len(t.bytesWith(nil))
		b = t.bytesWith(func(i int, _ *string, _, _ *[]*field, hlen *uint32) {
			if i == pk {
				*hlen = []uint32{uint32(total), 0x7fffffff, 0x80000000, 0xffffffff, uint32(total) + uint32(c.A%5000)}[c.B%5]
			}
		})
		return b, readAll, fmt.Sprintf("blob %d: header length beyond the end of the file", pk)
	case "datasize":
		total := len(t.bytesWith(nil))
		b = t.bytesWith(func(i int, typ *string, _ *[]*field, hf *[]*field, _ *uint32) {
			if i == pk {
				v := []uint64{uint64(total) + 1, 1<<31 - 1, uint64(total) + c.A%5000, 1 << 30, 1<<64 - 1 - c.A%100}[c.B%5]
				*hf = []*field{fBytes(1, []byte(*typ), ""), fVar(3, v)}
			}
		})
		return b, readAll, fmt.Sprintf("blob %d: data size beyond the end of the file", pk)
	case "type":
		n := []string{"OSMChange", "", "osmdata", "OSMData ", "OSMDat", "OSMHeader\x00", "OSMDATA", "IndexData", "Filler", "RelationData", "X"}[int(c.A%11)]
		b = t.bytesWith(func(i int, typ *string, _, _ *[]*field, _ *uint32) {
			if i == pk {
				*typ = n
			}
		})
		return b, readAll, fmt.Sprintf("blob %d has type %q", pk, n)
	case "zcut", "zflip", "rawsize":
		if c.Doc.Blobs[pk].Level < 0 {
			c.Doc.Blobs[pk].Level = 6
		}
		ok := false
		b = t.bytesWith(func(i int, _ *string, bf, _ *[]*field, _ *uint32) {
			if i != pk {
				return
			}
			var size, z *field
			for _, f := range *bf {
				if f.id == 2 {
					size = f
				} else {
					z = f
				}
			}
			want := size.v
			switch c.Kind {
			case "zcut":
				n := len(z.b)
				k := 1 + int(c.A%uint64(n))
				if c.B%2 == 0 {
					k = 1 + int(c.A%6)
				}
				if k > n {
					k = n
				}
				z.b = z.b[:n-k]
				what = fmt.Sprintf("blob %d: compressed data %d bytes short of %d", pk, k, n)
			case "zflip":
				x := append([]byte(nil), z.b...)
				pos := int(c.A / 8 % uint64(len(x)))
				if c.B%3 == 0 { // the checksum
					pos = len(x) - 1 - int(c.A/8%4)
				}
				x[pos] ^= 1 << (c.A % 8)
				z.b = x
				what = fmt.Sprintf("blob %d: bit %d of byte %d of %d compressed bytes flipped", pk, c.A%8, pos, len(x))
			case "rawsize":
				v := int64(size.v)
				switch c.B % 6 {
				case 0:
					v--
				case 1:
					v++
				case 2:
					v = 0
				case 3:
					v = int64(c.A % uint64(size.v+1))
				case 4:
					v += int64(c.A % 70000)
				default:
					v = -1 - int64(c.A%100)
				}
				size.v = uint64(v)
				what = fmt.Sprintf("blob %d: raw_size %d, data of %d bytes", pk, v, want)
			}
			ok = !zlibFine(z.b, int64(size.v))
		})
		if !ok {
			return nil, nil, ""
		}
		return b, blobTools, what
	}
	panic(c.Kind)
}

func (t *tree) overrunBlob(pk int, c *c14Case, blobTools []string) (b []byte, tools []string, what string) {
	if c.A%3 == 0 {
		b = t.bytesWith(func(i int, typ *string, bf *[]*field, hf *[]*field, _ *uint32) {
			if i == pk {
				size := fVar(3, uint64(len(putFields(nil, *bf))))
				ty := fBytes(1, []byte(*typ), "")
				v := overrun(len(*typ), len(size.put(nil)), c.A/3)
				ty.lenOver = &v
				*hf = []*field{ty, size}
				if c.B%2 == 1 {
					v = overrun(len(*typ), 0, c.A/3)
					*hf = []*field{size, ty}
				}
			}
		})
		return b, readAll, fmt.Sprintf("blob %d: the type in its header overruns the header", pk)
	}
	b = t.bytesWith(func(i int, _ *string, bf, _ *[]*field, _ *uint32) {
		if i != pk {
			return
		}
		after := 0
		for j := len(*bf) - 1; j >= 0; j-- {
			f := (*bf)[j]
			n := len(f.put(nil))
			if !f.varint {
				v := overrun(len(f.b), after, c.A/3)
				f.lenOver = &v
			}
			after += n
		}
	})
	return b, blobTools, fmt.Sprintf("blob %d: the data field overruns the blob", pk)
}

// zlibFine says whether a compressed stream is undamaged and inflates to exactly size bytes.
func zlibFine(z []byte, size int64) bool {
	r, err := zlib.NewReader(bytes.NewReader(z))
	if err != nil {
		return false
	}
	n, err := io.Copy(io.Discard, r)
	return err == nil && n == size
}

func runC14(e *Env, c c14Case) error {
	b, tools, what := c.mutate()
	if len(tools) == 0 {
		return nil
	}
	dir, done := e.dir()
	defer done()
	in := join(dir, "in.pbf")
	if err := writeFile(in, b); err != nil {
		return err
	}
	nx, wx := join(dir, "n.idx"), join(dir, "w.idx")
	if err := writeMapIdx(nx, map[int64]int64{5: -5, 6: -6, 9: -9}, false, 0); err != nil {
		return err
	}
	if err := writeSynWay(wx, []Way{{ID: 3, Refs: []int64{-4, 9}}}, 3, 0); err != nil {
		return err
	}
	for _, tl := range tools {
		a := []string{"-i", in, "-w", itoa(c.Workers)}
		switch tl {
		case "blockcount", "entitycount":
		case "entityfind":
			a = append(a, "-e", "1")
		default:
			a = append(a, "-r", "0", "-o", join(dir, tl+".out"))
		}
		switch tl {
		case "rewritenodes":
			a = append(a, "-x", nx)
		case "relindex":
			a = append(a, "-x", wx)
		}
		r, err := e.toolOpt(toolOpt{fsize: 256 << 20, cpu: 6, hang: true}, tl, a...)
		if err != nil {
			return err
		}
		switch {
		case r.Hung:
			return violf("%s does not end; input: %s", tl, what)
		case c.Kind == "none" && !r.ok():
			return violf("tool failed on valid input: %s", r)
		case c.Kind != "none" && r.ok():
			return violf("%s reports success; input: %s", tl, what)
		}
	}
	return nil
}

func init() {
	doc := func(t *rapid.T) Doc {
		o := docOpt{kinds: kNode | kWay | kRel, nodeTags: true, maxPer: 4, maxBlobs: 4, order: true, negRefs: true, coordFine: true}
		if oneIn(t, 5, "large") {
			o.bulk, o.bulkN = 1, 800
		}
		return genDoc(t, o)
	}
	gen := func(kinds ...string) func(t *rapid.T) c14Case {
		return func(t *rapid.T) c14Case {
			c := c14Case{Doc: doc(t), Workers: rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "w"), Kind: rapid.SampledFrom(kinds).Draw(t, "kind"),
				Pick: rapid.IntRange(0, 4000).Draw(t, "pick"), A: uint64(rapid.IntRange(0, 1<<24).Draw(t, "a")), B: rapid.IntRange(0, 59).Draw(t, "b")}
			return c
		}
	}
	cls := func(c c14Case) Class {
		_, tools, _ := c.mutate()
		l := []string{c.Kind}
		if len(tools) == 0 {
			l = append(l, "nothing to damage")
		}
		return Class{Nontrivial: len(tools) > 0, Labels: l}
	}
	register(&Property{ID: "C14", Tools: readAll, Arms: []*Arm{
		arm("truncated", 700, "valid file cut at a byte that is not a block boundary; every tool; non-trivial: a cut exists", gen("cut"), runC14, cls),
		arm("overrun", 2000, "one field length at any level set to run beyond its message (by 1 to 2^62 bytes, or negative); every tool that parses that message; non-trivial: such a field exists", gen("overrun"), runC14, cls),
		arm("inner", 1200, "a message cut inside one of its fields, or a packed field whose last varint continues past its end; non-trivial: such a message exists", gen("inner", "varint"), runC14, cls),
		arm("framing", 500, "header length or data size beyond the file, negative data size, unknown block types; non-trivial: the file has a block", gen("hlen", "datasize", "type", "type"), runC14, cls),
		arm("compressed", 1500, "compressed data cut short, a bit of it flipped, or a raw_size that differs; non-trivial: an independent inflater finds the data damaged or of another size", gen("zcut", "zflip", "rawsize", "rawsize"), runC14, cls),
		arm("scribbled", 900, "a data block with 1-6 random changes to its bytes, alone in a correct file and among blocks without entities; every tool: refuses what an independent walk over the wire format finds to overrun, ends, and takes the block for the same in both files; non-trivial: the block differs from the undamaged one", genScribbled, runScribbled, clsScribbled),
		arm("control", 120, "the same files undamaged: every tool succeeds; non-trivial: always", gen("none"), runC14, cls),
	}})
}
