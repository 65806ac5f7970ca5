package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"
)

// C14, arm scribbled: bytes of a data block changed at random, in a frame that is all right.  Three things are known
// about every such file without knowing what it means: a message with a field that runs beyond it has to be refused
// by the tools that parse it (found by an independent walk over the wire format); a tool ends; and neither its
// success nor what it makes of the block depends on what lies before and behind the block in the file.

type scribble struct {
	Op  int // 0 flip a bit, 1 set, 2 insert, 3 delete, 4 copy a range over another, 5 set to a continued varint byte
	At  int
	End bool // counted from the end
	V   int
}

type scribbledCase struct {
	Doc     Doc
	Pick    int
	Muts    []scribble
	Level   int
	Workers int
	Near    S // strings of the block's neighbours
	NearN   int
}

func (c *scribbledCase) payload() ([]byte, int) {
	var data []int
	for i := range c.Doc.Blobs {
		if b := &c.Doc.Blobs[i]; b.Block != nil && b.Type == "OSMData" {
			data = append(data, i)
		}
	}
	if len(data) == 0 {
		return nil, -1
	}
	pk := data[c.Pick%len(data)]
	p := append([]byte{}, c.Doc.Blobs[pk].payload()...)
	for _, m := range c.Muts {
		if len(p) == 0 {
			break
		}
		i := m.At % len(p)
		if m.End {
			i = len(p) - 1 - i
		}
		switch m.Op {
		case 0:
			p[i] ^= 1 << uint(m.V%8)
		case 1:
			p[i] = byte(m.V)
		case 2:
			p = append(p[:i], append([]byte{byte(m.V)}, p[i:]...)...)
		case 3:
			n := min(1+m.V%4, len(p)-i)
			p = append(p[:i], p[i+n:]...)
		case 4:
			n := min(1+m.V%16, len(p)-i)
			j := (m.V / 16) % len(p)
			copy(p[j:], append([]byte{}, p[i:i+n]...))
		case 5:
			p[i] |= 0x80
		}
	}
	return p, pk
}

// wireWalk finds the messages and packed fields that certainly run beyond their end.  It gives up on a message as soon
// as something unusual but possibly meaningful comes.
func wireWalk(b []byte, in string, bad map[string]bool) {
	type sub struct{ msg, packed string }
	subs := map[string]map[uint64]sub{
		"block":    {1: {msg: "stringtable"}, 2: {msg: "group"}},
		"group":    {2: {msg: "dense"}, 3: {msg: "way"}, 4: {msg: "relation"}},
		"dense":    {1: {packed: "dense.id"}, 8: {packed: "dense.lat"}, 9: {packed: "dense.lon"}, 10: {packed: "dense.keyvals"}},
		"way":      {2: {packed: "way.keys"}, 3: {packed: "way.vals"}, 8: {packed: "way.refs"}},
		"relation": {2: {packed: "rel.keys"}, 3: {packed: "rel.vals"}, 8: {packed: "rel.roles"}, 9: {packed: "rel.memids"}, 10: {packed: "rel.types"}},
	}
	known := map[string]string{ // field:wire type
		"block": " 1:2 2:2 17:0 18:0 19:0 20:0 ", "group": " 2:2 3:2 4:2 ", "stringtable": " 1:2 ",
		"dense": " 1:2 5:2 8:2 9:2 10:2 ", "way": " 1:0 2:2 3:2 4:2 8:2 ", "relation": " 1:0 2:2 3:2 4:2 8:2 9:2 10:2 ",
	}
	// 1: ends within, 2: unusual
	uv := func(b []byte) (v uint64, n int, st int) {
		for i := 0; ; i++ {
			if i == len(b) {
				return 0, 0, 1
			}
			if i == 9 {
				return 0, 0, 2
			}
			v |= uint64(b[i]&0x7f) << (7 * uint(i))
			if b[i] < 0x80 {
				return v, i + 1, 0
			}
		}
	}
	for len(b) > 0 {
		tag, n, st := uv(b)
		if st == 1 {
			bad[in] = true
		}
		if st != 0 || !strings.Contains(known[in], fmt.Sprintf(" %d:%d ", tag>>3, tag&7)) {
			return
		}
		b = b[n:]
		v, n, st := uv(b)
		if st == 1 {
			bad[in] = true
		}
		if st != 0 {
			return
		}
		b = b[n:]
		if tag&7 == 0 {
			continue
		}
		if v > uint64(len(b)) {
			bad[in] = true
			return
		}
		body := b[:v]
		b = b[v:]
		switch s := subs[in][tag>>3]; {
		case s.msg != "":
			wireWalk(body, s.msg, bad)
		case s.packed != "":
			for len(body) > 0 {
				_, n, st := uv(body)
				if st == 1 {
					bad[s.packed] = true
				}
				if st != 0 {
					break
				}
				body = body[n:]
			}
		}
	}
}

// near is a data block without entities whose bytes look like parts of messages.
func (c *scribbledCase) near(n int) []byte {
	var st []byte
	for i := 0; i < n; i++ {
		st = putField(st, 1, []byte(c.Near))
	}
	return putField(nil, 1, st)
}

func putField(b []byte, id int, p []byte) []byte { return fBytes(id, p, "").put(b) }

func (c *scribbledCase) frame(p []byte) []byte {
	b := Blob{Type: "OSMData", Level: c.Level}
	return frame("OSMData", putFields(nil, b.blobFields(p)), false)
}

func runScribbled(e *Env, c scribbledCase) error {
	p, pk := c.payload()
	if pk < 0 {
		return nil
	}
	bad := map[string]bool{}
	wireWalk(p, "block", bad)
	refuse := map[string]string{}
	for k := range bad {
		l := readMsg[k]
		if l == nil {
			l = readField[k]
		}
		for _, t := range l {
			refuse[t] = k
		}
	}
	dir, done := e.dir()
	defer done()
	near := c.near(c.NearN)
	alone, among := join(dir, "alone.pbf"), join(dir, "among.pbf")
	if err := writeFile(alone, c.frame(p)); err != nil {
		return err
	}
	var fs []byte
	for i := 0; i < 3; i++ {
		fs = append(fs, c.frame(near)...)
	}
	fs = append(append(fs, c.frame(p)...), c.frame(near)...)
	if err := writeFile(among, fs); err != nil {
		return err
	}
	nx, wx := join(dir, "n.idx"), join(dir, "w.idx")
	if err := writeMapIdx(nx, map[int64]int64{5: -5, 6: -6, 9: -9}, false, 0); err != nil {
		return err
	}
	if err := writeSynWay(wx, []Way{{ID: 3, Refs: []int64{-4, 9}}}, 3, 0); err != nil {
		return err
	}
	for _, tl := range readBlob {
		var res [2]*toolResult
		var outs [2]string
		for k, in := range []string{alone, among} {
			outs[k] = join(dir, fmt.Sprintf("%s.%d", tl, k))
			w := 1
			if k == 1 {
				w = c.Workers
			}
			a := []string{"-i", in, "-w", itoa(w)}
			switch tl {
			case "entitycount":
			case "entityfind":
				a = append(a, "-e", "1,2,3")
			default:
				a = append(a, "-r", "0", "-o", outs[k])
			}
			switch tl {
			case "rewritenodes":
				a = append(a, "-x", nx)
			case "relindex":
				a = append(a, "-x", wx)
			}
			var peak int64
			r, err := e.toolOpt(toolOpt{fsize: 64 << 20, blockXFSZ: true, cpu: 8, anon: &peak, anonMax: 2 << 30}, tl, a...)
			if err != nil {
				if strings.Contains(err.Error(), "resource exhaustion") {
					continue // ids or sizes that make no sense can ask for anything
				}
				return err
			}
			if r.Hung {
				return violf("%s does not end; input: block %d with %d bytes changed", tl, pk, len(c.Muts))
			}
			if r.Big || strings.Contains(r.Stderr, "SIGXCPU") || r.Signal != 0 {
				continue
			}
			res[k] = r
			if s := refuse[tl]; s != "" && r.ok() {
				return violf("%s reports success; input: a %s that runs beyond its end", tl, s)
			}
		}
		if res[0] == nil || res[1] == nil {
			continue
		}
		if res[0].ok() != res[1].ok() {
			return violf("%s on a file of one block: exit %d; with other blocks around it and %d workers: exit %d (%s%s)", tl, res[0].Exit, c.Workers, res[1].Exit, firstLines(res[0].Stderr, 2), firstLines(res[1].Stderr, 2))
		}
		if !res[0].ok() {
			continue
		}
		switch tl {
		case "entityfind":
			if res[0].Stdout != res[1].Stdout {
				return violf("entityfind on a file of one block prints %q, with other blocks around it %q", clipStr(res[0].Stdout, 300), clipStr(res[1].Stdout, 300))
			}
		case "decompress", "tagfilter", "rewritenodes":
			var pl [2][]payload
			for k := range outs {
				raw, err := os.ReadFile(outs[k])
				if err == nil {
					pl[k], err = payloads(raw)
				}
				if err != nil {
					return violf("%s: unreadable output: %v", tl, err)
				}
			}
			a, b := pl[0], pl[1]
			if tl == "decompress" && (len(a) != 1 || !bytes.Equal(a[0].Data, p)) {
				return violf("decompress does not give the block back as it was: %d blocks", len(a))
			}
			if tl == "rewritenodes" {
				continue
			}
			// the tag filter leaves out blocks that have become empty
			first := 0
			if len(b) >= 4 {
				first = 3
			}
			if len(a) > 1 || len(b) != len(a)+first/3*4 || (len(a) == 1 && !bytes.Equal(a[0].Data, b[first].Data)) {
				return violf("%s makes something else of the block when others are around it: %d and %d blocks", tl, len(a), len(b))
			}
		default:
			a, err := os.ReadFile(outs[0])
			if tl == "entitycount" || tl == "relindex" || err != nil {
				continue
			}
			b, err := os.ReadFile(outs[1])
			if err != nil {
				return violf("%s: no output: %v", tl, err)
			}
			if s := diffBytes(a, b); s != "" {
				return violf("%s makes another index of the block when others without entities are around it: %s", tl, s)
			}
		}
	}
	return nil
}

func genScribbled(t *rapid.T) scribbledCase {
	o := docOpt{kinds: kNode | kWay | kRel, nodeTags: true, maxPer: 5, maxBlobs: 2, order: true, negRefs: true, coordFine: true}
	c := scribbledCase{Doc: genDoc(t, o), Pick: rapid.IntRange(0, 7).Draw(t, "pick"), Workers: rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "w"),
		Level: rapid.SampledFrom([]int{-1, 6, 0}).Draw(t, "level"), NearN: rapid.SampledFrom([]int{0, 1, 30, 300}).Draw(t, "nearn")}
	for n := 0; n < 4; n++ {
		if _, pk := c.payload(); pk >= 0 {
			break
		}
		c.Doc = genDoc(t, o)
	}
	for n := rapid.SampledFrom([]int{1, 1, 1, 2, 3, 6}).Draw(t, "muts"); n > 0; n-- {
		c.Muts = append(c.Muts, scribble{Op: rapid.IntRange(0, 5).Draw(t, "op"), End: rapid.Bool().Draw(t, "end"), At: rapid.IntRange(0, 600).Draw(t, "at"), V: rapid.IntRange(0, 255).Draw(t, "v")})
	}
	c.Near = rapid.SampledFrom([]S{"\x01", "\x00\x00\x00", "\x12\x04\x1a\x02\x08\x01", "\x80\x80\x80\x80\x80", "\x08\x01\x42\x01\x02", "\xff\xff\xff\xff\x0f", "highway"}).Draw(t, "near")
	return c
}

func clsScribbled(c scribbledCase) Class {
	p, pk := c.payload()
	if pk < 0 {
		return Class{Labels: []string{"nothing to damage"}}
	}
	bad := map[string]bool{}
	wireWalk(p, "block", bad)
	l := []string{}
	for k := range bad {
		l = append(l, "overrun in "+k)
	}
	if len(l) == 0 {
		l = append(l, "no overrun known")
	}
	return Class{Nontrivial: !bytes.Equal(p, c.Doc.Blobs[pk].payload()), Labels: l}
}
