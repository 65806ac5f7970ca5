package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"sort"
	"strconv"
)

// An independent model, writer and strict reader of OSM PBF files.  Nothing here comes from the
// code under test.

// S is a byte string; in JSON each byte is one code point, so arbitrary bytes survive.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return json.Marshal(string(r))
}

func (s *S) UnmarshalJSON(b []byte) error {
	var t string
	if err := json.Unmarshal(b, &t); err != nil {
		return err
	}
	o := make([]byte, 0, len(t))
	for _, r := range t {
		if r > 255 {
			return fmt.Errorf("bad byte string")
		}
		o = append(o, byte(r))
	}
	*s = S(o)
	return nil
}

type Tag struct{ K, V S }

type Node struct {
	ID       int64
	Lat, Lon int64 // in block units
	Tags     []Tag `json:",omitempty"`
}

type Way struct {
	ID   int64
	Tags []Tag   `json:",omitempty"`
	Refs []int64 `json:",omitempty"`
}

type Member struct {
	Type int
	ID   int64
	Role S
}

type Rel struct {
	ID   int64
	Tags []Tag    `json:",omitempty"`
	Mem  []Member `json:",omitempty"`
}

const (
	kNode = 1
	kWay  = 2
	kRel  = 4
)

// Bulk describes many entities by a seed, so that big cases stay small as data.
type Bulk struct {
	Seed   uint64
	N      int
	First  int64
	Mode   int   // id gaps
	Len    int   // refs or members per entity
	RMode  int   // ref style
	Lo, Hi int64 // ids referred to
	Tag    int   // tag density: 0 none, n: about one entity in n
	Uniq   bool  `json:",omitempty"` // every tag value is another string
	// block coordinate parameters (nodes)
	Gran, LatOff, LonOff int64 `json:",omitempty"`
}

type Group struct {
	Kind  int
	Nodes []Node `json:",omitempty"`
	Ways  []Way  `json:",omitempty"`
	Rels  []Rel  `json:",omitempty"`
	Bulk  *Bulk  `json:",omitempty"`
	Info  bool   `json:",omitempty"` // write info messages
	KV    bool   `json:",omitempty"` // write keys_vals even when no node has tags
	Join  bool   `json:",omitempty"` // in one message with the group before, which is of another kind
}

type Block struct {
	Groups   []Group
	Gran     int32 `json:",omitempty"` // 0 = field absent (100)
	DateGran int32 `json:",omitempty"`
	LatOff   int64 `json:",omitempty"`
	LonOff   int64 `json:",omitempty"`
	Explicit bool  `json:",omitempty"` // write default-valued fields too
	Order    int   `json:",omitempty"` // field order variation
	Pad      int   `json:",omitempty"` // extra bytes in embedded length varints
	StrSeed  int   `json:",omitempty"` // string table order
	Extra    []S   `json:",omitempty"` // further strings in the table (duplicates allowed)
	XStr     int   `json:",omitempty"` // so many more
}

type Blob struct {
	Type  string
	Level int    // -1 stored raw; 0..9 zlib
	Flip  bool   `json:",omitempty"` // unusual field order in blob and blob header
	RawSz bool   `json:",omitempty"` // raw_size also on a raw blob
	Head  S      `json:",omitempty"` // payload when not OSMData (or when Block is nil)
	Fill  int    `json:",omitempty"` // payload of this many generated bytes appended to Head
	Block *Block `json:",omitempty"`
	Rep   int    `json:",omitempty"` // this blob so many times more
	Upto  int64  `json:",omitempty"` // not a blob: header blobs of zeros (holes in the file) up to about this offset
}

type Doc struct{ Blobs []Blob }

func (b *Block) gran() int64 {
	if b.Gran == 0 {
		return 100
	}
	return int64(b.Gran)
}

// ---------------------------------------------------------------------------------------------
// deterministic expansion

type rng struct{ s uint64 }

func (r *rng) u() uint64       { r.s += 0x9e3779b97f4a7c15; return splitmix(r.s) }
func (r *rng) n(n int64) int64 { return int64(r.u() % uint64(n)) }

func bulkGap(r *rng, mode int) int64 {
	switch mode {
	case 0:
		return 1
	case 1:
		return 1 + r.n(3)
	case 2:
		return 1 + r.n(1000)
	case 3:
		switch r.n(12) {
		case 0:
			return 2
		case 1:
			return 3
		case 2:
			return 4 + r.n(60)
		}
		return 1
	default:
		return 2
	}
}

var bulkKeys = []S{"name", "highway", "note", "source", "ref", "note:en", "building", "tiger:cfcc"}

func bulkTags(r *rng, b *Bulk, id int64) []Tag {
	if b.Tag == 0 || r.n(int64(b.Tag)) != 0 {
		return nil
	}
	var ts []Tag
	for i, k := range bulkKeys {
		if r.n(4) == 0 {
			v := S(fmt.Sprintf("v%d", r.n(50)*int64(i+1)))
			if b.Uniq {
				v = S(fmt.Sprintf("u%d.%d", id, i))
			}
			ts = append(ts, Tag{k, v})
		}
	}
	return ts
}

// heavyTags are n tags, some of which tagfilter deletes.
func heavyTags(n int, seed uint64) []Tag {
	r := &rng{seed}
	ts := make([]Tag, n)
	for i := range ts {
		k := S(fmt.Sprintf("h%d", i))
		switch r.n(5) {
		case 0:
			k = deletePrefixes[r.n(int64(len(deletePrefixes)))] + k
		case 1:
			if i < len(deleteTags) {
				k = deleteTags[i]
			}
		}
		v := S(fmt.Sprint(r.n(9)))
		if r.n(2) == 0 {
			v = S(fmt.Sprintf("w%d", r.n(1<<40)))
		}
		ts[i] = Tag{k, v}
	}
	return ts
}

func (g *Group) nodes() []Node {
	if g.Bulk == nil || g.Kind != kNode {
		return g.Nodes
	}
	b := g.Bulk
	r := &rng{b.Seed}
	out := make([]Node, b.N)
	id := b.First
	for i := range out {
		if i > 0 {
			id += bulkGap(r, b.Mode)
		}
		gran := b.Gran
		if gran == 0 {
			gran = 100
		}
		lat, lon := toRaw(r.n(1800000001)-900000000, 900000000, gran, b.LatOff, 0), toRaw(r.n(3600000001)-1800000000, 1800000000, gran, b.LonOff, 0)
		out[i] = Node{ID: id, Lat: lat, Lon: lon, Tags: bulkTags(r, b, id)}
	}
	return out
}

func (g *Group) ways() []Way {
	if g.Bulk == nil || g.Kind != kWay {
		return g.Ways
	}
	b := g.Bulk
	r := &rng{b.Seed}
	out := make([]Way, b.N)
	id := b.First
	for i := range out {
		if i > 0 {
			id += bulkGap(r, b.Mode)
		}
		n := b.Len
		if b.Mode != 0 && n > 0 {
			n = int(r.n(int64(n) + 1))
		}
		out[i] = Way{ID: id, Refs: bulkRefs(r, n, b), Tags: bulkTags(r, b, id)}
	}
	return out
}

func bulkRefs(r *rng, n int, b *Bulk) []int64 {
	refs := make([]int64, n)
	span := b.Hi - b.Lo + 1
	cur := b.Lo
	for i := range refs {
		switch b.RMode {
		case 0: // anywhere
			refs[i] = b.Lo + r.n(span)
		case 1: // runs
			cur++
			if cur > b.Hi || r.n(20) == 0 {
				cur = b.Lo + r.n(span)
			}
			refs[i] = cur
			if i > 0 && r.n(9) == 0 {
				refs[i] = refs[i-1]
			}
		case 2: // already converted
			refs[i] = encLoc(int32(r.n(3600000001)-1800000000), int32(r.n(1800000001)-900000000))
		default: // alternating extremes
			if i%2 == 0 {
				refs[i] = b.Lo
			} else {
				refs[i] = b.Hi
			}
		}
	}
	return refs
}

func (g *Group) rels() []Rel {
	if g.Bulk == nil || g.Kind != kRel {
		return g.Rels
	}
	b := g.Bulk
	r := &rng{b.Seed}
	out := make([]Rel, b.N)
	id := b.First
	for i := range out {
		if i > 0 {
			id += bulkGap(r, b.Mode)
		}
		n := b.Len
		if b.Mode != 0 && n > 0 {
			n = int(r.n(int64(n) + 1))
		}
		ms := make([]Member, n)
		for j := range ms {
			t := 1
			if b.RMode == 1 {
				t = int(r.n(3))
			}
			ms[j] = Member{t, b.Lo + r.n(b.Hi-b.Lo+1), []S{"", "outer", "inner"}[r.n(3)]}
		}
		out[i] = Rel{ID: id, Mem: ms, Tags: bulkTags(r, b, id)}
	}
	return out
}

func (g *Group) count() int {
	if g.Bulk != nil {
		return g.Bulk.N
	}
	return len(g.Nodes) + len(g.Ways) + len(g.Rels)
}

// ---------------------------------------------------------------------------------------------
// encoding

func putVar(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

func zz(v int64) uint64 { return uint64(v)<<1 ^ uint64(v>>63) }

func putVarPad(b []byte, v uint64, pad int) []byte {
	n := len(b)
	b = putVar(b, v)
	if pad > 9-(len(b)-n) {
		pad = 9 - (len(b) - n)
	}
	for i := 0; i < pad; i++ {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// field is one protobuf field in a tree that can be mutated before it is serialised.
type field struct {
	id      int
	varint  bool
	v       uint64
	b       []byte
	kids    []*field
	msg     bool
	pad     int
	lenOver *uint64 // replaces the true length
	cut     bool
	name    string
}

func fVar(id int, v uint64) *field             { return &field{id: id, varint: true, v: v} }
func fBytes(id int, b []byte, n string) *field { return &field{id: id, b: b, name: n} }
func fMsg(id int, n string, k ...*field) *field {
	return &field{id: id, msg: true, kids: k, name: n}
}

func (f *field) put(b []byte) []byte {
	if f.varint {
		b = putVar(b, uint64(f.id)<<3)
		return putVar(b, f.v)
	}
	b = putVar(b, uint64(f.id)<<3|2)
	body := f.b
	if f.msg {
		body = putFields(nil, f.kids)
	}
	n := uint64(len(body))
	if f.lenOver != nil {
		b = putVar(b, *f.lenOver)
	} else {
		b = putVarPad(b, n, f.pad)
	}
	return append(b, body...)
}

func putFields(b []byte, fs []*field) []byte {
	for _, f := range fs {
		b = f.put(b)
	}
	return b
}

func packU(vs []uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = putVar(b, v)
	}
	return b
}

func packDelta(vs []int64) []byte {
	var b []byte
	last := int64(0)
	for _, v := range vs {
		b = putVar(b, zz(v-last))
		last = v
	}
	return b
}

// strTable builds the string table of a block: index 0 is the empty string, then every string in
// use and the extra ones, in an order given by the seed.
type strTable struct {
	list []S
	idx  map[S][]int
	n    int
}

func (b *Block) strTable() *strTable {
	seen := map[S]bool{}
	var list []S
	add := func(s S) {
		if !seen[s] {
			seen[s] = true
			if s != "" {
				list = append(list, s)
			}
		}
	}
	tags := func(ts []Tag) {
		for _, t := range ts {
			add(t.K)
			add(t.V)
		}
	}
	for i := range b.Groups {
		g := &b.Groups[i]
		for _, n := range g.nodes() {
			tags(n.Tags)
		}
		for _, w := range g.ways() {
			tags(w.Tags)
		}
		for _, r := range g.rels() {
			tags(r.Tags)
			for _, m := range r.Mem {
				add(m.Role)
			}
		}
	}
	list = append(list, b.Extra...)
	for i := 0; i < b.XStr; i++ {
		list = append(list, S("x"+strconv.Itoa(i)))
	}
	r := &rng{uint64(b.StrSeed)}
	if b.StrSeed != 0 {
		for i := len(list) - 1; i > 0; i-- {
			j := int(r.n(int64(i + 1)))
			list[i], list[j] = list[j], list[i]
		}
	}
	st := &strTable{list: append([]S{""}, list...), idx: map[S][]int{}}
	for i, s := range st.list {
		st.idx[s] = append(st.idx[s], i)
	}
	return st
}

// get picks one of the indexes the string has in the table.
func (st *strTable) get(s S) uint64 {
	c := st.idx[s]
	if len(c) == 0 {
		panic("string not in table")
	}
	if len(c) == 1 {
		return uint64(c[0])
	}
	st.n++
	return uint64(c[st.n%len(c)])
}

func infoFields(i int, id int64) []*field {
	return []*field{fVar(1, uint64(i%7)), fVar(2, uint64(1500000000+i)), fVar(3, uint64(id)&0xffff), fVar(4, 77), fVar(5, 0)}
}

func rotate(fs []*field, k int) []*field {
	if len(fs) < 2 || k == 0 {
		return fs
	}
	if k < 0 {
		k = -k
	}
	k %= len(fs)
	return append(append([]*field{}, fs[k:]...), fs[:k]...)
}

func (b *Block) fields() []*field {
	st := b.strTable()
	tab := fMsg(1, "stringtable")
	for _, s := range st.list {
		tab.kids = append(tab.kids, fBytes(1, []byte(s), "string"))
	}
	out := []*field{tab}
	tags := func(ts []Tag) (k, v []uint64) {
		for _, t := range ts {
			k = append(k, st.get(t.K))
			v = append(v, st.get(t.V))
		}
		return
	}
	kinds := 0
	for gi := range b.Groups {
		g := &b.Groups[gi]
		join := g.Join && gi > 0 && kinds&g.Kind == 0
		pg := fMsg(2, "group")
		if join {
			pg = out[len(out)-1]
		} else {
			kinds = 0
		}
		kinds |= g.Kind
		switch g.Kind {
		case kNode:
			ns := g.nodes()
			var ids, lat, lon []int64
			var kv []uint64
			any := false
			for _, n := range ns {
				ids, lat, lon = append(ids, n.ID), append(lat, n.Lat), append(lon, n.Lon)
				for _, t := range n.Tags {
					any = true
					k := st.get(t.K)
					for k == 0 {
						k = st.get(t.K)
					}
					kv = append(kv, k, st.get(t.V))
				}
				kv = append(kv, 0)
			}
			d := fMsg(2, "dense", fBytes(1, packDelta(ids), "dense.id"))
			if g.Info {
				var ver, ts []uint64
				for i := range ns {
					ver = append(ver, uint64(i%5))
					ts = append(ts, zz(int64(i%3)))
				}
				d.kids = append(d.kids, fMsg(5, "dense.info", fBytes(1, packU(ver), "denseinfo.version"), fBytes(2, packU(ts), "denseinfo.timestamp")))
			}
			d.kids = append(d.kids, fBytes(8, packDelta(lat), "dense.lat"), fBytes(9, packDelta(lon), "dense.lon"))
			if any || (g.KV && len(ns) > 0) {
				d.kids = append(d.kids, fBytes(10, packU(kv), "dense.keyvals"))
			}
			d.kids = rotate(d.kids, b.Order)
			pg.kids = append(pg.kids, d)
		case kWay:
			for i, w := range g.ways() {
				f := fMsg(3, "way", fVar(1, uint64(w.ID)))
				if len(w.Tags) > 0 || b.Explicit {
					k, v := tags(w.Tags)
					f.kids = append(f.kids, fBytes(2, packU(k), "way.keys"), fBytes(3, packU(v), "way.vals"))
				}
				if g.Info {
					f.kids = append(f.kids, fMsg(4, "way.info", infoFields(i, w.ID)...))
				}
				if len(w.Refs) > 0 || b.Explicit {
					f.kids = append(f.kids, fBytes(8, packDelta(w.Refs), "way.refs"))
				}
				f.kids = rotate(f.kids, b.Order)
				pg.kids = append(pg.kids, f)
			}
		case kRel:
			for i, r := range g.rels() {
				f := fMsg(4, "relation", fVar(1, uint64(r.ID)))
				if len(r.Tags) > 0 || b.Explicit {
					k, v := tags(r.Tags)
					f.kids = append(f.kids, fBytes(2, packU(k), "rel.keys"), fBytes(3, packU(v), "rel.vals"))
				}
				if g.Info {
					f.kids = append(f.kids, fMsg(4, "rel.info", infoFields(i, r.ID)...))
				}
				if len(r.Mem) > 0 || b.Explicit {
					var roles, types []uint64
					var ids []int64
					for _, m := range r.Mem {
						roles, types, ids = append(roles, st.get(m.Role)), append(types, uint64(m.Type)), append(ids, m.ID)
					}
					f.kids = append(f.kids, fBytes(8, packU(roles), "rel.roles"), fBytes(9, packDelta(ids), "rel.memids"), fBytes(10, packU(types), "rel.types"))
				}
				f.kids = rotate(f.kids, b.Order)
				pg.kids = append(pg.kids, f)
			}
		}
		if !join {
			out = append(out, pg)
		}
	}
	var par []*field
	if b.Gran != 0 || b.Explicit {
		par = append(par, fVar(17, uint64(b.gran())))
	}
	if b.DateGran != 0 || b.Explicit {
		dg := b.DateGran
		if dg == 0 {
			dg = 1000
		}
		par = append(par, fVar(18, uint64(int64(dg))))
	}
	if b.LatOff != 0 || b.Explicit {
		par = append(par, fVar(19, uint64(b.LatOff)))
	}
	if b.LonOff != 0 || b.Explicit {
		par = append(par, fVar(20, uint64(b.LonOff)))
	}
	// groups keep their relative order; the other fields may come before or after
	switch b.Order % 4 {
	case 1:
		out = append(par, out...)
	case 2:
		out = append(append(append([]*field{}, par...), out[1:]...), out[0])
	case 3:
		out = append(append(append([]*field{}, out[1:]...), out[0]), par...)
	default:
		out = append(out, par...)
	}
	if b.Pad > 0 {
		padFields(out, b.Pad)
	}
	return out
}

func padFields(fs []*field, pad int) {
	for _, f := range fs {
		if f.msg {
			f.pad = pad
			padFields(f.kids, pad)
		} else if len(f.b) > 3 {
			f.pad = pad
		}
	}
}

func (b *Blob) payload() []byte {
	if b.Block != nil {
		return putFields(nil, b.Block.fields())
	}
	p := []byte(b.Head)
	if b.Fill > 0 {
		r := &rng{uint64(b.Fill)}
		for len(p) < len(b.Head)+b.Fill {
			v := r.u()
			if v%3 == 0 {
				p = append(p, bytes.Repeat([]byte{byte(v >> 8)}, 16)...)
			} else {
				p = binary.LittleEndian.AppendUint64(p, v)
			}
		}
		p = p[:len(b.Head)+b.Fill]
	}
	return p
}

func deflate(p []byte, level int) []byte {
	var z bytes.Buffer
	w, err := zlib.NewWriterLevel(&z, level)
	must(err)
	w.Write(p)
	w.Close()
	return z.Bytes()
}

// blobFields are the fields of the Blob message.
func (b *Blob) blobFields(payload []byte) []*field {
	var fs []*field
	if b.Level < 0 {
		fs = []*field{fBytes(1, payload, "blob.raw")}
		if b.RawSz {
			fs = append(fs, fVar(2, uint64(len(payload))))
		}
	} else {
		fs = []*field{fVar(2, uint64(len(payload))), fBytes(3, deflate(payload, b.Level), "blob.zlib")}
	}
	if b.Flip && len(fs) == 2 {
		fs[0], fs[1] = fs[1], fs[0]
	}
	return fs
}

func frame(typ string, blob []byte, flip bool) []byte {
	hf := []*field{fBytes(1, []byte(typ), "header.type"), fVar(3, uint64(len(blob)))}
	if flip {
		hf[0], hf[1] = hf[1], hf[0]
	}
	h := putFields(nil, hf)
	out := binary.BigEndian.AppendUint32(nil, uint32(len(h)))
	out = append(out, h...)
	return append(out, blob...)
}

func (b *Blob) bytes() []byte {
	return frame(b.Type, putFields(nil, b.blobFields(b.payload())), b.Flip)
}

func (d *Doc) bytes() []byte {
	var out []byte
	for i := range d.Blobs {
		x := d.Blobs[i].bytes()
		for k := 0; k <= d.Blobs[i].Rep; k++ {
			out = append(out, x...)
		}
	}
	return out
}

// layout calls f with every piece of the file in order: bytes, and zeros after them.
func (d *Doc) layout(f func(b []byte, zeros int64) error) (blobs int, err error) {
	off := int64(0)
	put := func(b []byte, zeros int64) error {
		blobs++
		off += int64(len(b)) + zeros
		return f(b, zeros)
	}
	for i := range d.Blobs {
		x := &d.Blobs[i]
		if x.Upto == 0 {
			b := x.bytes()
			for k := 0; k <= x.Rep; k++ {
				if err = put(b, 0); err != nil {
					return
				}
			}
			continue
		}
		for x.Upto-off > 64 {
			n := x.Upto - off - 32
			if n > 31<<20 {
				n = 31 << 20
			}
			p := putFields(nil, []*field{fVar(2, uint64(n))})
			p = binary.AppendUvarint(append(p, 1<<3|2), uint64(n))
			// the blob header says how long the blob is, with the zeros
			h := putFields(nil, []*field{fBytes(1, []byte("OSMHeader"), ""), fVar(3, uint64(len(p))+uint64(n))})
			b := append(append(binary.BigEndian.AppendUint32(nil, uint32(len(h))), h...), p...)
			if err = put(b, n); err != nil {
				return
			}
		}
	}
	return
}

func (d *Doc) nblobs() int {
	n, err := d.layout(func([]byte, int64) error { return nil })
	must(err)
	return n
}

func (d *Doc) far() bool {
	for i := range d.Blobs {
		if d.Blobs[i].Upto > 0 {
			return true
		}
	}
	return false
}

func (d *Doc) write(path string) error {
	if !d.far() {
		return os.WriteFile(path, d.bytes(), 0o644)
	}
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	off := int64(0)
	if _, err := d.layout(func(b []byte, zeros int64) error {
		_, err := f.WriteAt(b, off)
		off += int64(len(b)) + zeros
		return err
	}); err != nil {
		return err
	}
	return f.Truncate(off)
}

func (d *Doc) kinds() (nodes, ways, rels, blocks int) {
	for i := range d.Blobs {
		b := d.Blobs[i].Block
		if b == nil {
			continue
		}
		blocks++
		for j := range b.Groups {
			n := b.Groups[j].count()
			switch b.Groups[j].Kind {
			case kNode:
				nodes += n
			case kWay:
				ways += n
			case kRel:
				rels += n
			}
		}
	}
	return
}

func (d *Doc) eachWay(f func(w *Way)) {
	for i := range d.Blobs {
		if b := d.Blobs[i].Block; b != nil {
			for j := range b.Groups {
				ws := b.Groups[j].ways()
				for k := range ws {
					f(&ws[k])
				}
			}
		}
	}
}

func (d *Doc) eachRel(f func(r *Rel)) {
	for i := range d.Blobs {
		if b := d.Blobs[i].Block; b != nil {
			for j := range b.Groups {
				rs := b.Groups[j].rels()
				for k := range rs {
					f(&rs[k])
				}
			}
		}
	}
}

// eachNode gives every node with its location in units of 1e-7 degree.
func (d *Doc) eachNode(f func(n *Node, lon, lat int32)) {
	for i := range d.Blobs {
		if b := d.Blobs[i].Block; b != nil {
			for j := range b.Groups {
				ns := b.Groups[j].nodes()
				for k := range ns {
					lon, lat := b.loc(&ns[k])
					f(&ns[k], lon, lat)
				}
			}
		}
	}
}

func (b *Block) loc(n *Node) (lon, lat int32) {
	return int32((b.LonOff + b.gran()*n.Lon) / 100), int32((b.LatOff + b.gran()*n.Lat) / 100)
}

// encLoc is ENCODING.md's Morton location: even bits the longitude, odd bits the latitude with the
// high bit set.
func encLoc(lon, lat int32) int64 {
	var v uint64
	e, o := uint32(lon), uint32(lat)|0x80000000
	for i := 0; i < 32; i++ {
		v |= uint64(e>>i&1) << (2 * i)
		v |= uint64(o>>i&1) << (2*i + 1)
	}
	return int64(v)
}

func decLoc(v int64) (lon, lat int32) {
	var e, o uint32
	for i := 0; i < 32; i++ {
		e |= uint32(uint64(v)>>(2*i)&1) << i
		o |= uint32(uint64(v)>>(2*i+1)&1) << i
	}
	// 31 bit latitude, sign in bit 30
	return int32(e), int32(o<<1) >> 1
}

// ---------------------------------------------------------------------------------------------
// strict decoding

type perr struct{ msg string }

func (e *perr) Error() string { return e.msg }

func bad(f string, a ...any) { panic(&perr{fmt.Sprintf(f, a...)}) }

type rd struct {
	b []byte
	p int
}

func (r *rd) more() bool { return r.p < len(r.b) }

func (r *rd) uv() uint64 {
	v, n := binary.Uvarint(r.b[r.p:])
	if n <= 0 {
		bad("bad varint")
	}
	r.p += n
	return v
}

func (r *rd) bytes() []byte {
	n := r.uv()
	if n > uint64(len(r.b)-r.p) {
		bad("length %d overruns its message (%d left)", n, len(r.b)-r.p)
	}
	o := r.b[r.p : r.p+int(n) : r.p+int(n)]
	r.p += int(n)
	return o
}

func (r *rd) tag() (id int, wire int) {
	v := r.uv()
	return int(v >> 3), int(v & 7)
}

func unpackU(b []byte) []uint64 {
	r := &rd{b: b}
	var o []uint64
	for r.more() {
		o = append(o, r.uv())
	}
	return o
}

func unzz(u uint64) int64 { return int64(u>>1) ^ -int64(u&1) }

func unpackDelta(b []byte) []int64 {
	var o []int64
	last := int64(0)
	for _, u := range unpackU(b) {
		last += unzz(u)
		o = append(o, last)
	}
	return o
}

type DBlob struct {
	Type    string
	Bytes   []byte // the Blob message
	Raw     bool
	HasSize bool
	Payload []byte
	Whole   []byte // with framing
}

func protect(err *error) {
	if r := recover(); r != nil {
		if p, ok := r.(*perr); ok {
			*err = p
			return
		}
		panic(r)
	}
}

// decodeFile strictly parses the framing and blobs of a PBF file.
func decodeFile(b []byte) (out []DBlob, err error) {
	defer protect(&err)
	p := 0
	for p < len(b) {
		start := p
		if len(b)-p < 4 {
			bad("truncated header length")
		}
		hl := int(binary.BigEndian.Uint32(b[p:]))
		p += 4
		if hl > len(b)-p || hl > 64*1024 {
			bad("header length %d overruns", hl)
		}
		h := &rd{b: b[p : p+hl]}
		p += hl
		var d DBlob
		size, haveType, haveSize := int64(0), false, false
		for h.more() {
			id, w := h.tag()
			switch {
			case id == 1 && w == 2:
				d.Type, haveType = string(h.bytes()), true
			case id == 2 && w == 2:
				h.bytes()
			case id == 3 && w == 0:
				size, haveSize = int64(h.uv()), true
			default:
				bad("blob header: field %d wire %d", id, w)
			}
		}
		if !haveType || !haveSize {
			bad("blob header lacks type or datasize")
		}
		if size < 0 || size > int64(len(b)-p) {
			bad("blob size %d overruns", size)
		}
		d.Bytes = b[p : p+int(size) : p+int(size)]
		p += int(size)
		d.Whole = b[start:p:p]
		blobOpen(&d)
		out = append(out, d)
	}
	return out, nil
}

func blobOpen(d *DBlob) {
	r := &rd{b: d.Bytes}
	rawSize := int64(-1)
	var raw, z []byte
	haveRaw, haveZ := false, false
	for r.more() {
		id, w := r.tag()
		switch {
		case id == 1 && w == 2:
			raw, haveRaw = r.bytes(), true
		case id == 2 && w == 0:
			rawSize = int64(int32(r.uv()))
		case id == 3 && w == 2:
			z, haveZ = r.bytes(), true
		default:
			bad("blob: field %d wire %d", id, w)
		}
	}
	switch {
	case haveRaw && haveZ:
		bad("blob has both raw and compressed data")
	case haveRaw:
		if rawSize >= 0 && rawSize != int64(len(raw)) {
			bad("raw_size %d, raw data %d bytes", rawSize, len(raw))
		}
		d.Raw, d.Payload, d.HasSize = true, raw, rawSize >= 0
	case haveZ:
		zr, err := zlib.NewReader(bytes.NewReader(z))
		if err != nil {
			bad("zlib: %v", err)
		}
		p, err := io.ReadAll(zr)
		if err != nil {
			bad("zlib: %v", err)
		}
		if rawSize != int64(len(p)) {
			bad("raw_size %d, inflated %d bytes", rawSize, len(p))
		}
		d.Payload, d.HasSize = p, true
	default:
		bad("blob without data")
	}
}

type DGroup struct {
	Kind      int
	Nodes     []Node
	Ways      []Way
	Rels      []Rel
	DenseInfo string
	RelInfo   []string
}

type DBlock struct {
	Strings        []string
	Gran, DateGran int32
	LatOff, LonOff int64
	Groups         []DGroup
}

func decodeBlock(b []byte) (blk *DBlock, err error) {
	defer protect(&err)
	d := &DBlock{Gran: 100, DateGran: 1000}
	r := &rd{b: b}
	var groups [][]byte
	for r.more() {
		id, w := r.tag()
		switch {
		case id == 1 && w == 2:
			s := &rd{b: r.bytes()}
			for s.more() {
				if i, w := s.tag(); i != 1 || w != 2 {
					bad("string table: field %d", i)
				}
				d.Strings = append(d.Strings, string(s.bytes()))
			}
		case id == 2 && w == 2:
			groups = append(groups, r.bytes())
		case id == 17 && w == 0:
			d.Gran = int32(r.uv())
		case id == 18 && w == 0:
			d.DateGran = int32(r.uv())
		case id == 19 && w == 0:
			d.LatOff = int64(r.uv())
		case id == 20 && w == 0:
			d.LonOff = int64(r.uv())
		default:
			bad("block: field %d wire %d", id, w)
		}
	}
	for _, g := range groups {
		d.Groups = append(d.Groups, d.group(g))
	}
	return d, nil
}

func (d *DBlock) str(i uint64) S {
	if i >= uint64(len(d.Strings)) {
		bad("string index %d, table has %d", i, len(d.Strings))
	}
	return S(d.Strings[i])
}

func (d *DBlock) tags(k, v []uint64) []Tag {
	if len(k) != len(v) {
		bad("%d keys, %d values", len(k), len(v))
	}
	var ts []Tag
	for i := range k {
		ts = append(ts, Tag{d.str(k[i]), d.str(v[i])})
	}
	return ts
}

func (d *DBlock) group(b []byte) DGroup {
	var g DGroup
	r := &rd{b: b}
	for r.more() {
		id, w := r.tag()
		if w != 2 {
			bad("group: field %d wire %d", id, w)
		}
		m := &rd{b: r.bytes()}
		switch id {
		case 2:
			if g.Kind&kNode != 0 {
				bad("two dense messages in a group")
			}
			g.Kind |= kNode
			var ids, lat, lon []int64
			var kv []uint64
			haveKV := false
			for m.more() {
				id, w := m.tag()
				if w != 2 {
					bad("dense: field %d wire %d", id, w)
				}
				x := m.bytes()
				switch id {
				case 1:
					ids = unpackDelta(x)
				case 5:
					g.DenseInfo = string(x)
				case 8:
					lat = unpackDelta(x)
				case 9:
					lon = unpackDelta(x)
				case 10:
					kv = unpackU(x)
					haveKV = len(kv) > 0
				default:
					bad("dense: field %d", id)
				}
			}
			if len(lat) != len(ids) || len(lon) != len(ids) {
				bad("dense: %d ids, %d lat, %d lon", len(ids), len(lat), len(lon))
			}
			p := 0
			for i := range ids {
				n := Node{ID: ids[i], Lat: lat[i], Lon: lon[i]}
				if haveKV {
					for {
						if p >= len(kv) {
							bad("dense keys_vals ends early at node %d of %d", i, len(ids))
						}
						k := kv[p]
						p++
						if k == 0 {
							break
						}
						if p >= len(kv) {
							bad("dense keys_vals: key without value")
						}
						n.Tags = append(n.Tags, Tag{d.str(k), d.str(kv[p])})
						p++
					}
				}
				g.Nodes = append(g.Nodes, n)
			}
			if haveKV && p != len(kv) {
				bad("dense keys_vals: %d entries left over", len(kv)-p)
			}
		case 3:
			g.Kind |= kWay
			var wy Way
			var k, v []uint64
			for m.more() {
				id, w := m.tag()
				switch {
				case id == 1 && w == 0:
					wy.ID = int64(m.uv())
				case id == 2 && w == 2:
					k = unpackU(m.bytes())
				case id == 3 && w == 2:
					v = unpackU(m.bytes())
				case id == 4 && w == 2:
					m.bytes()
				case id == 8 && w == 2:
					wy.Refs = unpackDelta(m.bytes())
				default:
					bad("way: field %d wire %d", id, w)
				}
			}
			wy.Tags = d.tags(k, v)
			g.Ways = append(g.Ways, wy)
		case 4:
			g.Kind |= kRel
			var rl Rel
			var k, v, roles, types []uint64
			var ids []int64
			info := ""
			for m.more() {
				id, w := m.tag()
				switch {
				case id == 1 && w == 0:
					rl.ID = int64(m.uv())
				case id == 2 && w == 2:
					k = unpackU(m.bytes())
				case id == 3 && w == 2:
					v = unpackU(m.bytes())
				case id == 4 && w == 2:
					info = string(m.bytes())
				case id == 8 && w == 2:
					roles = unpackU(m.bytes())
				case id == 9 && w == 2:
					ids = unpackDelta(m.bytes())
				case id == 10 && w == 2:
					types = unpackU(m.bytes())
				default:
					bad("relation: field %d wire %d", id, w)
				}
			}
			rl.Tags = d.tags(k, v)
			if len(roles) != len(ids) || len(types) != len(ids) {
				bad("relation: %d members, %d roles, %d types", len(ids), len(roles), len(types))
			}
			for i := range ids {
				if types[i] > math.MaxInt32 {
					bad("relation: member type %d", types[i])
				}
				rl.Mem = append(rl.Mem, Member{int(types[i]), ids[i], d.str(roles[i])})
			}
			g.Rels = append(g.Rels, rl)
			g.RelInfo = append(g.RelInfo, info)
		default:
			bad("group: field %d", id)
		}
	}
	return g
}

func sortTags(ts []Tag) []Tag {
	o := append([]Tag(nil), ts...)
	sort.Slice(o, func(i, j int) bool {
		if o[i].K != o[j].K {
			return o[i].K < o[j].K
		}
		return o[i].V < o[j].V
	})
	return o
}
