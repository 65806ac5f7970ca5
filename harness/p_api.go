package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

// C13, C16, C17, C18, C21, C22, C23, C25: parts of the library driven directly.

// ---- C13 wire codec --------------------------------------------------------------------------

type codecOp struct {
	Form string
	Pre  []byte
	Suf  []byte
	U    []uint64
	B    S
	ID   uint64
	N    int
	Pad  int
}

type c13Case struct{ Ops []codecOp }

type codecReq struct {
	Op       string
	Pre, Suf []byte
	U        []uint64
	B        []byte
	ID       uint64
	N        int
	Raw      []byte
}

type codecItem struct {
	Panic string
	Enc   []byte
	U     []uint64
	B     []byte
	Next  int
	Keep  bool
}

var genU64 = rapid.Custom(func(t *rapid.T) uint64 {
	switch wpick(t, "u64", 4, 4, 2, 2) {
	case 0:
		return rapid.Uint64Range(0, 300).Draw(t, "v")
	case 1: // around every varint length and sign boundary
		b := rapid.IntRange(0, 63).Draw(t, "bit")
		return uint64(1)<<b + uint64(rapid.Int64Range(-2, 2).Draw(t, "d"))
	case 2:
		return uint64(rapid.Int64Range(-70, 70).Draw(t, "v"))
	default:
		return rapid.Uint64().Draw(t, "v")
	}
})

func maskForm(form string, v uint64) uint64 {
	switch form {
	case "s32", "i32", "s32packed", "i32packed", "s32delta", "i32func", "s32opt", "i32opt":
		return uint64(int64(int32(uint32(v))))
	case "u32", "u32packed", "u32func", "u32opt":
		return uint64(uint32(v))
	}
	return v
}

var codecForms = []string{"varint", "idvarint", "zigzag", "s32", "i32", "u32", "s64", "i64", "u64", "s32opt", "i32opt", "u32opt", "s64opt", "i64opt", "u64opt",
	"buffer", "idbuffer", "string", "stringopt", "skip", "readbytes",
	"s32packed", "i32packed", "u32packed", "u64packed", "s64packed", "s64delta", "s64deltazero", "s32delta",
	"i32func", "u32func", "u64func", "s64deltafunc",
	"embed128", "embed16384", "embed2097152", "embedint128", "embedint16384", "embedint2097152", "embedint268435456", "overflow"}

var genCodecOp = rapid.Custom(func(t *rapid.T) codecOp {
	o := codecOp{Form: rapid.SampledFrom(codecForms).Draw(t, "form")}
	o.Pre = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "pre")
	o.Suf = rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "suf")
	o.Pad = rapid.IntRange(0, 3).Draw(t, "pad")
	o.ID = uint64(rapid.SampledFrom([]int{1, 2, 3, 8, 15, 16, 17, 100, 2047, 2048, 100000, 1<<29 - 1}).Draw(t, "id"))
	o.N = rapid.IntRange(0, 60).Draw(t, "cap")
	switch {
	case strings.HasPrefix(o.Form, "embed"):
		lim := map[string]int{"embed128": 128, "embed16384": 16384, "embed2097152": 2097152, "embedint128": 128, "embedint16384": 16384, "embedint2097152": 2097152, "embedint268435456": 268435456}[o.Form]
		switch wpick(t, "n", 3, 3, 2) {
		case 0:
			o.N = rapid.IntRange(0, 300).Draw(t, "n")
		case 1:
			o.N = lim + rapid.IntRange(-2, 2).Draw(t, "d")
		default:
			if o.Form == "embed2097152" {
				o.N = rapid.SampledFrom([]int{127, 128, 16383, 16384, 16385}).Draw(t, "n")
			} else {
				o.N = rapid.SampledFrom([]int{127, 128, 129, 16383, 16384, 16385, 2097151, 2097152, 2097153, 4194304, 268435455, 268435456, 268435457, 1 << 29, 1 << 31, 1 << 33}).Draw(t, "n")
				if o.Form == "embed16384" && o.N > 1<<20 || o.Form == "embed128" && o.N > 1<<20 {
					o.N = 20000
				}
			}
		}
	case o.Form == "buffer" || o.Form == "idbuffer" || strings.HasPrefix(o.Form, "string") || o.Form == "skip" || o.Form == "readbytes":
		o.B = genBytes(t, "b")
	case strings.Contains(o.Form, "packed") || strings.Contains(o.Form, "delta") || strings.HasSuffix(o.Form, "func"):
		max := 6
		if oneIn(t, 20, "long") {
			max = 3000
		}
		o.U = rapid.SliceOfN(genU64, 0, max).Draw(t, "u")
		for i := range o.U {
			o.U[i] = maskForm(o.Form, o.U[i])
		}
		if o.Form == "s64deltazero" { // a zero delta ends the list, so it cannot be part of it
			w := o.U[:0]
			last := uint64(0)
			for _, v := range o.U {
				if v != last {
					w = append(w, v)
					last = v
				}
			}
			o.U = w
		}
	default:
		o.U = []uint64{maskForm(o.Form, genU64.Draw(t, "v"))}
	}
	return o
})

// wireBytes is the protobuf encoding of the operation's value, written by the harness.  pad makes
// varints longer than needed, which every protobuf reader accepts.
func (o *codecOp) wireBytes(pad int) []byte {
	v := func(b []byte, x uint64) []byte { return putVarPad(b, x, pad) }
	body := func(b []byte) []byte { return append(v(nil, uint64(len(b))), b...) }
	var in []byte
	switch o.Form {
	case "varint", "u32", "u64", "u32opt", "u64opt", "i32", "i64", "i32opt", "i64opt":
		return v(nil, o.U[0])
	case "idvarint":
		return v(putVar(nil, o.ID<<3), o.U[0])
	case "zigzag", "s64", "s64opt", "s32", "s32opt":
		return v(nil, zz(int64(o.U[0])))
	case "buffer", "string", "stringopt", "skip", "readbytes":
		return body([]byte(o.B))
	case "idbuffer":
		return append(putVar(nil, o.ID<<3|2), body([]byte(o.B))...)
	case "s32packed", "s64packed":
		for _, x := range o.U {
			in = v(in, zz(int64(x)))
		}
		return body(in)
	case "i32packed", "u32packed", "u64packed":
		for _, x := range o.U {
			in = v(in, x)
		}
		return body(in)
	case "i32func", "u32func", "u64func":
		for _, x := range o.U {
			in = v(in, x)
		}
		return in
	case "s64delta", "s64deltafunc":
		last := uint64(0)
		for _, x := range o.U {
			in = v(in, zz(int64(x-last)))
			last = x
		}
		if o.Form == "s64deltafunc" {
			return in
		}
		return body(in)
	case "s32delta":
		last := int32(0)
		for _, x := range o.U {
			in = v(in, zz(int64(int32(x)-last)))
			last = int32(x)
		}
		return body(in)
	case "s64deltazero":
		last := uint64(0)
		for _, x := range o.U {
			in = v(in, zz(int64(x-last)))
			last = x
		}
		return append(in, 0)
	}
	panic(o.Form)
}

func runC13(e *Env, c c13Case) error {
	encName := map[string]string{"s32": "zigzag", "s64": "zigzag", "s32opt": "zigzag", "s64opt": "zigzag", "i32": "varint", "u32": "varint", "i64": "varint", "u64": "varint",
		"i32opt": "varint", "u32opt": "varint", "i64opt": "varint", "u64opt": "varint", "stringopt": "string", "skip": "buffer", "readbytes": "buffer",
		"u32packed": "", "u64packed": "", "s64packed": ""}
	decName := map[string]string{"buffer": "bytes", "idbuffer": "", "idvarint": "", "s32delta": "", "i32func": "", "u32func": "", "u64func": "", "s64deltafunc": ""}
	name := func(m map[string]string, f string) string {
		if n, ok := m[f]; ok {
			return n
		}
		return f
	}
	var reqs []codecReq
	type what struct {
		op   int
		kind int // 0 encode, 1 decode of canonical bytes, 2 decode of padded bytes, 3 must be refused
		raw  []byte
	}
	var ws []what
	add := func(r codecReq, w what) { reqs = append(reqs, r); ws = append(ws, w) }
	for i := range c.Ops {
		o := &c.Ops[i]
		if o.Form == "overflow" { // more than 64 bits
			raw := bytes.Repeat([]byte{0xff}, 9)
			raw = append(raw, byte(2+o.N))
			add(codecReq{Op: "varint", Pre: o.Pre, Suf: o.Suf, Raw: raw}, what{i, 3, raw})
			add(codecReq{Op: "bytes", Pre: o.Pre, Suf: o.Suf, Raw: raw}, what{i, 3, raw})
			continue
		}
		if n := name(encName, o.Form); n != "" {
			add(codecReq{Op: n, Pre: o.Pre, U: o.U, B: []byte(o.B), ID: o.ID, N: o.N}, what{i, 0, nil})
		}
		if strings.HasPrefix(o.Form, "embed") {
			continue
		}
		if n := name(decName, o.Form); n != "" {
			raw := o.wireBytes(0)
			add(codecReq{Op: n, Pre: o.Pre, Suf: o.Suf, Raw: raw}, what{i, 1, raw})
			if o.Form != "s64deltazero" && o.Pad > 0 {
				raw := o.wireBytes(o.Pad)
				add(codecReq{Op: n, Pre: o.Pre, Suf: o.Suf, Raw: raw}, what{i, 2, raw})
			}
		}
	}
	var its []codecItem
	if err := e.call("codec", reqs, &its); err != nil {
		return apiErr(err, "codec")
	}
	for k, it := range its {
		w := ws[k]
		o := &c.Ops[w.op]
		desc := fmt.Sprintf("%s of %v %q n=%d id=%d (prefix %d bytes, suffix %d, pad %d)", o.Form, clipU(o.U), clipStr(string(o.B), 60), o.N, o.ID, len(o.Pre), len(o.Suf), o.Pad)
		if w.kind == 3 {
			if it.Panic == "" {
				return violf("a varint of more than 64 bits (% x) is read as %v", w.raw, it.U)
			}
			continue
		}
		if w.kind == 0 && strings.HasPrefix(o.Form, "embed") {
			if err := checkEmbed(o, it); err != nil {
				return err
			}
			continue
		}
		if it.Panic != "" {
			return violf("%s: panic", desc)
		}
		if !it.Keep {
			return violf("%s: bytes that are not part of the value were changed", desc)
		}
		if w.kind == 0 {
			if want := o.wireBytes(0); !bytes.Equal(it.Enc, want) {
				return violf("%s: encoded as % x, expected % x", desc, clipB(it.Enc), clipB(want))
			}
			continue
		}
		if o.Form != "s64deltazero" && it.Next != len(w.raw) {
			return violf("%s: decoding consumed %d of %d bytes", desc, it.Next, len(w.raw))
		}
		switch o.Form {
		case "skip":
		case "buffer", "string", "stringopt", "readbytes":
			if string(it.B) != string(o.B) {
				return violf("%s: decoded as %q", desc, clipStr(string(it.B), 100))
			}
		default:
			if !eqU64(it.U, o.U) {
				return violf("%s: decoded as %v", desc, clipU(it.U))
			}
		}
	}
	return nil
}

func clipU(u []uint64) []uint64 {
	if len(u) > 12 {
		return u[:12]
	}
	return u
}

func clipB(b []byte) []byte {
	if len(b) > 60 {
		return b[:60]
	}
	return b
}

func eqU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkEmbed(o *codecOp, it codecItem) error {
	intOnly := strings.HasPrefix(o.Form, "embedint")
	lim := map[string]int{"128": 128, "16384": 16384, "2097152": 2097152, "268435456": 268435456}[strings.TrimPrefix(strings.TrimPrefix(o.Form, "embed"), "int")]
	if o.N >= lim {
		if it.Panic == "" {
			return violf("%s: a message of %d bytes was not refused", o.Form, o.N)
		}
		return nil
	}
	if it.Panic != "" {
		return violf("%s: a message of %d bytes was refused", o.Form, o.N)
	}
	if !it.Keep {
		return violf("%s of %d bytes changed bytes in front of it", o.Form, o.N)
	}
	r := &rd{b: it.Enc}
	var err error
	func() {
		defer protect(&err)
		if intOnly {
			if n := r.uv(); n != uint64(o.N) || r.more() {
				bad("length %d is written as % x", o.N, it.Enc)
			}
			return
		}
		id, wire := r.tag()
		if uint64(id) != o.ID || wire != 2 {
			bad("field %d wire type %d, expected field %d", id, wire, o.ID)
		}
		b := r.bytes()
		if r.more() || len(b) != o.N {
			bad("embedded %d bytes, %d expected", len(b), o.N)
		}
		for i, x := range b {
			if x != byte(i*7+3) {
				bad("embedded content differs at byte %d", i)
			}
		}
	}()
	if err != nil {
		return violf("%s: %v", o.Form, err)
	}
	return nil
}

// ---- C16 packed fields -----------------------------------------------------------------------

type packOp struct {
	Kind string
	A, B uint64
}

type c16Case struct{ Ops []packOp }

type packAns struct {
	Refused   bool
	A, B, Raw uint64
}

func genNear(t *rapid.T, bits int, label string) uint64 {
	lim := uint64(1) << bits
	switch wpick(t, label+"k", 3, 4, 2, 2, 1, 1) {
	case 5: // below zero, for the fields that take a signed value
		return -rapid.Uint64Range(1, 1<<rapid.IntRange(0, 62).Draw(t, label+"neg")).Draw(t, label)
	case 0:
		return rapid.Uint64Range(0, 5).Draw(t, label)
	case 1: // at the capacity
		return lim - 3 + rapid.Uint64Range(0, 6).Draw(t, label)
	case 2:
		return rapid.Uint64Range(0, lim-1).Draw(t, label)
	case 3: // a power of two and its neighbours, within and beyond
		v := uint64(1)<<rapid.IntRange(0, 62).Draw(t, label+"bit") + uint64(rapid.Int64Range(-1, 1).Draw(t, label))
		return v
	default:
		return rapid.Uint64Range(0, math.MaxInt64).Draw(t, label)
	}
}

var genPackOp = rapid.Custom(func(t *rapid.T) packOp {
	if rapid.Bool().Draw(t, "way") {
		return packOp{"way", genNear(t, 31, "a"), genNear(t, 33, "b")}
	}
	return packOp{"node", genNear(t, 24, "a"), genNear(t, 40, "b")}
})

func runC16(e *Env, c c16Case) error {
	var as []packAns
	if err := e.call("pack", c.Ops, &as); err != nil {
		return apiErr(err, "packing")
	}
	for i, a := range as {
		o := c.Ops[i]
		fits := o.A < 1<<24 && o.B < 1<<40
		n := "count/offset"
		if o.Kind == "way" {
			fits = o.A < 1<<31 && o.B < 1<<33
			n = "way id/offset"
		}
		if a.Refused {
			if fits {
				return violf("%s %d/%d fits but is refused", n, o.A, o.B)
			}
			continue
		}
		if a.A != o.A || a.B != o.B {
			return violf("%s %d/%d is read back as %d/%d", n, o.A, o.B, a.A, a.B)
		}
	}
	return nil
}

// node index built from a block whose single range is close to the capacity of the count field
type c16Range struct {
	First int64
	Count int64 // ids in the range, odd: written as every other id
	Pre   bool
}

func runC16Range(e *Env, c c16Range) error {
	dir, done := e.dir()
	defer done()
	n := (c.Count + 1) / 2
	// dense group with ids first, first+2, ...: the index fills the holes
	ids := make([]byte, 0, n+16)
	lat := make([]byte, 0, n+16)
	ids = putVar(ids, zz(c.First))
	lat = putVar(lat, zz(5))
	for i := int64(1); i < n; i++ {
		ids = append(ids, byte(zz(2)))
		lat = append(lat, 0)
	}
	blk := fMsg(2, "group", fMsg(2, "dense", fBytes(1, ids, "ids"), fBytes(8, lat, "lat"), fBytes(9, lat, "lon")))
	payload := putFields(nil, []*field{fMsg(1, "strings", fBytes(1, nil, "")), blk})
	blob := putFields(nil, []*field{fBytes(1, payload, "raw")})
	in, out := join(dir, "in.pbf"), join(dir, "out.idx")
	if err := writeFile(in, frame("OSMData", blob, false)); err != nil {
		return err
	}
	r, err := e.tool("nodeindex", "-r", "0", "-i", in, "-o", out, "-w", "2")
	if err != nil {
		return err
	}
	if !r.ok() {
		if c.Count < 1<<24 {
			return violf("a range of %d ids is refused: %s", c.Count, r)
		}
		return nil
	}
	ix, err := readNodeIdx(out)
	if err != nil {
		return violf("range of %d ids: unreadable node index: %v", c.Count, err)
	}
	if err := ix.check(); err != nil {
		return violf("range of %d ids: %v", c.Count, err)
	}
	var q []idxQuery
	ask := []int64{c.First, c.First + 1, c.First + 2, c.First + c.Count/2/2*2, c.First + c.Count - 3, c.First + c.Count - 1, c.First + c.Count, c.First + c.Count + 1}
	for _, x := range ask {
		q = append(q, idxQuery{0, x, 0})
	}
	var resp idxResp
	if err := e.call("index", idxReq{Kind: "node", File: out, Passes: 1, Queries: q}, &resp); err != nil {
		return apiErr(err, "node lookup")
	}
	want := encLoc(5, 5)
	for i, a := range resp.Ans {
		in := ask[i] >= c.First && ask[i] < c.First+c.Count && (ask[i]-c.First)%2 == 0
		if a.Found != in || in && a.Loc != want {
			return violf("range of %d ids from %d: lookup of %d gives found=%v loc=%d, expected found=%v", c.Count, c.First, ask[i], a.Found, a.Loc, in)
		}
	}
	return nil
}

// way index of a file with way ids around the capacity of the id field
type c16Way struct {
	IDs   []int64
	Align int
}

func runC16Way(e *Env, c c16Way) error {
	dir, done := e.dir()
	defer done()
	d := Doc{}
	g := Group{Kind: kWay}
	for i, id := range c.IDs {
		g.Ways = append(g.Ways, Way{ID: id, Refs: []int64{int64(i + 1), int64(i + 7), 3}})
	}
	d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Block: &Block{Groups: []Group{g}}})
	in, out := join(dir, "in.pbf"), join(dir, "out.idx")
	if err := d.write(in); err != nil {
		return err
	}
	r, err := e.tool("wayindex", "-r", "0", "-i", in, "-o", out, "-w", "1", "-a", itoa(c.Align))
	if err != nil {
		return err
	}
	fits := true
	for _, id := range c.IDs {
		fits = fits && id >= 0 && id < 1<<31
	}
	if !r.ok() {
		if fits {
			return violf("way ids %v are refused: %s", c.IDs, r)
		}
		return nil
	}
	w, err := readWayIdx(out)
	if err != nil {
		return violf("way ids %v: unreadable way index: %v", c.IDs, err)
	}
	got := wayMap(w)
	for i, id := range c.IDs {
		if !eqI64(got[id], g.Ways[i].Refs) {
			return violf("way %d is read back with refs %v", id, got[id])
		}
	}
	if len(got) != len(c.IDs) {
		return violf("the way index holds %d ways, the file %d", len(got), len(c.IDs))
	}
	return nil
}

// ---- C18 location encoding -------------------------------------------------------------------

type c18Case struct {
	X, Y []int32
	V    []uint64
}

type c18Resp struct {
	Enc      []uint64
	DX, DY   []uint32
	LX, LY   []int32
	VX, VY   []uint32
	VLX, VLY []int32
}

func interleave(x, y uint32) uint64 {
	var v uint64
	for i := 0; i < 32; i++ {
		v |= uint64(x>>i&1) << (2 * i)
		v |= uint64(y>>i&1) << (2*i + 1)
	}
	return v
}

func runC18(e *Env, c c18Case) error {
	var r c18Resp
	// pairs, and the same pairs as locations: latitude in range with its top bit set
	q := c18Case{V: c.V}
	for i := range c.X {
		q.X, q.Y = append(q.X, c.X[i]), append(q.Y, c.Y[i])
	}
	lon, lat := make([]int32, len(c.X)), make([]int32, len(c.X))
	for i := range c.X {
		lon[i] = int32(int64(c.X[i]) % 1800000001)
		lat[i] = int32(int64(c.Y[i]) % 900000001)
		q.X, q.Y = append(q.X, lon[i]), append(q.Y, int32(uint32(lat[i])|1<<31))
	}
	if err := e.call("morton", q, &r); err != nil {
		return apiErr(err, "location encoding")
	}
	for i := range q.X {
		x, y := uint32(q.X[i]), uint32(q.Y[i])
		if w := interleave(x, y); r.Enc[i] != w {
			return violf("(%#x,%#x) is encoded as %#x, expected %#x", x, y, r.Enc[i], w)
		}
		if r.DX[i] != x || r.DY[i] != y {
			return violf("(%#x,%#x) is decoded as (%#x,%#x)", x, y, r.DX[i], r.DY[i])
		}
	}
	for i := range lon {
		k := len(c.X) + i
		if int64(r.Enc[k]) >= 0 {
			return violf("location (%d,%d) is encoded as %d, not negative", lon[i], lat[i], int64(r.Enc[k]))
		}
		if r.LX[k] != lon[i] || r.LY[k] != lat[i] {
			return violf("location (%d,%d) is decoded as (%d,%d)", lon[i], lat[i], r.LX[k], r.LY[k])
		}
	}
	for i, v := range c.V {
		if w := interleave(r.VX[i], r.VY[i]); w != v {
			return violf("%#x is decoded as (%#x,%#x), which is the encoding %#x", v, r.VX[i], r.VY[i], w)
		}
		if k := len(q.X) + i; r.Enc[k] != v {
			return violf("%#x is decoded and encoded again as %#x", v, r.Enc[k])
		}
		if r.VLX[i] != int32(r.VX[i]) || r.VLY[i] != int32(r.VY[i]<<1)>>1 {
			return violf("%#x is decoded as location (%d,%d)", v, r.VLX[i], r.VLY[i])
		}
	}
	return nil
}

var genI32 = rapid.Custom(func(t *rapid.T) int32 {
	switch wpick(t, "i32", 3, 3, 3, 3) {
	case 0:
		return int32(rapid.Int64Range(-3, 3).Draw(t, "v"))
	case 1:
		return int32(uint32(1)<<rapid.IntRange(0, 31).Draw(t, "bit") + uint32(rapid.Int64Range(-1, 1).Draw(t, "d")))
	case 2:
		return rapid.SampledFrom([]int32{1800000000, -1800000000, 900000000, -900000000, math.MaxInt32, math.MinInt32, 0xff, 0x100, 0xffff, 0x10000, 0xffffff, 0x1000000, -0x100, -0x101, -0x10000, 0x55555555, -0x55555556}).Draw(t, "v")
	default:
		return int32(rapid.Uint32().Draw(t, "v"))
	}
})

// the tools' view: what nodeindex stores for a coordinate at the edge of the range
type c18Doc struct{ Lon, Lat []int32 }

func runC18Doc(e *Env, c c18Doc) error {
	dir, done := e.dir()
	defer done()
	g := Group{Kind: kNode}
	for i := range c.Lon {
		g.Nodes = append(g.Nodes, Node{ID: int64(i + 1), Lon: int64(c.Lon[i]), Lat: int64(c.Lat[i])})
	}
	d := Doc{Blobs: []Blob{{Type: "OSMData", Block: &Block{Groups: []Group{g}}}}}
	in, out := join(dir, "in.pbf"), join(dir, "out.idx")
	if err := d.write(in); err != nil {
		return err
	}
	if err := e.nodeindex(in, out, 1); err != nil {
		return err
	}
	ix, err := readNodeIdx(out)
	if err != nil {
		return violf("unreadable node index: %v", err)
	}
	got := ix.locations()
	enc := map[int64]int{}
	for i := range c.Lon {
		l := got[int64(i+1)]
		if l >= 0 {
			return violf("location (%d,%d) is stored as %d, not negative", c.Lon[i], c.Lat[i], l)
		}
		if w := int64(interleave(uint32(c.Lon[i]), uint32(c.Lat[i])|1<<31)); l != w {
			return violf("location (%d,%d) is stored as %#x, expected %#x", c.Lon[i], c.Lat[i], uint64(l), uint64(w))
		}
		if j, ok := enc[l]; ok && (c.Lon[j] != c.Lon[i] || c.Lat[j] != c.Lat[i]) {
			return violf("locations %d and %d are stored alike", i, j)
		}
		enc[l] = i
	}
	return nil
}

// ---- C21 progress markup ---------------------------------------------------------------------

type uiOp struct {
	Msg   string
	Width int
	Pct   float64
	NaN   bool
}

type uiAns struct{ Markup, Text, High string }

type c21Case struct{ Ops []uiOp }

var genUIOp = rapid.Custom(func(t *rapid.T) uiOp {
	o := uiOp{}
	n := rapid.SampledFrom([]int{0, 1, 2, 3, 5, 8, 20, 40, 79, 80, 81, 120}).Draw(t, "len")
	var b []byte
	ascii := !oneIn(t, 3, "nonascii")
	for i := 0; i < n; i++ {
		switch wpick(t, "ch", 5, 3, 1) {
		case 0:
			if ascii {
				b = append(b, rapid.SampledFrom([]byte("abN S:/.5")).Draw(t, "c"))
			} else {
				b = append(b, rapid.SampledFrom([]string{"ä", "ß", "é", "ж", "ø", "a", "…"}).Draw(t, "u")...)
			}
		case 1:
			b = append(b, '%')
		default:
			b = append(b, rapid.ByteRange(0x20, 0x7e).Draw(t, "c"))
		}
	}
	o.Msg = string(b)
	switch wpick(t, "width", 3, 3, 1) {
	case 0:
		o.Width = rapid.IntRange(1, 100).Draw(t, "w")
	case 1:
		o.Width = n + rapid.IntRange(-2, 2).Draw(t, "dw")
	default:
		o.Width = rapid.SampledFrom([]int{1, 80, 132, 1000}).Draw(t, "w")
	}
	if o.Width < 1 {
		o.Width = 1
	}
	switch wpick(t, "pct", 3, 3, 3, 1, 1) {
	case 0:
		o.Pct = rapid.SampledFrom([]float64{0, 1, 0.5, 0.999999999, 1e-12, 1.0000001, -0.1, 2, -5, 1e300, -1e300}).Draw(t, "p")
	case 1:
		o.Pct = float64(rapid.IntRange(0, o.Width).Draw(t, "k")) / float64(o.Width)
	case 2:
		o.Pct = rapid.Float64Range(0, 1).Draw(t, "p")
	case 3:
		o.Pct = rapid.Float64Range(-2, 3).Draw(t, "p")
	default:
		o.NaN = true
	}
	return o
})

func runC21(e *Env, c c21Case) error {
	var as []uiAns
	if err := e.call("ui", c.Ops, &as); err != nil {
		return apiErr(err, "progress markup")
	}
	for i, a := range as {
		o := c.Ops[i]
		want := o.Msg
		n := utf8.RuneCountInString(want)
		if n < o.Width {
			want += strings.Repeat(" ", o.Width-n)
			n = o.Width
		}
		desc := fmt.Sprintf("message %q width %d fraction %v (NaN %v)", o.Msg, o.Width, o.Pct, o.NaN)
		if a.Text != want {
			return violf("%s: shows %q, expected %q (markup %q)", desc, a.Text, want, a.Markup)
		}
		if o.NaN {
			continue
		}
		p := math.Max(0, math.Min(1, o.Pct))
		hi := int(float64(o.Width) * p)
		if hi > n {
			hi = n
		}
		if w := strings.Repeat("S", hi) + strings.Repeat("N", n-hi); a.High != w {
			return violf("%s: %d of %d characters are highlighted (%s), expected %d", desc, strings.Count(a.High, "S"), len(a.High), a.High, hi)
		}
	}
	return nil
}

type widgetCase struct {
	Kind     string
	Width    int
	Sizes    []int  `json:",omitempty"` // of the file's blocks
	Stops    []int  `json:",omitempty"`
	Name     string `json:",omitempty"`
	Pass     int    `json:",omitempty"`
	Passes   int    `json:",omitempty"`
	Total    uint64 `json:",omitempty"`
	Block    uint64 `json:",omitempty"`
	Advances []uint64
}

type widgetReq struct {
	Kind         string
	Width        int
	File         string
	Blocks       int
	Stops        []int
	Stop         []uint64
	Action       string
	Pass, Passes uint64
	Total, Block uint64
	Advances     []uint64
}

type widgetAns struct {
	Text    string
	High    int
	Rest    bool
	At, Max uint64
}

func genWidget(t *rapid.T) widgetCase {
	c := widgetCase{Kind: rapid.SampledFrom([]string{"file", "pass", "file", "pass", "nodecopy", "waycopy", "ways"}).Draw(t, "kind")}
	c.Width = rapid.SampledFrom([]int{1, 10, 40, 80, 132, 200, 250}).Draw(t, "width") + rapid.IntRange(0, 20).Draw(t, "dw")
	switch c.Kind {
	case "file", "pass":
		c.Sizes = rapid.SliceOfN(rapid.IntRange(0, 400), 1, 8).Draw(t, "sizes")
		k := 0
		for k <= len(c.Sizes) && len(c.Stops) < 4 {
			k += rapid.IntRange(0, 2).Draw(t, "stop")
			if k <= len(c.Sizes) {
				c.Stops = append(c.Stops, k)
			}
		}
		c.Name = rapid.SampledFrom([]string{"a.pbf", "100%.pbf", "%S%N.osm.pbf", "größe æøå.pbf", "план.pbf", "with some more words in it - %d 50%%.pbf"}).Draw(t, "name")
		c.Passes = rapid.SampledFrom([]int{1, 2, 3, 7, 100}).Draw(t, "passes")
		c.Pass = rapid.IntRange(0, c.Passes-1).Draw(t, "pass")
	default:
		c.Total = uint64(rapid.SampledFrom([]int{1, 2, 3, 1000, 1048576, 8 << 20, 1 << 40}).Draw(t, "total"))
		if c.Kind == "ways" {
			c.Total = uint64(rapid.IntRange(1, 8000).Draw(t, "ways"))
			c.Block = uint64(rapid.IntRange(0, 1<<20).Draw(t, "block"))
		}
		left := c.Total
		for i := rapid.IntRange(1, 5).Draw(t, "n"); i > 0; i-- {
			a := rapid.Uint64Range(0, left).Draw(t, "adv")
			c.Advances = append(c.Advances, a)
			left -= a
		}
	}
	return c
}

func runC21Widget(e *Env, c widgetCase) error {
	dir, done := e.dir()
	defer done()
	q := widgetReq{Kind: c.Kind, Width: c.Width, Blocks: len(c.Sizes), Stops: c.Stops, Action: "Check", Pass: uint64(c.Pass), Passes: uint64(c.Passes), Total: c.Total, Block: c.Block, Advances: c.Advances}
	var file []byte
	offs := []uint64{}
	for i, n := range c.Sizes {
		f := frame("OSMData", make([]byte, n), i%2 == 1)
		offs = append(offs, uint64(len(file)+len(f)-n))
		file = append(file, f...)
	}
	offs = append(offs, uint64(len(file)))
	if c.Kind == "file" || c.Kind == "pass" {
		q.File = join(dir, c.Name)
		if err := writeFile(q.File, file); err != nil {
			return err
		}
		for _, k := range c.Stops {
			q.Stop = append(q.Stop, offs[k])
		}
	}
	var as []widgetAns
	if err := e.call("widget", q, &as); err != nil {
		return apiErr(err, "the display")
	}
	at, max := uint64(0), c.Total
	for i, a := range as {
		var frac float64
		var must []string
		bar, tol := true, 0
		switch c.Kind {
		case "file", "pass":
			k := c.Stops[i]
			at, max = offs[k], uint64(len(file))
			if a.At != at || a.Max != max {
				return violf("with %d of %d blocks taken the position is %d of %d, the reader is at %d of %d", k, len(c.Sizes), a.At, a.Max, at, max)
			}
			frac = float64(at) / float64(max)
			if c.Kind == "pass" {
				frac = (float64(c.Pass) + frac) / float64(c.Passes)
				must = []string{fmt.Sprintf("%d/%d", c.Pass+1, c.Passes)}
				tol = 1 // rounding
			} else {
				must = []string{q.File}
				if k < len(c.Sizes) {
					must = append(must, fmt.Sprintf("%d/%d", at, max), pctText(float64(at), float64(max))+"%")
				} else {
					bar = false
				}
			}
		default:
			at += c.Advances[i]
			frac = float64(at) / float64(max)
			must = []string{fmt.Sprintf("%d/%d", at, max)}
			if c.Kind == "ways" {
				must = append(must, itoa(int(c.Block)))
			} else {
				must = append(must, pctText(float64(at), float64(max))+"%")
			}
		}
		desc := fmt.Sprintf("%s display %d columns wide at %d of %d (pass %d of %d): %q", c.Kind, c.Width, at, max, c.Pass+1, c.Passes, a.Text)
		if want := int(float64(c.Width) * frac); bar && (a.Rest || absInt(a.High-want) > tol) {
			return violf("%s: %d columns are highlighted (others, too: %v), expected %d", desc, a.High, a.Rest, want)
		} else if !bar && (a.Rest || a.High > 0) {
			return violf("%s is highlighted", desc)
		}
		if c.Width >= 120+len(q.File) {
			for _, m := range must {
				if !strings.Contains(a.Text, m) {
					return violf("%s does not contain %q", desc, m)
				}
			}
		}
	}
	return nil
}

// ---- C22 pool --------------------------------------------------------------------------------

type poolOp struct {
	Op string
	N  int
}

type c22Case struct {
	DefSize uint64
	Threads [][]poolOp
	Rounds  int
}

func genPoolOps(t *rapid.T, max int) []poolOp {
	sizes := []int{0, 1, 7, 100, 1000, 4096, 65535, 65536, 65537, 70000, 131072, 200001}
	g := rapid.Custom(func(t *rapid.T) poolOp {
		switch wpick(t, "op", 8, 6, 2, 2, 1) {
		case 0:
			if oneIn(t, 3, "any") {
				return poolOp{"get", rapid.IntRange(0, 3000).Draw(t, "n")}
			}
			return poolOp{"get", rapid.SampledFrom(sizes).Draw(t, "n")}
		case 1:
			return poolOp{"put", rapid.IntRange(0, 7).Draw(t, "n")}
		case 2:
			return poolOp{"wrap", rapid.SampledFrom(sizes[:10]).Draw(t, "n")}
		case 3:
			return poolOp{"putwrap", rapid.IntRange(0, 7).Draw(t, "n")}
		default:
			return poolOp{"gc", 0}
		}
	})
	return rapid.SliceOfN(g, 1, max).Draw(t, "ops")
}

func runC22(e *Env, c c22Case) error {
	var s string
	if err := e.call("pool", c, &s); err != nil {
		return apiErr(err, "buffer pool")
	}
	if s != "" {
		return violf("%s", s)
	}
	return nil
}

// ---- C23 block rebuild -----------------------------------------------------------------------

type c23Case struct{ Block Block } // up to three groups: nodes, ways, relations

type c23Tag struct{ K, V []byte }

type c23Node struct {
	ID       int64
	Lat, Lon int64
	Tags     []c23Tag
}

type c23Way struct {
	ID   int64
	Tags []c23Tag
	Refs []int64
}

type c23Rel struct {
	ID    int64
	Tags  []c23Tag
	Roles [][]byte
	Mem   []int64
	Types []int
}

type c23Content struct {
	Nodes []c23Node
	Ways  []c23Way
	Rels  []c23Rel
}

type c23Resp struct {
	Bytes   []byte
	Same    bool
	Decoded c23Content
	Strings [][]byte
}

func apiTags(ts []Tag) []c23Tag {
	var o []c23Tag
	for _, x := range ts {
		o = append(o, c23Tag{[]byte(x.K), []byte(x.V)})
	}
	return o
}

func unTags(ts []c23Tag) []Tag {
	var o []Tag
	for _, x := range ts {
		o = append(o, Tag{S(x.K), S(x.V)})
	}
	return o
}

func eqTags(a, b []Tag) bool {
	a, b = sortTags(a), sortTags(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC23(e *Env, c c23Case) error {
	var nodes []Node
	var ways []Way
	var rels []Rel
	var q c23Content
	freq := map[string]int{}
	count := func(ts []Tag) {
		for _, x := range ts {
			freq[string(x.K)]++
			freq[string(x.V)]++
		}
	}
	for gi := range c.Block.Groups {
		g := &c.Block.Groups[gi]
		switch g.Kind {
		case kNode:
			for _, n := range g.nodes() {
				nodes = append(nodes, n)
				// nanodegrees
				q.Nodes = append(q.Nodes, c23Node{n.ID, n.Lat, n.Lon, apiTags(n.Tags)})
				count(n.Tags)
			}
		case kWay:
			for _, w := range g.ways() {
				ways = append(ways, w)
				q.Ways = append(q.Ways, c23Way{w.ID, apiTags(w.Tags), w.Refs})
				count(w.Tags)
			}
		case kRel:
			for _, r := range g.rels() {
				rels = append(rels, r)
				x := c23Rel{ID: r.ID, Tags: apiTags(r.Tags)}
				for _, m := range r.Mem {
					x.Roles = append(x.Roles, []byte(m.Role))
					x.Mem = append(x.Mem, m.ID)
					x.Types = append(x.Types, m.Type)
					freq[string(m.Role)]++
				}
				q.Rels = append(q.Rels, x)
				count(r.Tags)
			}
		}
	}
	var resp c23Resp
	if err := e.call("block", q, &resp); err != nil {
		return apiErr(err, "rebuilding a block")
	}
	if !resp.Same {
		return violf("building the same block twice gives different bytes")
	}
	// decoded by this code
	var gotN []Node
	for _, n := range resp.Decoded.Nodes {
		gotN = append(gotN, Node{ID: n.ID, Lat: n.Lat, Lon: n.Lon, Tags: unTags(n.Tags)})
	}
	var gotW []Way
	for _, w := range resp.Decoded.Ways {
		gotW = append(gotW, Way{ID: w.ID, Tags: unTags(w.Tags), Refs: w.Refs})
	}
	var gotR []Rel
	for _, r := range resp.Decoded.Rels {
		x := Rel{ID: r.ID, Tags: unTags(r.Tags)}
		if len(r.Roles) != len(r.Mem) || len(r.Types) != len(r.Mem) {
			return violf("relation %d is decoded with %d members, %d roles and %d types", r.ID, len(r.Mem), len(r.Roles), len(r.Types))
		}
		for i := range r.Mem {
			x.Mem = append(x.Mem, Member{ID: r.Mem[i], Type: r.Types[i], Role: S(r.Roles[i])})
		}
		gotR = append(gotR, x)
	}
	if err := sameEntities("decoded by the code", gotN, gotW, gotR, nodes, ways, rels, 1); err != nil {
		return err
	}
	// decoded independently
	blk, err := decodeBlock(resp.Bytes)
	if err != nil {
		return violf("the serialised block is not valid: %v", err)
	}
	if blk.Gran != 100 || blk.LatOff != 0 || blk.LonOff != 0 || blk.DateGran != 1000 {
		return violf("the block has granularity %d, date granularity %d, offsets %d %d", blk.Gran, blk.DateGran, blk.LatOff, blk.LonOff)
	}
	gotN, gotW, gotR = nil, nil, nil
	for _, g := range blk.Groups {
		gotN = append(gotN, g.Nodes...)
		gotW = append(gotW, g.Ways...)
		gotR = append(gotR, g.Rels...)
	}
	if err := sameEntities("decoded independently", gotN, gotW, gotR, nodes, ways, rels, 100); err != nil {
		return err
	}
	// string table
	st := resp.Strings
	if len(st) == 0 || len(st[0]) != 0 {
		return violf("the string table does not start with the empty string")
	}
	delete(freq, "")
	var want []string
	for s := range freq {
		want = append(want, s)
	}
	sort.Slice(want, func(i, j int) bool {
		if freq[want[i]] != freq[want[j]] {
			return freq[want[i]] > freq[want[j]]
		}
		return want[i] < want[j]
	})
	if len(st)-1 != len(want) {
		return violf("the string table holds %d strings besides the empty one, %d are in use", len(st)-1, len(want))
	}
	for i, w := range want {
		if string(st[i+1]) != w {
			return violf("string %d is %q, expected %q (used %d times)", i+1, clipStr(string(st[i+1]), 60), clipStr(w, 60), freq[w])
		}
	}
	for i := range st {
		if i >= len(blk.Strings) || string(blk.Strings[i]) != string(st[i]) {
			return violf("the serialised string table differs from the decoded one at %d", i)
		}
	}
	return nil
}

// scale: the unit of got locations in nanodegrees; locations are compared when they are multiples of 100
func sameEntities(how string, gn []Node, gw []Way, gr []Rel, n []Node, w []Way, r []Rel, scale int64) error {
	if len(gn) != len(n) || len(gw) != len(w) || len(gr) != len(r) {
		return violf("%s: %d nodes, %d ways, %d relations; %d, %d, %d went in", how, len(gn), len(gw), len(gr), len(n), len(w), len(r))
	}
	for i := range n {
		if gn[i].ID != n[i].ID {
			return violf("%s: node %d of the list has id %d, expected %d", how, i, gn[i].ID, n[i].ID)
		}
		if !eqTags(gn[i].Tags, n[i].Tags) {
			return violf("%s: node %d has tags %q, expected %q", how, n[i].ID, gn[i].Tags, n[i].Tags)
		}
		if n[i].Lat%100 == 0 && n[i].Lon%100 == 0 && (gn[i].Lat*scale != n[i].Lat || gn[i].Lon*scale != n[i].Lon) {
			return violf("%s: node %d is at (%d,%d), expected (%d,%d)", how, n[i].ID, gn[i].Lon*scale, gn[i].Lat*scale, n[i].Lon, n[i].Lat)
		}
	}
	for i := range w {
		if gw[i].ID != w[i].ID || !eqI64(gw[i].Refs, w[i].Refs) || !eqTags(gw[i].Tags, w[i].Tags) {
			return violf("%s: way %d became way %d, refs %s (expected %s), tags %q (expected %q)", how, w[i].ID, gw[i].ID, showI64(gw[i].Refs), showI64(w[i].Refs), gw[i].Tags, w[i].Tags)
		}
	}
	for i := range r {
		if gr[i].ID != r[i].ID || !eqTags(gr[i].Tags, r[i].Tags) || len(gr[i].Mem) != len(r[i].Mem) {
			return violf("%s: relation %d became relation %d with %d members (expected %d), tags %q (expected %q)", how, r[i].ID, gr[i].ID, len(gr[i].Mem), len(r[i].Mem), gr[i].Tags, r[i].Tags)
		}
		for k := range r[i].Mem {
			if gr[i].Mem[k] != r[i].Mem[k] {
				return violf("%s: relation %d member %d is %v, expected %v", how, r[i].ID, k, gr[i].Mem[k], r[i].Mem[k])
			}
		}
	}
	return nil
}

// ---- C25 tracker -----------------------------------------------------------------------------

type trackOp struct {
	Op string
	W  int
}

type c25Case struct {
	Ops     []trackOp   `json:",omitempty"`
	Threads [][]trackOp `json:",omitempty"`
	Base    int
	Rounds  int
}

func runC25(e *Env, c c25Case) error {
	var s string
	if err := e.call("tracker", c, &s); err != nil {
		return apiErr(err, "worker tracking")
	}
	if s != "" {
		return violf("%s", s)
	}
	return nil
}

// ---- C17 pipeline ----------------------------------------------------------------------------

type pipeBlob struct {
	Header bool
	Len    int
	Seed   int
}

type c17Case struct {
	Blobs     []pipeBlob
	Workers   int
	Plan      []int
	WriteGate []int
	CancelAt  int
	NoWriter  bool
	Free      bool
}

type pipeReq struct {
	File      string
	Workers   int
	Blocks    int
	Plan      []int
	WriteGate []int
	CancelAt  int
	NoWriter  bool
	Free      bool
}

type pipeDelivery struct {
	Index uint64
	Type  string
	Hash  string
	Len   int
}

type pipeResp struct {
	Delivered, Written []pipeDelivery
	Hung, Early        bool
	Note               string
}

func runC17(e *Env, c c17Case) error {
	dir, done := e.dir()
	defer done()
	var file []byte
	var want []pipeDelivery
	for i, b := range c.Blobs {
		data := make([]byte, b.Len)
		r := rng{uint64(b.Seed)*977 + uint64(i)}
		for k := range data {
			data[k] = byte(r.u())
		}
		typ := "OSMData"
		if b.Header {
			typ = "OSMHeader"
		}
		file = append(file, frame(typ, data, b.Seed%3 == 0)...)
		h := sha256.Sum256(data)
		want = append(want, pipeDelivery{uint64(i), typ, hex.EncodeToString(h[:8]), b.Len})
	}
	in := join(dir, "in.pbf")
	if err := writeFile(in, file); err != nil {
		return err
	}
	var r pipeResp
	err := e.call("pipe", pipeReq{File: in, Workers: c.Workers, Blocks: len(c.Blobs), Plan: c.Plan, WriteGate: c.WriteGate, CancelAt: c.CancelAt, NoWriter: c.NoWriter, Free: c.Free}, &r)
	if err != nil {
		return apiErr(err, "the pipeline")
	}
	if r.Hung {
		return violf("the run did not end (%d of %d blocks delivered, %d written)", len(r.Delivered), len(want), len(r.Written))
	}
	if r.Early {
		return violf("the run was reported finished while work was going on: %s", r.Note)
	}
	seen := map[uint64]bool{}
	for _, d := range r.Delivered {
		if d.Index >= uint64(len(want)) {
			return violf("a block %d was delivered, the file has %d", d.Index, len(want))
		}
		if seen[d.Index] {
			return violf("block %d was delivered twice", d.Index)
		}
		seen[d.Index] = true
		if d != want[d.Index] {
			return violf("block %d was delivered as %+v, expected %+v", d.Index, d, want[d.Index])
		}
	}
	if c.CancelAt < 0 && len(seen) != len(want) {
		return violf("%d of %d blocks were delivered", len(seen), len(want))
	}
	if c.NoWriter {
		return nil
	}
	for i, d := range r.Written {
		if d.Index != uint64(i) {
			return violf("result %d written is that of block %d", i, d.Index)
		}
		if d != want[i] {
			return violf("block %d was written as %+v, expected %+v", i, d, want[i])
		}
	}
	if len(r.Written) != len(r.Delivered) {
		return violf("%d blocks were delivered and %d results written", len(r.Delivered), len(r.Written))
	}
	return nil
}

func genC17(t *rapid.T, cancel bool) c17Case {
	c := c17Case{CancelAt: -1}
	c.Workers = rapid.SampledFrom([]int{1, 2, 3, 4, 5, 8, 16}).Draw(t, "workers")
	max := 14
	if oneIn(t, 10, "many") {
		max = 80
	}
	n := rapid.IntRange(1, max).Draw(t, "blobs")
	for i := 0; i < n; i++ {
		b := pipeBlob{Header: oneIn(t, 4, "hdr"), Len: rapid.IntRange(1, 40).Draw(t, "len"), Seed: rapid.IntRange(0, 1000).Draw(t, "seed")}
		if oneIn(t, 30, "big") {
			b.Len = rapid.SampledFrom([]int{127, 128, 4096, 16384, 70000}).Draw(t, "biglen")
		}
		c.Blobs = append(c.Blobs, b)
	}
	for i := 0; i < n; i++ {
		c.Plan = append(c.Plan, rapid.IntRange(0, 15).Draw(t, "plan"))
	}
	c.NoWriter = oneIn(t, 8, "nowriter")
	c.Free = oneIn(t, 6, "free")
	if oneIn(t, 2, "gate") {
		c.WriteGate = rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 5, 20, 60, 300}), 0, n+1).Draw(t, "gates")
	}
	if cancel {
		c.CancelAt = rapid.IntRange(0, n).Draw(t, "cancel")
		c.Free = false
	}
	return c
}

// genC22Tools makes files of compressed blocks of similar sizes, so that workers pass the same buffers around.
func genC22Tools(t *rapid.T) c12Case {
	return genC12(t, func(t *rapid.T) Doc {
		g := &docGen{t: t, o: docOpt{kinds: kNode | kWay | kRel, nodeTags: true, negRefs: true, maxPer: 4, bulkN: 800}}
		d := Doc{Blobs: []Blob{headerBlob(t)}}
		n, strs := rapid.IntRange(4, 24).Draw(t, "n"), rapid.SampledFrom([]int{20, 300, 4000}).Draw(t, "strs")
		only := rapid.SampledFrom([]int{0, 0, kNode, kWay, kRel}).Draw(t, "only")
		for i := 0; i < n; i++ {
			k := only
			if k == 0 {
				k = rapid.SampledFrom([]int{kNode, kWay, kRel}).Draw(t, "k")
			}
			b := &Block{XStr: strs, StrSeed: i + 1}
			if oneIn(t, 4, "big") {
				b.Groups = []Group{g.bulkGroup(b, Group{Kind: k}, k)}
			} else {
				b.Groups = []Group{g.group(b, k)}
			}
			d.Blobs = append(d.Blobs, Blob{Type: "OSMData", Level: rapid.SampledFrom([]int{1, 6, 6, -1}).Draw(t, "lvl"), Block: b})
		}
		return d
	}, 2)
}

func init() {
	register(&Property{ID: "C13", Drivers: []string{"codec"}, Arms: []*Arm{
		arm("forms", 4000, "batches of encode/decode operations over all wire forms against the harness's own protobuf codec; non-trivial: at least three operations",
			func(t *rapid.T) c13Case {
				return c13Case{rapid.SliceOfN(genCodecOp, 1, 20).Draw(t, "ops")}
			}, runC13, func(c c13Case) Class {
				var l []string
				seen := map[string]bool{}
				for _, o := range c.Ops {
					if !seen[o.Form] {
						seen[o.Form] = true
						l = append(l, o.Form)
					}
				}
				return Class{len(c.Ops) >= 3, l}
			}),
	}})
	register(&Property{ID: "C16", Tools: []string{"nodeindex", "wayindex"}, Drivers: []string{"pack", "index"}, Arms: []*Arm{
		arm("pack", 3000, "batches of packed entries around every field capacity, and below zero; non-trivial: at least one value within 3 of a capacity",
			func(t *rapid.T) c16Case { return c16Case{rapid.SliceOfN(genPackOp, 1, 40).Draw(t, "ops")} },
			runC16, func(c c16Case) Class {
				nt := false
				for _, o := range c.Ops {
					a, b := uint64(1<<24), uint64(1<<40)
					if o.Kind == "way" {
						a, b = 1<<31, 1<<33
					}
					nt = nt || o.A-(a-3) < 7 || o.B-(b-3) < 7
				}
				return Class{nt, nil}
			}),
		arm("ways", 160, "way index of files with way ids around 2^31; or below zero; non-trivial: an id within 4 of 2^31 or below zero",
			func(t *rapid.T) c16Way {
				c := c16Way{Align: genAlign(t)}
				id := int64(0)
				if oneIn(t, 5, "neg") { // a file of an editor: new ways have ids below zero
					id = -rapid.SampledFrom([]int64{1, 2, 3, 1 << 30, 1 << 31, 1<<31 + 2, 1 << 33, 1 << 62}).Draw(t, "first") - 1
				}
				for i, n := 0, rapid.IntRange(1, 5).Draw(t, "n"); i < n; i++ {
					if oneIn(t, 2, "jump") && id < 1<<31-5 {
						id = maxI(id+1, rapid.SampledFrom([]int64{1<<31 - 4, 1<<31 - 3, 1<<31 - 2, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1 << 30}).Draw(t, "id"))
					} else {
						id += rapid.Int64Range(1, 3).Draw(t, "gap")
					}
					c.IDs = append(c.IDs, id)
				}
				return c
			}, runC16Way, func(c c16Way) Class {
				nt := false
				for _, id := range c.IDs {
					nt = nt || id >= 1<<31-4 || id < 0
				}
				return Class{nt, nil}
			}),
		arm("range", 6, "node index of a block holding one range of about 2^24 ids; non-trivial: all",
			func(t *rapid.T) c16Range {
				return c16Range{First: rapid.Int64Range(1, 9).Draw(t, "first"), Count: rapid.SampledFrom([]int64{1<<24 - 1, 1<<24 + 1, 1<<24 - 3, 1<<24 + 3, 1<<24 + 1<<20 + 1}).Draw(t, "count")}
			}, runC16Range, func(c c16Range) Class { return Class{true, nil} }),
	}})
	register(&Property{ID: "C17", Drivers: []string{"pipe"}, Arms: []*Arm{
		arm("order", 6000, "block files run with a chosen order of worker completion; non-trivial: at least 2 workers and 3 blocks",
			func(t *rapid.T) c17Case { return genC17(t, false) }, runC17,
			func(c c17Case) Class {
				return Class{c.Workers >= 2 && len(c.Blobs) >= 3, []string{"workers-" + itoa(c.Workers)}}
			}),
		arm("cancel", 3000, "the same, cancelled at a chosen step; non-trivial: at least 2 workers and 3 blocks",
			func(t *rapid.T) c17Case { return genC17(t, true) }, runC17,
			func(c c17Case) Class {
				return Class{c.Workers >= 2 && len(c.Blobs) >= 3, []string{"workers-" + itoa(c.Workers)}}
			}),
	}})
	register(&Property{ID: "C18", Tools: []string{"nodeindex"}, Drivers: []string{"morton"}, Arms: []*Arm{
		arm("pairs", 3000, "batches of 32-bit pairs, locations and 64-bit values against bit-by-bit interleaving; non-trivial: at least four pairs",
			func(t *rapid.T) c18Case {
				n := rapid.IntRange(1, 40).Draw(t, "n")
				c := c18Case{}
				for i := 0; i < n; i++ {
					c.X = append(c.X, genI32.Draw(t, "x"))
					c.Y = append(c.Y, genI32.Draw(t, "y"))
				}
				c.V = rapid.SliceOfN(genU64, 0, 20).Draw(t, "v")
				return c
			}, runC18, func(c c18Case) Class { return Class{len(c.X) >= 4, nil} }),
		arm("stored", 300, "nodes at boundary coordinates through nodeindex; non-trivial: at least four nodes",
			func(t *rapid.T) c18Doc {
				n := rapid.IntRange(1, 30).Draw(t, "n")
				c := c18Doc{}
				for i := 0; i < n; i++ {
					c.Lon = append(c.Lon, int32(clampI(genUnits.Draw(t, "lon"), -1800000000, 1800000000)))
					c.Lat = append(c.Lat, int32(clampI(genUnits.Draw(t, "lat"), -900000000, 900000000)))
				}
				return c
			}, runC18Doc, func(c c18Doc) Class { return Class{len(c.Lon) >= 4, nil} }),
	}})
	register(&Property{ID: "C21", Drivers: []string{"ui", "widget"}, Arms: []*Arm{
		arm("markup", 4000, "batches of messages, widths and fractions rendered by the styled text widget; non-trivial: a message with a percent sign and a fraction in (0,1]",
			func(t *rapid.T) c21Case { return c21Case{rapid.SliceOfN(genUIOp, 1, 12).Draw(t, "ops")} },
			runC21, func(c c21Case) Class {
				nt := false
				for _, o := range c.Ops {
					nt = nt || strings.Contains(o.Msg, "%") && o.Pct > 0
				}
				return Class{nt, nil}
			}),
		arm("widgets", 250, "widgets of the display (file, pass, copying, ways) drawn on simulated screens of 1 to 270 columns x states reached through the real pipeline or the state API; non-trivial: an update between start and end",
			genWidget, runC21Widget, func(c widgetCase) Class {
				nt := len(c.Advances) > 1 || len(c.Stops) > 1
				return Class{nt, []string{c.Kind}}
			}),
	}})
	register(&Property{ID: "C22", Tools: allTools, Drivers: []string{"pool"}, Arms: []*Arm{
		arm("history", 4000, "histories of borrowing, wrapping and returning in one goroutine; non-trivial: at least two borrows and a return",
			func(t *rapid.T) c22Case {
				c := c22Case{Rounds: 1, Threads: [][]poolOp{genPoolOps(t, 25)}}
				if rapid.Bool().Draw(t, "own") {
					c.DefSize = uint64(rapid.SampledFrom([]int{1, 64, 1000, 65536}).Draw(t, "def"))
				}
				return c
			}, runC22, func(c c22Case) Class {
				g, p := 0, 0
				for _, o := range c.Threads[0] {
					if o.Op == "get" {
						g++
					} else if o.Op == "put" {
						p++
					}
				}
				return Class{g >= 2 && p >= 1, nil}
			}),
		arm("threads", 400, "concurrent histories on one pool, several rounds; non-trivial: at least two goroutines",
			func(t *rapid.T) c22Case {
				c := c22Case{Rounds: rapid.IntRange(1, 8).Draw(t, "rounds")}
				if rapid.Bool().Draw(t, "own") {
					c.DefSize = uint64(rapid.SampledFrom([]int{1, 64, 1000, 65536}).Draw(t, "def"))
				}
				for i, n := 0, rapid.IntRange(2, 6).Draw(t, "threads"); i < n; i++ {
					c.Threads = append(c.Threads, genPoolOps(t, 12))
				}
				return c
			}, runC22, func(c c22Case) Class { return Class{len(c.Threads) >= 2, nil} }),
		arm("tools", 40, "files of compressed blocks, each with a string table of its own, through every tool with many workers, against one worker: a buffer given back while its block is still in use shows as data of another block; non-trivial: four data blocks",
			genC22Tools, runC12, func(c c12Case) Class {
				_, _, _, b := c.Doc.kinds()
				return Class{b >= 4, nil}
			}),
	}})
	register(&Property{ID: "C23", Drivers: []string{"block"}, Arms: []*Arm{
		arm("entities", 4000, "lists of nodes, ways and relations built into a block and decoded twice; non-trivial: at least two entities and two distinct strings",
			func(t *rapid.T) c23Case { return c23Case{genRebuild(t, false)} },
			runC23, classC23),
		arm("large", 160, "the same with thousands of entities or ways of up to 2000 far-apart refs; non-trivial: as above",
			func(t *rapid.T) c23Case { return c23Case{genRebuild(t, true)} },
			runC23, classC23),
	}})
	genTrack := func(t *rapid.T, label string, kinds []string, max int) []trackOp {
		return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) trackOp {
			return trackOp{rapid.SampledFrom(kinds).Draw(t, "op"), rapid.IntRange(0, 9).Draw(t, "w")}
		}), 1, max).Draw(t, label)
	}
	register(&Property{ID: "C25", Drivers: []string{"tracker"}, Arms: []*Arm{
		arm("history", 5000, "histories of workers starting and finishing with snapshots and refreshes against a list model; non-trivial: at least 5 operations including an end",
			func(t *rapid.T) c25Case {
				return c25Case{Ops: genTrack(t, "ops", []string{"track", "track", "track", "untrack", "untrack", "snap", "refresh"}, 40)}
			}, runC25, func(c c25Case) Class {
				u := 0
				for _, o := range c.Ops {
					if o.Op == "untrack" {
						u++
					}
				}
				return Class{len(c.Ops) >= 5 && u > 0, nil}
			}),
		arm("threads", 240, "concurrent histories with a display refreshing and a reader taking snapshots; non-trivial: at least two goroutines",
			func(t *rapid.T) c25Case {
				c := c25Case{Rounds: rapid.IntRange(1, 20).Draw(t, "rounds"), Base: rapid.SampledFrom([]int{0, 1, 20, 100}).Draw(t, "base")}
				for i, n := 0, rapid.IntRange(2, 5).Draw(t, "threads"); i < n; i++ {
					c.Threads = append(c.Threads, genTrack(t, "ops", []string{"track", "track", "untrack", "yield"}, 12))
				}
				return c
			}, runC25, func(c c25Case) Class { return Class{len(c.Threads) >= 2, nil} }),
	}})
}

func classC23(c c23Case) Class {
	n := 0
	strs := map[S]bool{}
	var l []string
	for gi := range c.Block.Groups {
		g := &c.Block.Groups[gi]
		n += g.count()
		for _, x := range g.Nodes {
			for _, t := range x.Tags {
				strs[t.K] = true
				strs[t.V] = true
			}
		}
		for _, x := range g.Ways {
			for _, t := range x.Tags {
				strs[t.K] = true
			}
		}
		for _, x := range g.Rels {
			for _, m := range x.Mem {
				strs[m.Role] = true
			}
		}
		if g.Bulk != nil {
			l = append(l, "bulk")
			strs["x"], strs["y"] = true, true
		}
	}
	if strs[""] {
		l = append(l, "empty-string")
	}
	return Class{n >= 2 && len(strs) >= 2, l}
}

// genRebuild draws the entities of one block; node coordinates are nanodegrees.
func genRebuild(t *rapid.T, large bool) Block {
	var b Block
	d := genDoc(t, docOpt{kinds: kNode | kWay | kRel, maxPer: 6, maxBlobs: 3, nodeTags: true, negRefs: true, exact: true, noHeader: true, bigGaps: true, anyWayID: true, loose: true})
	scale := rapid.IntRange(0, 5).Draw(t, "sub")
	for _, kind := range []int{kNode, kWay, kRel} {
		for i := range d.Blobs {
			if d.Blobs[i].Block == nil {
				continue
			}
			for _, g := range d.Blobs[i].Block.Groups {
				if g.Kind != kind {
					continue
				}
				if kind == kNode {
					for k := range g.Nodes {
						g.Nodes[k].Lat *= 100
						g.Nodes[k].Lon *= 100
						if scale == 5 && k%3 == 2 {
							g.Nodes[k].Lat += 37 // not representable: only the other fields are compared
						}
					}
				}
				b.Groups = append(b.Groups, g)
			}
		}
	}
	if large {
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0: // a way of up to 2000 refs, far apart
			w := Way{ID: rapid.Int64Range(1, 1<<40).Draw(t, "wid"), Tags: genTags(t, 2)}
			n := rapid.SampledFrom([]int{2000, 1999, 1500, 1630, 1640, 1800, 33000, 70000}).Draw(t, "n")
			r := rng{uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
			mode := rapid.IntRange(0, 2).Draw(t, "refmode")
			for i := 0; i < n; i++ {
				switch mode {
				case 0:
					w.Refs = append(w.Refs, encLoc(int32(r.n(3600000001)-1800000000), int32(r.n(1800000001)-900000000)))
				case 1:
					w.Refs = append(w.Refs, 1+r.n(1<<34))
				default:
					if i%2 == 0 {
						w.Refs = append(w.Refs, encLoc(int32(r.n(3600000001)-1800000000), int32(r.n(1800000001)-900000000)))
					} else {
						w.Refs = append(w.Refs, 1+r.n(1<<34))
					}
				}
			}
			b.Groups = append(b.Groups, Group{Kind: kWay, Ways: []Way{w}})
		case 1: // a relation with thousands of members
			rel := Rel{ID: rapid.Int64Range(1, 1<<40).Draw(t, "rid"), Tags: genTags(t, 2)}
			n := rapid.SampledFrom([]int{2000, 9000, 32000, 33000, 70000}).Draw(t, "n")
			r := rng{uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
			roles := []S{"", "inner", "outer", "stop", "x"}
			for i := 0; i < n; i++ {
				rel.Mem = append(rel.Mem, Member{ID: 1 + r.n(1<<34), Type: int(r.n(3)), Role: roles[r.n(5)]})
			}
			b.Groups = append(b.Groups, Group{Kind: kRel, Rels: []Rel{rel}})
		default: // thousands of tagged nodes
			g := Group{Kind: kNode}
			n := rapid.SampledFrom([]int{1000, 8000, 8001}).Draw(t, "n")
			vals := int64(400)
			if oneIn(t, 4, "uniq") { // more strings than two bytes or 16 bits can number
				n, vals = rapid.SampledFrom([]int{20000, 100000}).Draw(t, "nuniq"), 1<<40
			}
			r := rng{uint64(rapid.IntRange(1, 1<<30).Draw(t, "seed"))}
			id := int64(0)
			for i := 0; i < n; i++ {
				id += 1 + r.n(5)
				nd := Node{ID: id, Lat: (r.n(1800000001) - 900000000) * 100, Lon: (r.n(3600000001) - 1800000000) * 100}
				for k := int64(0); k < r.n(3); k++ {
					nd.Tags = append(nd.Tags, Tag{S(fmt.Sprint("k", k)), S(fmt.Sprint(r.n(vals)))})
				}
				g.Nodes = append(g.Nodes, nd)
			}
			b.Groups = append(b.Groups, g)
		}
	}
	return b
}
