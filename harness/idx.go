package main

import (
	"encoding/binary"
	"fmt"
	"os"
)

// Readers of the three index formats, written from ENCODING.md only.

type nodeElem struct {
	First, Count, Off uint64
}

type nodeIdx struct {
	Elems []nodeElem
	Locs  []int64
}

func u64s(b []byte) []uint64 {
	o := make([]uint64, len(b)/8)
	for i := range o {
		o[i] = binary.LittleEndian.Uint64(b[i*8:])
	}
	return o
}

func readNodeIdx(path string) (*nodeIdx, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return parseNodeIdx(b)
}

func parseNodeIdx(b []byte) (*nodeIdx, error) {
	if len(b) < 16 || len(b)%8 != 0 {
		return nil, fmt.Errorf("node index is %d bytes long", len(b))
	}
	w := u64s(b)
	if w[0] != 1 {
		return nil, fmt.Errorf("node index version %d", w[0])
	}
	n := w[1]
	if n > uint64(len(w)-2)/2 {
		return nil, fmt.Errorf("node index claims %d elements in %d words", n, len(w))
	}
	ix := &nodeIdx{}
	for i := uint64(0); i < n; i++ {
		id, co := w[2+2*i], w[3+2*i]
		ix.Elems = append(ix.Elems, nodeElem{id, co & (1<<24 - 1), co >> 24})
	}
	for _, v := range w[2+2*n:] {
		ix.Locs = append(ix.Locs, int64(v))
	}
	return ix, nil
}

// check verifies the documented structure of the whole file.
func (ix *nodeIdx) check() error {
	next := uint64(0)
	for i, e := range ix.Elems {
		if e.Count == 0 {
			return fmt.Errorf("element %d (first id %d) is empty", i, e.First)
		}
		if e.Off != next {
			return fmt.Errorf("element %d (first id %d) has offset %d, the elements before it hold %d locations", i, e.First, e.Off, next)
		}
		if i > 0 {
			p := ix.Elems[i-1]
			if e.First <= p.First+p.Count-1 {
				return fmt.Errorf("element %d starts at id %d, the one before ends at %d", i, e.First, p.First+p.Count-1)
			}
		}
		next += e.Count
	}
	if next != uint64(len(ix.Locs)) {
		return fmt.Errorf("elements cover %d locations, the file holds %d", next, len(ix.Locs))
	}
	for i, l := range ix.Locs {
		if l > 0 {
			return fmt.Errorf("location %d is %d: neither 0 nor negative", i, l)
		}
	}
	return nil
}

func (ix *nodeIdx) locations() map[int64]int64 {
	m := map[int64]int64{}
	for _, e := range ix.Elems {
		for j := uint64(0); j < e.Count && e.Off+j < uint64(len(ix.Locs)); j++ {
			if l := ix.Locs[e.Off+j]; l != 0 {
				m[int64(e.First+j)] = l
			}
		}
	}
	return m
}

type wayElem struct {
	ID  int64
	Off int64 // in blocks
	Loc []int64
}

type wayIdx struct {
	Shift int
	Elems []wayElem
	Data  []byte
}

func readWayIdx(path string) (*wayIdx, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	if len(b) < 16 {
		return nil, fmt.Errorf("way index is %d bytes long", len(b))
	}
	n, sh := binary.LittleEndian.Uint64(b), binary.LittleEndian.Uint64(b[8:])
	if sh > 40 {
		return nil, fmt.Errorf("alignment shift %d", sh)
	}
	if n > uint64(len(b)-16)/8 {
		return nil, fmt.Errorf("way index claims %d elements in %d bytes", n, len(b))
	}
	ix := &wayIdx{Shift: int(sh), Data: b[16+8*n:]}
	for i := uint64(0); i < n; i++ {
		v := binary.LittleEndian.Uint64(b[16+8*i:])
		e := wayElem{ID: int64(v >> 33), Off: int64(v & (1<<33 - 1))}
		if e.Off<<sh >= int64(len(ix.Data)) {
			return nil, fmt.Errorf("way %d at block %d: outside the %d bytes of location data", e.ID, e.Off, len(ix.Data))
		}
		p := ix.Data[e.Off<<sh:]
		last := int64(0)
		for {
			u, k := binary.Uvarint(p)
			if k <= 0 {
				return nil, fmt.Errorf("way %d: location block is not terminated", e.ID)
			}
			p = p[k:]
			if u == 0 {
				break
			}
			last += unzz(u)
			e.Loc = append(e.Loc, last)
		}
		ix.Elems = append(ix.Elems, e)
	}
	return ix, nil
}

// check verifies that blocks follow each other in element order on aligned positions, zero padded,
// with every byte accounted for.
func (ix *wayIdx) check() error {
	al := int64(1) << ix.Shift
	if int64(len(ix.Data))%al != 0 {
		return fmt.Errorf("%d bytes of location data are not a multiple of %d", len(ix.Data), al)
	}
	for i, e := range ix.Elems {
		start := e.Off * al
		end := int64(len(ix.Data))
		if i+1 < len(ix.Elems) {
			end = ix.Elems[i+1].Off * al
		}
		if i == 0 && start != 0 {
			return fmt.Errorf("first block starts at %d", start)
		}
		if end <= start {
			return fmt.Errorf("element %d: block %d is followed by block at %d", i, start, end)
		}
		n := int64(len(encZero(e.Loc)))
		if start+n > end {
			return fmt.Errorf("way %d: block of %d bytes runs into the next", e.ID, n)
		}
		if end-start-n > al {
			return fmt.Errorf("way %d: %d bytes of padding with alignment %d", e.ID, end-start-n, al)
		}
		for _, c := range ix.Data[start+n : end] {
			if c != 0 {
				return fmt.Errorf("way %d: padding is not zero", e.ID)
			}
		}
	}
	if len(ix.Elems) == 0 && len(ix.Data) != 0 {
		return fmt.Errorf("%d bytes of location data for no ways", len(ix.Data))
	}
	return nil
}

func encZero(l []int64) []byte {
	return append(packDelta(l), 0)
}

type relWay struct {
	ID  int64
	Loc []int64
}

type relEnt struct {
	ID   int64
	Ways []relWay
}

func readRelIdx(path string) ([]relEnt, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	if len(b)%8 != 0 {
		return nil, fmt.Errorf("relation index is %d bytes long", len(b))
	}
	w := u64s(b)
	p := 0
	next := func(what string) (int64, error) {
		if p >= len(w) {
			return 0, fmt.Errorf("relation index ends inside %s", what)
		}
		p++
		return int64(w[p-1]), nil
	}
	var out []relEnt
	for p < len(w) {
		var r relEnt
		r.ID, _ = next("relation")
		n, err := next("relation")
		if err != nil {
			return nil, err
		}
		if n < 0 || n > int64(len(w)) {
			return nil, fmt.Errorf("relation %d: way count %d", r.ID, n)
		}
		for i := int64(0); i < n; i++ {
			var wy relWay
			if wy.ID, err = next("way"); err != nil {
				return nil, err
			}
			if wy.ID <= 0 {
				return nil, fmt.Errorf("relation %d: way id %d", r.ID, wy.ID)
			}
			c, err := next("way")
			if err != nil {
				return nil, err
			}
			if c < 0 || c > int64(len(w)-p) {
				return nil, fmt.Errorf("relation %d way %d: location count %d", r.ID, wy.ID, c)
			}
			for j := int64(0); j < c; j++ {
				l, _ := next("way")
				wy.Loc = append(wy.Loc, l)
			}
			r.Ways = append(r.Ways, wy)
		}
		out = append(out, r)
	}
	return out, nil
}

func collapse(refs []int64) []int64 {
	var o []int64
	for i, r := range refs {
		if i == 0 || r != refs[i-1] {
			o = append(o, r)
		}
	}
	return o
}

func eqI64(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func showI64(a []int64) string {
	if len(a) > 12 {
		return fmt.Sprintf("%v... (%d)", a[:12], len(a))
	}
	return fmt.Sprint(a)
}
