// Driver: location encoding.
package main

import (
	"github.com/squizzling/osmindex/internal/morton"
)

type request struct {
	X, Y []int32  // encode these
	V    []uint64 // decode these
}

type result struct {
	Enc      []uint64
	DX, DY   []uint32
	LX, LY   []int32
	VX, VY   []uint32
	VLX, VLY []int32
}

func main() {
	serve(func(line []byte) interface{} {
		var r request
		parse(line, &r)
		var o result
		for i := range r.X {
			e := morton.Encode(r.X[i], r.Y[i])
			x, y := morton.Decode(e)
			lx, ly := morton.DecodeLocation(e)
			o.Enc = append(o.Enc, e)
			o.DX, o.DY = append(o.DX, x), append(o.DY, y)
			o.LX, o.LY = append(o.LX, lx), append(o.LY, ly)
		}
		for _, v := range r.V {
			x, y := morton.Decode(v)
			lx, ly := morton.DecodeLocation(v)
			o.VX, o.VY = append(o.VX, x), append(o.VY, y)
			o.VLX, o.VLY = append(o.VLX, lx), append(o.VLY, ly)
			o.Enc = append(o.Enc, morton.Encode(int32(x), int32(y)))
		}
		return o
	})
}
