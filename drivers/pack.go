// Driver: packed fields of index entries.
package main

import (
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
)

type request struct {
	Kind string
	A, B uint64
}

type answer struct {
	Refused bool
	A, B    uint64
	Raw     uint64
}

func pack(r request) (a answer) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(driverError); ok {
				panic(x)
			}
			a = answer{Refused: true}
		}
	}()
	switch r.Kind {
	case "node":
		co := nodeindex.NewCountOffset(r.A, r.B)
		return answer{A: co.Count(), B: co.Offset(), Raw: uint64(co)}
	case "way":
		d := wayindex.MakeIndexData(int64(r.A), int64(r.B))
		return answer{A: uint64(d.WayID()), B: uint64(d.Offset()), Raw: uint64(d)}
	}
	drvFail("kind %q", r.Kind)
	return
}

func main() {
	serve(func(line []byte) interface{} {
		var rs []request
		parse(line, &rs)
		out := make([]answer, len(rs))
		for i, r := range rs {
			out[i] = pack(r)
		}
		return out
	})
}
