// Driver: builds sub-indexes of a node or way index file and performs lookups.
package main

import (
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/wayindex"
)

type query struct {
	Pass int
	ID   int64
	Hint int
}

type request struct {
	Kind    string
	File    string
	Passes  int
	Timing  float64
	Queries []query
}

type answer struct {
	Loc   int64
	Locs  []int64
	Found bool
	Hint  int
}

type result struct {
	Ans   []answer
	Count uint64
}

func hintFor(q query, last int, count int) int {
	switch {
	case q.Hint >= 0:
		return q.Hint
	case q.Hint == -1:
		return 0
	case q.Hint == -2:
		return last
	}
	h := count * (-q.Hint - 3) / 8
	if h >= count {
		h = count - 1
	}
	if h < 0 {
		h = 0
	}
	return h
}

func main() {
	serve(func(line []byte) interface{} {
		var r request
		parse(line, &r)
		var timing *float64
		if r.Timing != 0 {
			timing = &r.Timing
		}
		var out result
		last := make([]int, r.Passes)
		switch r.Kind {
		case "node":
			ix := nodeindex.NewNodeIndex(r.File, timing)
			defer ix.Close()
			out.Count = ix.LocationCount()
			subs := make([]*nodeindex.NodeSubIndex, r.Passes)
			for i := range subs {
				subs[i] = ix.SubIndex(uint64(i), uint64(r.Passes))
			}
			for _, q := range r.Queries {
				s := subs[q.Pass]
				l, h, ok := s.FindNode(uint64(q.ID), hintFor(q, last[q.Pass], s.ElementCount()))
				last[q.Pass] = h
				out.Ans = append(out.Ans, answer{Loc: l, Found: ok, Hint: h})
			}
		case "way":
			ix := wayindex.NewWayIndex(r.File, timing)
			defer ix.Close()
			subs := make([]*wayindex.SubWayIndex, r.Passes)
			for i := range subs {
				subs[i] = ix.SubIndexWithScaledPass(i, r.Passes)
			}
			for _, q := range r.Queries {
				s := subs[q.Pass]
				l, h, ok := s.FindLocations(q.ID, hintFor(q, last[q.Pass], len(s.Ids)))
				last[q.Pass] = h
				out.Ans = append(out.Ans, answer{Locs: l, Found: ok, Hint: h})
			}
		default:
			drvFail("kind %q", r.Kind)
		}
		return out
	})
}
